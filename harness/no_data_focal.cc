// Operations on neighbourhoods.
#include "no_data.h"

namespace {

namespace cv = fa::convolve;
fern::Square<int, 1> const kernel_({{1, 2, 4}, {8, 16, 32}, {64, 128, 256}});
OPERATION(Convolve, { ONE(double, double)
    fa::convolution::convolve<cv::SkipNoData, cv::DontDivideByWeights, cv::SkipOutOfImage, cv::KeepNoDataFocusElement, cv::OutOfRangePolicy>(in, out, policy, v.c, kernel_, r.c); RESULT })
OPERATION(ConvolveAverage, { ONE(double, double)
    fa::convolution::convolve<cv::ReplaceNoDataByFocalAverage, cv::DivideByWeights, cv::ReplaceOutOfImageByFocalAverage, cv::ReplaceNoDataFocusElement, cv::OutOfRangePolicy>(in, out, policy, v.c, kernel_, r.c); RESULT })
OPERATION(GradientX, { ONE(double, double) fa::algebra::gradient_x(in, out, policy, v.c, r.c); RESULT })
OPERATION(GradientY, { ONE(double, double) fa::algebra::gradient_y(in, out, policy, v.c, r.c); RESULT })
OPERATION(Slope, { ONE(double, double) fa::space::slope<fa::unary::DiscardRangeErrors>(in, out, policy, v.c, r.c); RESULT })
OPERATION(Laplacian, { ONE(double, double) fa::algebra::laplacian<fa::unary::DiscardRangeErrors>(in, out, policy, v.c, r.c); RESULT })
OPERATION(Lax, { ONE(double, double) fa::algebra::lax(in, out, policy, v.c, 0.25, r.c); RESULT })

size_t neighbours(Arguments const& a, size_t i)
{
    size_t n = 0;
    int rows = a.shape.rows, cols = a.shape.cols, r = i / cols, c = i % cols;
    for(int y = r - 1; y <= r + 1; ++y) for(int x = c - 1; x <= c + 1; ++x)
        n += (y != r || x != c) && y >= 0 && y < rows && x >= 0 && x < cols && !a.e[0][y * cols + x].no_data;
    return n;
}

} // namespace

SUITE("C21", "focal")
{
    bool t = ctx.thorough();
    std::vector<Shape> shapes{{2, 3, 3}, {2, 3, 4}, {2, 4, 3}};
    if(t) shapes.push_back({2, 3, 5});
    for(auto const& s: shapes) patterns(ctx, s, 1, [&](Arguments const& a) {
        ways(ctx, "convolve", Convolve<2>(), a); ways(ctx, "convolve with averages", ConvolveAverage<2>(), a);
        ways(ctx, "gradient_x", GradientX<raster>(), a); ways(ctx, "gradient_y", GradientY<raster>(), a);
        // Composed of other operations: no-data of their intermediate results
        // is kept as the traits of the collection tell.
        auto composed = [&](char const* name, auto const& f) {
            auto want = f.template run<ByMask>(a), got = f.template run<ByType>(a);
            // Apart: elements of which all neighbours are no-data.
            std::istringstream g(got), w(want); std::string x, y;
            for(size_t i = 0; i < a.e[0].size(); ++i) {
                g >> x; w >> y;
                bool lonely = !a.e[0][i].no_data && neighbours(a, i) == 0;
                ctx.check(x == y, cat(name, " by type", lonely ? ", an element without neighbours" : ""), cat("element ", i, " is ", x, ", and ", y, " when no-data is kept in a mask"));
            }
        };
        composed("slope", Slope<raster>()); composed("laplacian", Laplacian<raster>()); composed("lax", Lax<raster>());
    });
}

