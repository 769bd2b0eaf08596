// See convolution.h.
#define SEQ_MAIN
#include "convolution.h"

SUITE("C12", "radius 1, all no-data patterns of 3x4")
{
    images(ctx, 3, 4, -1, [&](Image const& i, std::string const& what) { all_policies<double>(ctx, i, k3, square<int, 1>(k3), what); });
}

SUITE("C12", "radius 1, all no-data patterns of 4x3")
{
    images(ctx, 4, 3, -1, [&](Image const& i, std::string const& what) { all_policies<double>(ctx, i, k3, square<int, 1>(k3), what); });
}

SUITE("C12", "radius 1, 4x4")
{
    images(ctx, 4, 4, ctx.thorough() ? -1 : 2, [&](Image const& i, std::string const& what) { all_policies<double>(ctx, i, k3, kernel<int>(k3), what); });
}

SUITE("C12", "radius 1, 5x6")
{
    images(ctx, 5, 6, 2, [&](Image const& i, std::string const& what) { all_policies<double>(ctx, i, k3, square<int, 1>(k3), what); });
}

// Every single kernel weight against every single image value: what each
// element of the image contributes to each element of the result.
SUITE("C12", "impulse response")
{
    for(int radius: {1, 2}) for(int rows: {2 * radius + 1, 2 * radius + 2, 2 * radius + 4}) for(int cols: {2 * radius + 1, 2 * radius + 3}) {
        int size = (2 * radius + 1) * (2 * radius + 1);
        for(int k = 0; k < size; ++k) for(int p = 0; p < rows * cols; ++p) {
            if(!ctx.begin()) continue;
            Weights w{radius, std::vector<double>(size, 0)}; w.w[k] = 3;
            Image i{rows, cols, std::vector<double>(rows * cols, 0), std::vector<bool>(rows * cols, false)}; i.v[p] = 5;
            auto what = cat("radius ", radius, " ", rows, "x", cols, " weight ", k, " value ", p);
            ctx.nontrivial(what);
            run<cv::SkipNoData, cv::DontDivideByWeights, cv::SkipOutOfImage, cv::KeepNoDataFocusElement, fa::unary::DiscardRangeErrors, double>(ctx, i, w, kernel<int>(w), what);
            run<cv::SkipNoData, cv::DivideByWeights, cv::ReplaceOutOfImageByFocalAverage, cv::KeepNoDataFocusElement, fa::unary::DiscardRangeErrors, double>(ctx, i, w, kernel<int>(w), what);
        }
    }
}

// Sums that are not finite are marked, in every region of the image.
SUITE("C12", "out of range")
{
    for(int rows: {3, 4}) for(int cols: {3, 5}) for(int p = 0; p < rows * cols; ++p) for(int q = 0; q < rows * cols; ++q) for(double big: {1e308, -1.5e308, (double)INFINITY}) {
        if(!ctx.begin()) continue;
        Weights w{1, {1, 1, 1, 1, 1, 1, 1, 1, 1}};
        Image i{rows, cols, std::vector<double>(rows * cols, 1), std::vector<bool>(rows * cols, false)};
        i.v[p] = big; i.v[q] = big;
        auto what = cat(rows, "x", cols, " ", big, " at ", p, " and ", q);
        ctx.nontrivial(what);
        run<cv::SkipNoData, cv::DontDivideByWeights, cv::SkipOutOfImage, cv::KeepNoDataFocusElement, cv::OutOfRangePolicy, double>(ctx, i, w, square<int, 1>(w), what);
        run<cv::SkipNoData, cv::DontDivideByWeights, cv::SkipOutOfImage, cv::ReplaceNoDataFocusElement, cv::OutOfRangePolicy, double>(ctx, i, w, kernel<double>(w), what);
    }
}

// The defaults: skip no-data, divide by the weights, skip what is outside.
SUITE("C12", "kernels")
{
    if(ctx.begin()) {
        ctx.describe("kernels list their weights row by row");
        ctx.nontrivial("kernels");
        fern::Square<int, 1> s({{1, 2, 3}, {4, 5, 6}, {7, 8, 9}}); fern::Kernel<int> k(1, {{1, 2, 3}, {4, 5, 6}, {7, 8, 9}}), c(2, 5);
        using fern::index; using fern::get; using fern::size; using fern::radius;
        for(size_t r = 0; r < 3; ++r) for(size_t q = 0; q < 3; ++q) {
            int want = (int)(r * 3 + q) + 1;
            ctx.check(get(s, index(s, r, q)) == want, "square order", cat("weight (", r, ", ", q, ")"));
            ctx.check(get(k, index(k, r, q)) == want, "kernel order", cat("weight (", r, ", ", q, ")"));
        }
        ctx.check(size(s, 0) == 3 && size(s, 1) == 3 && size(k, 0) == 3 && size(k, 1) == 3 && size(c, 0) == 5 && radius(s) == 1 && radius(k) == 1 && radius(c) == 2, "size", "size and radius of kernels");
        for(size_t i = 0; i < 25; ++i) ctx.check(get(c, i) == 5, "constant", "constant kernel");
    }
}

SUITE("C12", "defaults")
{
    for(int rows = 3; rows <= 6; ++rows) for(int cols = 3; cols <= 6; ++cols) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("defaults ", rows, "x", cols));
        ctx.nontrivial(cat(rows, "x", cols));
        auto i = image(rows, cols, 0);
        fern::Array<double, 2> source(fern::extents[rows][cols]), result(fern::extents[rows][cols]);
        for(int k = 0; k < rows * cols; ++k) source.data()[k] = i.v[k];
        fa::convolution::convolve(sequential, source, square<int, 1>(k3), result);
        for(int k = 0; k < rows * cols; ++k) {
            auto e = expected(i, k3, k / cols, k % cols, false, true, false, true, false, 0);
            ctx.check(std::fabs(result.data()[k] - e.value) < 1e-9, "defaults", cat("element ", k, " is ", result.data()[k], ", must be ", e.value));
        }
    }
}
