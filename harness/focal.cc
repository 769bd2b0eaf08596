// Slope, gradient, laplacian and lax against their definitions, for every
// no-data pattern of small rasters.
#define SEQ_MAIN
// Before the policies, which call it.
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/algorithm/core/argument_traits/masked_raster.h"
#include "fern/algorithm/core/argument_customization_point/masked_raster.h"
#include "convolution.h"
#include "fern/algorithm/algebra/vector/gradient.h"
#include "fern/algorithm/algebra/vector/laplacian.h"
#include "fern/algorithm/algebra/vector/lax.h"
#include "fern/algorithm/space/focal/slope.h"

namespace {

struct Cells { double width, height; };
Cells const cells_[] = {{1, 1}, {2, 5}, {0.5, 0.25}};

template<class T> R2<T> raster(Image const& i, Cells const& c)
{
    auto r = r2<T>(i.rows, i.cols, c.width, c.height);
    for(size_t k = 0; k < i.v.size(); ++k) { at(r, k) = (T)i.v[k]; mask_at(r, k) = i.no_data[k]; }
    return r;
}

// Also in parallel, by more than one thread.
bool also_parallel = false;

template<class T, class Operation, class Model, class Policy>
void run_by(seq::Context& ctx, std::string const& name, Image const& i, Cells const& cells, std::string const& what, Operation operation, Model model, Policy& policy)
{
    std::string text = cat(name, " ", what, " cells ", cells.width, "x", cells.height, sizeof(T) == 4 ? " float" : "");
    ctx.describe(text);
    auto value = raster<T>(i, cells), result = r2<T>(i.rows, i.cols, cells.width, cells.height, (T)-77);
    fa::InputNoDataPolicies<D2> in{{value.mask(), true}}; O2 out(result.mask(), true);
    operation(in, out, policy, value, result);
    double eps = sizeof(T) == 4 ? 1e-4 : 1e-11;
    for(int r = 0; r < i.rows; ++r) for(int c = 0; c < i.cols; ++c) {
        Expected e = model(r, c);
        size_t k = r * i.cols + c;
        std::string where = cat("element (", r, ", ", c, ")");
        if(!ctx.check(mask_at(result, k) == (e.kind == Kind::no_data), cat(name, " no-data"),
            cat(where, e.kind == Kind::no_data ? " must be no-data" : " must not be no-data"))) continue;
        if(e.kind == Kind::value) {
            double got = at(result, k);
            ctx.check(std::fabs(got - e.value) <= eps * (1 + std::fabs(e.value)), cat(name, " value"), cat(where, " is ", got, ", must be ", e.value));
        }
    }
    for(size_t k = 0; k < i.v.size(); ++k)
        ctx.check(same((double)at(value, k), (double)(T)i.v[k]) && mask_at(value, k) == i.no_data[k], cat(name, " argument"), "the argument was written");
}

template<class T, class Operation, class Model>
void run(seq::Context& ctx, char const* name, Image const& i, Cells const& cells, std::string const& what, Operation operation, Model model)
{
    run_by<T>(ctx, name, i, cells, what, operation, model, sequential);
    if constexpr(sizeof(T) == 8) if(also_parallel) {
        run_by<T>(ctx, cat(name, " parallel"), i, cells, what, operation, model, parallel(2));
        run_by<T>(ctx, cat(name, " parallel by 3"), i, cells, what, operation, model, parallel(3));
    }
}

Weights const dx{1, {1, 0, -1, 2, 0, -2, 1, 0, -1}};
Weights const dy{1, {-1, -2, -1, 0, 0, 0, 1, 2, 1}};
Weights const ring{1, {2, 3, 2, 3, 0, 3, 2, 3, 2}};

template<class T> Expected slope_of(Image const& i, Cells const& cells, int r, int c)
{
    double largest = std::numeric_limits<T>::max();
    Expected x = expected(i, dx, r, c, true, false, true, true, true, std::numeric_limits<double>::max());
    Expected y = expected(i, dy, r, c, true, false, true, true, true, std::numeric_limits<double>::max());
    if(x.kind != Kind::value || y.kind != Kind::value) return {Kind::no_data, 0};
    double a = x.value / (8 * cells.width), b = y.value / (8 * cells.height);
    for(double v: {x.value, y.value, a, b, a * a, b * b, a * a + b * b}) if(!(std::fabs(v) <= largest)) return {Kind::no_data, 0};
    return {Kind::value, std::sqrt(a * a + b * b)};
}

Expected laplacian_of(Image const& i, Cells const& cells, int r, int c)
{
    Expected sum = expected(i, ring, r, c, false, false, false, true, true, std::numeric_limits<double>::max());
    if(sum.kind == Kind::no_data) return sum;
    double weights = 0;
    for(int y = -1; y <= 1; ++y) for(int x = -1; x <= 1; ++x) if(i.data(r + y, c + x)) weights += ring.at(y, x);
    if(weights == 0) return {Kind::no_data, 0};
    double v = (sum.value - weights * i.at(r, c)) / (cells.width * cells.height);
    return std::isfinite(v) ? Expected{Kind::value, v} : Expected{Kind::no_data, 0};
}

Expected lax_of(Image const& i, double fraction, int r, int c)
{
    Expected sum = expected(i, ring, r, c, false, true, false, true, true, std::numeric_limits<double>::max());
    if(sum.kind != Kind::value) return {Kind::no_data, 0};
    double v = (1 - fraction) * i.at(r, c) + fraction * sum.value;
    return std::isfinite(v) ? Expected{Kind::value, v} : Expected{Kind::no_data, 0};
}

// Along one axis: the mean of the differences with the valid neighbours.
Expected gradient_of(Image const& i, double distance, int r, int c, int step_r, int step_c)
{
    if(!i.data(r, c)) return {Kind::no_data, 0};
    bool before = i.data(r - step_r, c - step_c), after = i.data(r + step_r, c + step_c);
    if(before && after) return {Kind::value, (i.at(r + step_r, c + step_c) - i.at(r - step_r, c - step_c)) / (2 * distance)};
    if(before) return {Kind::value, (i.at(r, c) - i.at(r - step_r, c - step_c)) / distance};
    if(after) return {Kind::value, (i.at(r + step_r, c + step_c) - i.at(r, c)) / distance};
    return {Kind::value, 0};
}

template<class T> void slope(seq::Context& ctx, Image const& i, Cells const& cells, std::string const& what)
{
    run<T>(ctx, "slope", i, cells, what,
        [](auto& in, auto& out, auto& policy, auto& v, auto& r) { fa::space::slope<fa::unary::DiscardRangeErrors>(in, out, policy, v, r); },
        [&](int r, int c) { return slope_of<T>(i, cells, r, c); });
}

template<class T> void vector(seq::Context& ctx, Image const& i, Cells const& cells, std::string const& what)
{
    run<T>(ctx, "laplacian", i, cells, what,
        [](auto& in, auto& out, auto& policy, auto& v, auto& r) { fa::algebra::laplacian<fa::unary::DiscardRangeErrors>(in, out, policy, v, r); },
        [&](int r, int c) { return laplacian_of(i, cells, r, c); });
    if constexpr(sizeof(T) == 8)
        for(double fraction: {0., 0.25, 1.})
            run<T>(ctx, "lax", i, cells, cat(what, " fraction ", fraction),
                [&](auto& in, auto& out, auto& policy, auto& v, auto& r) { fa::algebra::lax(in, out, policy, v, (T)fraction, r); },
                [&](int r, int c) { return lax_of(i, fraction, r, c); });
}

template<class T> void gradient(seq::Context& ctx, Image const& i, Cells const& cells, std::string const& what)
{
    if(i.cols >= 2) run<T>(ctx, "gradient_x", i, cells, what,
        [](auto& in, auto& out, auto& policy, auto& v, auto& r) { fa::algebra::gradient_x(in, out, policy, v, r); },
        [&](int r, int c) { return gradient_of(i, cells.width, r, c, 0, 1); });
    if(i.rows >= 2) run<T>(ctx, "gradient_y", i, cells, what,
        [](auto& in, auto& out, auto& policy, auto& v, auto& r) { fa::algebra::gradient_y(in, out, policy, v, r); },
        [&](int r, int c) { return gradient_of(i, cells.height, r, c, 1, 0); });
}

} // namespace

SUITE("C13", "all no-data patterns")
{
    for(auto s: {std::pair<int, int>{3, 3}, {3, 4}, {4, 3}})
        images(ctx, s.first, s.second, -1, [&](Image const& i, std::string const& what) {
            for(auto const& c: cells_) slope<double>(ctx, i, c, what);
            slope<float>(ctx, i, cells_[1], what);
        });
}

SUITE("C13", "larger rasters")
{
    for(auto s: {std::pair<int, int>{4, 4}, {5, 5}, {6, 3}, {3, 7}})
        images(ctx, s.first, s.second, ctx.thorough() && s.first == 4 ? -1 : 2, [&](Image const& i, std::string const& what) { slope<double>(ctx, i, cells_[1], what); });
}

// A plane has the same slope everywhere inside.
SUITE("C13", "planes")
{
    for(int a = -3; a <= 3; ++a) for(int b = -3; b <= 3; ++b) for(auto const& cells: cells_) {
        if(!ctx.begin()) continue;
        auto what = cat("plane ", a, "x + ", b, "y");
        ctx.describe(what);
        ctx.nontrivial(cat(what, cells.width));
        auto v = r2<double>(5, 6, cells.width, cells.height), result = r2<double>(5, 6, cells.width, cells.height, -77.);
        for(int r = 0; r < 5; ++r) for(int c = 0; c < 6; ++c) at(v, r * 6 + c) = a * c * cells.width + b * r * cells.height;
        fa::space::slope(sequential, v, result);
        for(int r = 1; r < 4; ++r) for(int c = 1; c < 5; ++c)
            ctx.check(std::fabs(at(result, r * 6 + c) - std::sqrt(a * a + b * b)) < 1e-9, "plane", cat("element (", r, ", ", c, ") is ", at(result, r * 6 + c)));
    }
}

SUITE("C13", "out of range")
{
    for(auto s: {std::pair<int, int>{3, 3}, {4, 5}}) for(int p = 0; p < s.first * s.second; ++p) for(double big: {1e150, 1e155, 1e200, -1e308, (double)INFINITY, (double)NAN}) {
        if(!ctx.begin()) continue;
        auto what = cat(s.first, "x", s.second, " ", big, " at ", p);
        ctx.nontrivial(what);
        auto i = image(s.first, s.second, 0); i.v[p] = big;
        slope<double>(ctx, i, cells_[0], what);
    }
}

SUITE("C14", "all no-data patterns")
{
    for(auto s: {std::pair<int, int>{3, 3}, {3, 4}, {4, 3}})
        images(ctx, s.first, s.second, -1, [&](Image const& i, std::string const& what) {
            for(auto const& c: cells_) { vector<double>(ctx, i, c, what); gradient<double>(ctx, i, c, what); }
            gradient<float>(ctx, i, cells_[1], what);
        });
}

SUITE("C14", "gradient, all shapes")
{
    for(int rows = 1; rows <= 5; ++rows) for(int cols = 1; cols <= 5; ++cols) if(rows * cols <= (ctx.thorough() ? 16 : 10))
        images(ctx, rows, cols, -1, [&](Image const& i, std::string const& what) { gradient<double>(ctx, i, cells_[1], what); });
}

SUITE("C14", "larger rasters")
{
    for(auto s: {std::pair<int, int>{4, 4}, {5, 5}, {6, 3}, {3, 7}})
        images(ctx, s.first, s.second, ctx.thorough() && s.first == 4 ? -1 : 2, [&](Image const& i, std::string const& what) {
            vector<double>(ctx, i, cells_[1], what); gradient<double>(ctx, i, cells_[1], what);
        });
}

SUITE("C14", "out of range")
{
    for(auto s: {std::pair<int, int>{3, 3}, {4, 5}}) for(int p = 0; p < s.first * s.second; ++p) for(double big: {1e200, 1e308, -1e308, (double)INFINITY}) {
        if(!ctx.begin()) continue;
        auto what = cat(s.first, "x", s.second, " ", big, " at ", p);
        ctx.nontrivial(what);
        auto i = image(s.first, s.second, 0); i.v[p] = big;
        vector<double>(ctx, i, cells_[0], what);
    }
}

// Rasters with at least as many rows as threads, and fewer.
SUITE("C13", "in parallel")
{
    also_parallel = true;
    for(auto s: {std::pair<int, int>{2, 3}, {3, 2}, {2, 5}, {3, 3}, {4, 4}, {5, 3}, {3, 5}, {7, 2}, {8, 3}})
        images(ctx, s.first, s.second, s.first * s.second <= 6 || (ctx.thorough() && s.first * s.second <= 9) ? -1 : ctx.thorough() ? 2 : 1, [&](Image const& i, std::string const& what) { slope<double>(ctx, i, cells_[1], what); });
    also_parallel = false;
}

// Rasters with at least as many rows as threads, and fewer.
SUITE("C14", "in parallel")
{
    also_parallel = true;
    for(auto s: {std::pair<int, int>{2, 3}, {3, 2}, {2, 5}, {3, 3}, {4, 4}, {5, 3}, {3, 5}, {7, 2}, {8, 3}})
        images(ctx, s.first, s.second, s.first * s.second <= 6 || (ctx.thorough() && s.first * s.second <= 9) ? -1 : ctx.thorough() ? 2 : 1, [&](Image const& i, std::string const& what) { vector<double>(ctx, i, cells_[1], what); gradient<double>(ctx, i, cells_[1], what); });
    also_parallel = false;
}
