// Convolution, gradient, slope, laplacian, lax.
// Before the policies, which call it.
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/algorithm/core/argument_traits/masked_raster.h"
#include "fern/algorithm/core/argument_customization_point/masked_raster.h"
#include "parallel.h"
#include "fern/algorithm/algebra/vector/gradient.h"
#include "fern/algorithm/algebra/vector/laplacian.h"
#include "fern/algorithm/algebra/vector/lax.h"
#include "fern/algorithm/convolution/convolve.h"
#include "fern/algorithm/convolution/neighborhood/kernel.h"
#include "fern/algorithm/convolution/neighborhood/square.h"
#include "fern/algorithm/space/focal/slope.h"

namespace par {
namespace {

R2<double> raster(Shape const& s, int seed, unsigned mask)
{
    auto r = r2<double>(s.rows, s.cols, 2, 4, 77.);
    put(r, seed, mask);
    return r;
}

struct Register
{
    Register()
    {
        add("gradient-x", 3, [](auto& policy, Shape const& s, unsigned mask) {
            auto v = raster(s, 3, mask); auto result = r2<double>(s.rows, s.cols, 2, 4, 77.);
            fa::InputNoDataPolicies<D2> in{{v.mask(), true}}; O2 out(result.mask(), true);
            fa::algebra::gradient_x(in, out, policy, v, result);
            return raw(result);
        });
        add("gradient-y", 3, [](auto& policy, Shape const& s, unsigned mask) {
            auto v = raster(s, 3, mask); auto result = r2<double>(s.rows, s.cols, 2, 4, 77.);
            fa::InputNoDataPolicies<D2> in{{v.mask(), true}}; O2 out(result.mask(), true);
            fa::algebra::gradient_y(in, out, policy, v, result);
            return raw(result);
        });
        add("slope", 3, [](auto& policy, Shape const& s, unsigned mask) {
            auto v = raster(s, 3, mask); auto result = r2<double>(s.rows, s.cols, 2, 4, 77.);
            fa::InputNoDataPolicies<D2> in{{v.mask(), true}}; O2 out(result.mask(), true);
            fa::space::slope<fa::unary::DiscardRangeErrors>(in, out, policy, v, result);
            return raw(result);
        }, false);
        add("laplacian", 3, [](auto& policy, Shape const& s, unsigned mask) {
            auto v = raster(s, 3, mask); auto result = r2<double>(s.rows, s.cols, 2, 4, 77.);
            fa::InputNoDataPolicies<D2> in{{v.mask(), true}}; O2 out(result.mask(), true);
            fa::algebra::laplacian<fa::unary::DiscardRangeErrors>(in, out, policy, v, result);
            return raw(result);
        }, false);
        add("lax", 3, [](auto& policy, Shape const& s, unsigned mask) {
            auto v = raster(s, 3, mask); auto result = r2<double>(s.rows, s.cols, 2, 4, 77.);
            fa::InputNoDataPolicies<D2> in{{v.mask(), true}}; O2 out(result.mask(), true);
            fa::algebra::lax(in, out, policy, v, 0.25, result);
            return raw(result);
        }, false);
        add("convolve", 3, [](auto& policy, Shape const& s, unsigned mask) {
            auto v = make<double, 2>(s, 3, mask); auto result = blank<double, 2>(s);
            fa::InputNoDataPolicies<D2> in{{v.mask(), true}}; O2 out(result.mask(), true);
            fern::Kernel<double> kernel(1, {{1, 2, 3}, {4, 5, 6}, {7, 8, 9}});
            fa::convolution::convolve<fa::convolve::SkipNoData, fa::convolve::DontDivideByWeights, fa::convolve::SkipOutOfImage,
                fa::convolve::KeepNoDataFocusElement, fa::unary::DiscardRangeErrors>(in, out, policy, v, kernel, result);
            return raw(result);
        }, false);
        add("convolve-replace", 3, [](auto& policy, Shape const& s, unsigned mask) {
            if(s.rows < 5 || s.cols < 5) return std::string();
            auto v = make<double, 2>(s, 3, mask); auto result = blank<double, 2>(s);
            fa::InputNoDataPolicies<D2> in{{v.mask(), true}}; O2 out(result.mask(), true);
            fern::Square<int, 2> kernel({{1, 2, 3, 2, 1}, {2, 3, 4, 3, 2}, {3, 4, 5, 4, 3}, {2, 3, 4, 3, 2}, {1, 2, 3, 2, 1}});
            fa::convolution::convolve<fa::convolve::ReplaceNoDataByFocalAverage, fa::convolve::DivideByWeights, fa::convolve::ReplaceOutOfImageByFocalAverage,
                fa::convolve::ReplaceNoDataFocusElement, fa::convolve::OutOfRangePolicy>(in, out, policy, v, kernel, result);
            return raw(result);
        }, false);
        add("convolve-plain", 3, [](auto& policy, Shape const& s, unsigned) {
            auto v = make<double, 2>(s, 3, 0); auto result = blank<double, 2>(s);
            fern::Kernel<bool> kernel(1, {{true, false, true}, {false, true, false}, {true, true, false}});
            fa::convolution::convolve(policy, v, kernel, result);
            return raw(result);
        }, false);
    }
} register_;

} // namespace
} // namespace par
