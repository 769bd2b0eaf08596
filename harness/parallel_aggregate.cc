// Statistics and convolution-like operations.
#include "parallel.h"
#include "fern/core/data_customization_point/vector.h"
#include "fern/algorithm/statistic/binary_max.h"
#include "fern/algorithm/statistic/count.h"
#include "fern/algorithm/statistic/mean.h"
#include "fern/algorithm/statistic/sum.h"
#include "fern/algorithm/statistic/unary_max.h"
#include "fern/algorithm/statistic/unary_min.h"

namespace par {
namespace {

template<int r> void statistics()
{
    add("sum", r, [](auto& policy, Shape const& s, unsigned mask) {
        auto v = make<double, r>(s, 3, mask); S<double> result(77);
        fa::InputNoDataPolicies<Detect<decltype(v)>> in{{v.mask(), true}};
        O0 out(result.mask(), true);
        fa::statistic::sum<fa::sum::OutOfRangePolicy>(in, out, policy, v, result);
        return raw(result);
    });
    add("sum-int8", r, [](auto& policy, Shape const& s, unsigned mask) {
        auto v = make<int64_t, r>(s, 3, mask); S<int64_t> result(77);
        fa::InputNoDataPolicies<Detect<decltype(v)>> in{{v.mask(), true}};
        O0 out(result.mask(), true);
        fa::statistic::sum<fa::binary::DiscardRangeErrors>(in, out, policy, v, result);
        return raw(result);
    }, false);
    add("mean", r, [](auto& policy, Shape const& s, unsigned mask) {
        auto v = make<double, r>(s, 3, mask); S<double> result(77);
        fa::InputNoDataPolicies<Detect<decltype(v)>> in{{v.mask(), true}};
        O0 out(result.mask(), true);
        fa::statistic::mean<fa::binary::DiscardRangeErrors>(in, out, policy, v, result);
        return raw(result);
    });
    add("max", r, [](auto& policy, Shape const& s, unsigned mask) {
        auto v = make<int, r>(s, 3, mask); S<int> result(77);
        fa::InputNoDataPolicies<Detect<decltype(v)>> in{{v.mask(), true}};
        O0 out(result.mask(), true);
        fa::statistic::unary_max(in, out, policy, v, result);
        return raw(result);
    });
    add("min", r, [](auto& policy, Shape const& s, unsigned mask) {
        auto v = make<int, r>(s, 3, mask); S<int> result(77);
        fa::InputNoDataPolicies<Detect<decltype(v)>> in{{v.mask(), true}};
        O0 out(result.mask(), true);
        fa::statistic::unary_min(in, out, policy, v, result);
        return raw(result);
    }, false);
    add("count", r, [](auto& policy, Shape const& s, unsigned mask) {
        auto v = make<int, r>(s, 3, mask); S<size_t> result(77);
        fa::InputNoDataPolicies<Detect<decltype(v)>, fa::SkipNoData> in{{v.mask(), true}, {}};
        O0 out(result.mask(), true);
        fa::statistic::count(in, out, policy, v, 4, result);
        return raw(result);
    });
    add("binary-max", r, [](auto& policy, Shape const& s, unsigned mask) {
        auto a = make<int, r>(s, 3, mask); auto b = make<int, r>(s, 5, mask >> 1); auto result = blank<int, r>(s);
        fa::InputNoDataPolicies<Detect<decltype(a)>, Detect<decltype(b)>> in{{a.mask(), true}, {b.mask(), true}};
        Mark<decltype(result)> out(result.mask(), true);
        fa::statistic::binary_max(in, out, policy, a, b, result);
        return raw(result);
    }, false);
}

struct Register { Register() { statistics<1>(); statistics<2>(); } } register_;

} // namespace
} // namespace par
