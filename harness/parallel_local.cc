// Element-wise operations, all ranks.
#include "parallel.h"
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/algebra/elementary/divide.h"
#include "fern/algorithm/algebra/elementary/sqrt.h"
#include "fern/algorithm/algebra/elementary/pow.h"
#include "fern/algorithm/algebra/elementary/less.h"
#include "fern/algorithm/algebra/boole/and.h"
#include "fern/algorithm/core/fill.h"
#include "fern/algorithm/core/nullary_local_operation.h"
#include "fern/algorithm/trigonometry/acos.h"

namespace par {

std::vector<mc::Config>& configs() { static std::vector<mc::Config> c; return c; }

namespace {

template<int r> struct Out { template<class T> static auto make(Shape const& s) { return blank<T, r>(s); } };

struct Seven
{
    template<class R> void operator()(R& result) const { result = 7; }
};

template<int r> void nullary()
{
    add<r == 2>("nullary", r, [](auto& policy, Shape const& s, unsigned mask) {
        auto result = blank<double, r>(s);
        Mark<decltype(result)> out(result.mask(), true);
        (void)mask;
        fa::nullary_local_operation<Seven>(fa::InputNoDataPolicies<fa::SkipNoData>{{}}, out, policy, result);
        return raw(result);
    });
}

template<int r> void unary()
{
    using V = typename ByRank<double, r>::type;
    add("sqrt", r, [](auto& policy, Shape const& s, unsigned mask) {
        auto value = make<double, r>(s, 3, mask);
        for(size_t i = 0; i < count_of(value); ++i) at(value, i) -= 4;
        auto result = blank<double, r>(s);
        fa::InputNoDataPolicies<Detect<V>> in{{value.mask(), true}};
        Mark<V> out(result.mask(), true);
        fa::algebra::sqrt<fa::sqrt::OutOfDomainPolicy>(in, out, policy, value, result);
        return raw(result);
    });
    add("acos", r, [](auto& policy, Shape const& s, unsigned mask) {
        auto value = make<double, r>(s, 3, mask);
        for(size_t i = 0; i < count_of(value); ++i) at(value, i) /= 8;
        auto result = blank<double, r>(s);
        fa::InputNoDataPolicies<Detect<V>> in{{value.mask(), true}};
        Mark<V> out(result.mask(), true);
        fa::trigonometry::acos<fa::acos::OutOfDomainPolicy>(in, out, policy, value, result);
        return raw(result);
    }, false);
    add<r == 2>("fill", r, [](auto& policy, Shape const& s, unsigned mask) {
        auto result = blank<double, r>(s);
        bool no_data = mask & 1;
        fa::InputNoDataPolicies<D0> in{{no_data, true}};
        Mark<V> out(result.mask(), true);
        fa::core::fill(in, out, policy, 5.0, result);
        return raw(result);
    });
}

template<int r, int r1, int r2_> void binary()
{
    std::string ranks = "-" + std::to_string(r1) + std::to_string(r2_);
    add("add" + ranks, r, [](auto& policy, Shape const& s, unsigned mask) {
        auto a = make<int8_t, r1>(s, 3, mask); auto b = make<int8_t, r2_>(s, 5, r2_ ? mask >> 1 : 0);
        at(a, 0);
        for(size_t i = 0; i < count_of(a); i += 2) at(a, i) = 120;
        auto result = blank<int8_t, r>(s);
        fa::InputNoDataPolicies<Detect<decltype(a)>, Detect<decltype(b)>> in{{a.mask(), true}, {b.mask(), true}};
        Mark<decltype(result)> out(result.mask(), true);
        fa::algebra::add<fa::add::OutOfRangePolicy>(in, out, policy, a, b, result);
        return raw(result);
    });
    add("divide" + ranks, r, [](auto& policy, Shape const& s, unsigned mask) {
        auto a = make<double, r1>(s, 3, r1 ? mask : 0); auto b = make<double, r2_>(s, 4, mask >> 1);
        for(size_t i = 0; i < count_of(b); i += 3) at(b, i) = 0;
        auto result = blank<double, r>(s);
        fa::InputNoDataPolicies<Detect<decltype(a)>, Detect<decltype(b)>> in{{a.mask(), true}, {b.mask(), true}};
        Mark<decltype(result)> out(result.mask(), true);
        fa::algebra::divide<fa::divide::OutOfDomainPolicy, fa::divide::OutOfRangePolicy>(in, out, policy, a, b, result);
        return raw(result);
    }, r1 && r2_);
    add("pow" + ranks, r, [](auto& policy, Shape const& s, unsigned mask) {
        auto a = make<double, r1>(s, 3, mask); auto b = make<double, r2_>(s, 4, 0);
        for(size_t i = 0; i < count_of(a); i += 2) at(a, i) = 1e300;
        for(size_t i = 1; i < count_of(a); i += 3) at(a, i) = -2;
        for(size_t i = 0; i < count_of(b); i += 2) at(b, i) = 0.5;
        auto result = blank<double, r>(s);
        fa::InputNoDataPolicies<Detect<decltype(a)>, Detect<decltype(b)>> in{{a.mask(), true}, {b.mask(), true}};
        Mark<decltype(result)> out(result.mask(), true);
        fa::algebra::pow<fa::pow::OutOfDomainPolicy, fa::pow::OutOfRangePolicy>(in, out, policy, a, b, result);
        return raw(result);
    }, false);
    add("less" + ranks, r, [](auto& policy, Shape const& s, unsigned mask) {
        auto a = make<int, r1>(s, 3, mask); auto b = make<int, r2_>(s, 6, r2_ ? mask >> 2 : 0);
        auto result = blank<bool, r>(s);
        fa::InputNoDataPolicies<Detect<decltype(a)>, Detect<decltype(b)>> in{{a.mask(), true}, {b.mask(), true}};
        Mark<decltype(result)> out(result.mask(), true);
        fa::algebra::less(in, out, policy, a, b, result);
        return raw(result);
    }, false);
    // Without policies.
    add("and-plain" + ranks, r, [](auto& policy, Shape const& s, unsigned mask) {
        auto a = make<bool, r1>(s, (int)(mask & 3), 0); auto b = make<bool, r2_>(s, 1, 0);
        auto result = blank<bool, r>(s);
        fa::algebra::and_(policy, a, b, result);
        return raw(result);
    }, false);
}

struct Register
{
    Register()
    {
        nullary<1>(); nullary<2>();
        unary<1>(); unary<2>();
        binary<1, 1, 1>(); binary<1, 0, 1>(); binary<1, 1, 0>();
        binary<2, 2, 2>(); binary<2, 0, 2>(); binary<2, 2, 0>();
    }
} register_;

} // namespace
} // namespace par

int main(int argc, char** argv) { return mc::conc_main(argc, argv, par::configs()); }
