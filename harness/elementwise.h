// Element-wise operations against what they should compute: for every pattern
// of no-data, over all combinations of ranks (C06); for all pairs of special
// values (C08, C09).
#pragma once
#include "seq.h"
#include "alg.h"
#include <optional>

namespace ew {

using namespace alg;
using seq::cat;
using LD = long double;

// nothing: no-data
using Expect = std::optional<LD>;

inline Sequential& sequential() { static Sequential p; return p; }
inline fa::ParallelExecutionPolicy& parallel() { static fa::ParallelExecutionPolicy p(3); return p; }

template<class T> std::string type_name()
{
    if(std::is_same<T, bool>::value) return "bool";
    if(std::is_same<T, float>::value) return "float";
    if(std::is_same<T, double>::value) return "double";
    return cat(std::is_signed<T>::value ? "int" : "uint", 8 * sizeof(T));
}

// Whether a result of type T is, but for rounding, what is expected.
template<class T> bool near(T got, LD want)
{
    if(std::isnan(want)) return std::isnan((LD)got);
    if constexpr(std::is_floating_point<T>::value) {
        if(std::isinf(want) || std::isinf((LD)got) || want == 0) return (LD)got == want || (std::isinf((LD)got) && std::fabs(want) > (LD)std::numeric_limits<T>::max() && (got > 0) == (want > 0));
        LD ulp = (LD)std::numeric_limits<T>::epsilon() * std::fabs(want);
        LD slack = std::max(ulp * 8, (LD)std::numeric_limits<T>::denorm_min() * 2);
        return std::fabs((LD)got - want) <= slack;
    }
    else return (LD)got == want;
}

inline std::vector<Shape> shapes(bool thorough)
{
    std::vector<Shape> r{{0, 1, 1}};
    for(size_t n = 0; n <= (thorough ? 5u : 4u); ++n) r.push_back({1, 1, n});
    for(size_t a = 0; a <= 3; ++a) for(size_t b = 0; b <= 3; ++b) if(a * b <= (thorough ? 6u : 4u)) r.push_back({2, a, b});
    return r;
}

template<class F> void by_rank(int rank, F f)
{
    if(rank == 0) f(std::integral_constant<int, 0>()); else if(rank == 1) f(std::integral_constant<int, 1>()); else f(std::integral_constant<int, 2>());
}

template<class C> struct Loaded
{
    using T = typename KindOf<C>::value;
    Loaded(Shape const& s, std::vector<T> const& table, size_t shift, unsigned mask) : value(ByRank<T, KindOf<C>::rank>::make(s))
    {
        size_t n = count_of(value);
        for(size_t i = 0; i < n; ++i) { v.push_back(table[(i + shift) % table.size()]); m.push_back((mask >> i) & 1); }
        for(size_t i = 0; i < n; ++i) { at(value, i) = v[i]; mask_at(value, i) = m[i]; }
    }
    void unchanged(seq::Context& ctx, std::string const& key)
    {
        bool ok = true;
        for(size_t i = 0; i < v.size(); ++i) ok = ok && same(at(value, i), (T)v[i]) && mask_at(value, i) == m[i];
        ctx.check(ok, cat(key, " argument"), "an argument was written");
    }
    C value; std::vector<T> v; std::vector<bool> m;
};

template<class C> void compare(seq::Context& ctx, std::string const& key, C& got, std::vector<Expect> const& want)
{
    for(size_t i = 0; i < want.size(); ++i) {
        if(ctx.check(mask_at(got, i) == !want[i], cat(key, " no-data"), cat("element ", i, " of ", text_of(got), want[i] ? " must not be no-data" : " must be no-data")) && want[i])
            ctx.check(near(at(got, i), *want[i]), cat(key, " value"), cat("element ", i, " of ", text_of(got), " must be ", *want[i]));
    }
}

// Op: name, V, R, table(), expect(v), apply(in, out, policy, value, result), plain(policy, value, result)
template<class Op, class T> void unary_masks(seq::Context& ctx)
{
    using R = typename Op::template Result<T>;
    auto table = Op::template table<T>();
    std::string key = cat(Op::name, " ", type_name<T>());
    for(auto const& s: shapes(ctx.thorough())) by_rank(s.rank, [&](auto rank) {
        constexpr int k = decltype(rank)::value;
        for(unsigned mask = 0; mask < (1u << s.size()); ++mask) for(size_t shift = 0; shift < (s.size() ? table.size() : 1); ++shift) {
            if(!ctx.begin()) continue;
            Loaded<typename ByRank<T, k>::type> a(s, table, shift, mask);
            ctx.describe(cat(key, " ", s.name(), " ", text_of(a.value)));
            std::vector<Expect> want;
            bool all = true;
            for(size_t i = 0; i < a.v.size(); ++i) { want.push_back(a.m[i] ? Expect() : Op::expect((T)a.v[i])); all = all && want.back(); }
            auto run = [&](auto& policy, char const* how) {
                auto result = ByRank<R, k>::make(s, R(1));
                fa::InputNoDataPolicies<Detect<decltype(a.value)>> in{{a.value.mask(), true}};
                Mark<decltype(result)> out(result.mask(), true);
                Op::apply(in, out, policy, a.value, result);
                compare(ctx, cat(key, how), result, want);
            };
            run(sequential(), "");
            if constexpr(k > 0) run(parallel(), " parallel");
            if(all) {
                auto result = ByRank<R, k>::make(s, R(1));
                Op::plain(sequential(), a.value, result);
                compare(ctx, cat(key, " without policies"), result, want);
            }
            a.unchanged(ctx, key);
            ctx.nontrivial(cat(key, s.name(), mask, shift));
            ctx.outcome(cat(Op::name, all ? " all" : " some no-data"));
            ctx.sample(cat(key, " ", s.name(), " ", text_of(a.value)));
        }
    });
}

// All values, on scalars.
template<class Op, class T> void unary_values(seq::Context& ctx, std::vector<T> const& values)
{
    using R = typename Op::template Result<T>;
    std::string key = cat(Op::name, " ", type_name<T>());
    for(T v: values) {
        if(!ctx.begin()) continue;
        ctx.describe(cat(key, " of ", v));
        Expect want = Op::expect(v);
        S<T> value(v); S<R> result(R(1));
        fa::InputNoDataPolicies<D0> in{{value.mask(), true}}; O0 out(result.mask(), true);
        Op::apply(in, out, sequential(), value, result);
        compare(ctx, key, result, {want});
        if(want) {
            R plain(1);
            Op::plain(sequential(), v, plain);
            ctx.check(near(plain, *want), cat(key, " value without policies"), cat(key, " of ", v, " is ", plain, ", must be ", *want));
        }
        ctx.nontrivial(cat(key, v));
        ctx.outcome(cat(Op::name, want ? " value" : " no-data"));
        ctx.sample(cat(key, " of ", v));
    }
}

template<class Op, class A, class B, int ra, int rb> void binary_masks_of(seq::Context& ctx, Shape const& s)
{
    constexpr int k = ra > rb ? ra : rb;
    using R = typename Op::template Result<A, B>;
    auto ta = Op::template table1<A>(); auto tb = Op::template table2<B>();
    std::string key = cat(Op::name, " ", type_name<A>(), " ", type_name<B>(), " ", ra, rb);
    size_t na = ra ? s.size() : 1, nb = rb ? s.size() : 1;
    for(unsigned mask = 0; mask < (1u << (na + nb)); ++mask) for(size_t shift = 0; shift < (s.size() ? ta.size() : 1); ++shift) {
        if(!ctx.begin()) continue;
        Loaded<typename ByRank<A, ra>::type> a(s, ta, shift, mask);
        Loaded<typename ByRank<B, rb>::type> b(s, tb, mask % tb.size(), mask >> na);
        ctx.describe(cat(key, " ", s.name(), " ", text_of(a.value), " ", text_of(b.value)));
        std::vector<Expect> want;
        bool all = true;
        for(size_t i = 0; i < s.size(); ++i) {
            size_t i1 = ra ? i : 0, i2 = rb ? i : 0;
            want.push_back(a.m[i1] || b.m[i2] ? Expect() : Op::expect((A)a.v[i1], (B)b.v[i2]));
            all = all && want.back();
        }
        auto run = [&](auto& policy, char const* how) {
            auto result = ByRank<R, k>::make(s, R(1));
            fa::InputNoDataPolicies<Detect<decltype(a.value)>, Detect<decltype(b.value)>> in{{a.value.mask(), true}, {b.value.mask(), true}};
            Mark<decltype(result)> out(result.mask(), true);
            Op::apply(in, out, policy, a.value, b.value, result);
            compare(ctx, cat(key, how), result, want);
        };
        run(sequential(), "");
        if constexpr(k > 0) run(parallel(), " parallel");
        if(all) {
            auto result = ByRank<R, k>::make(s, R(1));
            Op::plain(sequential(), a.value, b.value, result);
            compare(ctx, cat(key, " without policies"), result, want);
        }
        a.unchanged(ctx, key); b.unchanged(ctx, key);
        ctx.nontrivial(cat(key, s.name(), mask, shift));
        ctx.outcome(cat(Op::name, all ? " all" : " some no-data"));
        ctx.sample(cat(key, " ", s.name(), " ", text_of(a.value), " ", text_of(b.value)));
    }
}

template<class Op, class A, class B> void binary_masks(seq::Context& ctx)
{
    for(auto const& s: shapes(ctx.thorough())) by_rank(s.rank, [&](auto rank) {
        constexpr int k = decltype(rank)::value;
        binary_masks_of<Op, A, B, k, k>(ctx, s);
        if constexpr(k > 0) { binary_masks_of<Op, A, B, k, 0>(ctx, s); binary_masks_of<Op, A, B, 0, k>(ctx, s); }
    });
}

template<class Op, class A, class B> void binary_values(seq::Context& ctx, std::vector<A> const& as, std::vector<B> const& bs)
{
    using R = typename Op::template Result<A, B>;
    std::string key = cat(Op::name, " ", type_name<A>(), " ", type_name<B>());
    for(A a: as) {
        if(!ctx.begin()) continue;
        for(B b: bs) {
            ctx.describe(cat(key, " of ", a, " and ", b));
            Expect want = Op::expect(a, b);
            S<A> va(a); S<B> vb(b); S<R> result(R(1));
            fa::InputNoDataPolicies<D0, D0> in{{va.mask(), true}, {vb.mask(), true}}; O0 out(result.mask(), true);
            Op::apply(in, out, sequential(), va, vb, result);
            compare(ctx, key, result, {want});
            if(want) {
                R plain(1);
                Op::plain(sequential(), a, b, plain);
                ctx.check(near(plain, *want), cat(key, " value without policies"), cat(key, " of ", a, " and ", b, " is ", plain, ", must be ", *want));
            }
            ctx.outcome(cat(Op::name, want ? " value" : " no-data"));
        }
        ctx.nontrivial(cat(key, a));
        ctx.sample(cat(key, " of ", a, " and ", bs.size(), " others"));
    }
}

// Values where floating point functions change their behaviour.
template<class T> std::vector<T> special()
{
    using L = std::numeric_limits<T>;
    std::vector<T> r{0, T(-0.), 1, -1, T(.5), T(-.5), T(1.5), T(-1.5), T(2.5), T(-2.5), 2, -2, 3, -3, 4, 5, -5, 7, 8, 10, -10, 16, T(0.1), T(-0.1), T(0.49999997), T(.75), T(-.75),
        100, 1000, -1000, 1024, T(1e6), T(-1e6), T(1e10), T(-1e10), T(1e15), T(4503599627370497.5), T(-4503599627370497.5), T(8388609.5), T(9007199254740993.),
        12, 20, 25, 33, 34, 35, 36, 50, 168, 169, 170, 171, 172, T(170.5), T(171.5), T(171.7), T(-170.5), T(-34.5), T(-5.01), T(-4.99),
        T(3.14159265358979323846), T(-3.14159265358979323846), T(1.57079632679489661923), T(-1.57079632679489661923), T(4.71238898038468985769), T(6.28318530717958647692), T(0.78539816339744830962), T(2.71828182845904523536),
        L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::max(), L::lowest(), L::epsilon(), L::infinity(), -L::infinity(), L::quiet_NaN(),
        std::nextafter(T(1), T(2)), std::nextafter(T(1), T(0)), std::nextafter(T(-1), T(-2)), std::nextafter(T(-1), T(0)), std::nextafter(T(0.5), T(0)), std::nextafter(T(2.5), T(3))};
    return r;
}

template<class T> std::vector<T> integers()
{
    using L = std::numeric_limits<T>;
    std::vector<T> r{0, 1, 2, 3, T(7), T(100), L::max(), T(L::max() - 1), L::min(), T(L::min() + 1), T(L::max() / 2), T(L::max() / 2 + 1)};
    if(std::is_signed<T>::value) for(int x: {-1, -2, -3, -100}) r.push_back((T)x);
    return r;
}

} // namespace ew
