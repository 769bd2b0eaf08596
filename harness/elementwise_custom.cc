// The machinery that applies an operation to all elements, with an operation
// of our own: every state of every element (no-data, out of domain, out of
// range, fine), every mix of policies, all execution policies.
#include "elementwise.h"
#include "fern/algorithm/core/binary_local_operation.h"
#include "fern/algorithm/core/nullary_local_operation.h"
#include "fern/algorithm/core/unary_disaggregate_operation.h"
#include "fern/algorithm/core/unary_local_operation.h"

using namespace ew;

namespace {

// Values: 0 is out of domain, 1 gives a result that is out of range.
template<class V> struct Twice { template<class R> void operator()(V const& v, R& r) const { r = v * 2 + 1; } };
template<class V> struct UnaryDomain { static bool within_domain(V const& v) { return v != 0; } };
template<class V, class R> struct UnaryRange { static bool within_range(V const& v, R const& r) { if(r != v * 2 + 1) abort(); return v != 1; } };
template<class A, class B> struct Combine { template<class R> void operator()(A const& a, B const& b, R& r) const { r = 10 * a + b; } };
template<class A, class B> struct BinaryDomain { static bool within_domain(A const& a, B const& b) { return a != 0 && b != 0; } };
template<class A, class B, class R> struct BinaryRange { static bool within_range(A const& a, B const& b, R const& r) { if(r != 10 * a + b) abort(); return a != 1 || b != 1; } };
struct Seven { template<class R> void operator()(R& r) const { r = 7; } };

fa::ExecutionPolicy& any_sequential() { static fa::ExecutionPolicy p{fa::SequentialExecutionPolicy()}; return p; }

// Element states: 0..2 a value, 3 no-data.
template<class T, int k> Loaded<typename ByRank<T, k>::type> states(Shape const& s, std::vector<unsigned> const& d, size_t offset)
{
    unsigned mask = 0; std::vector<T> v;
    size_t n = k ? s.size() : 1;
    for(size_t i = 0; i < n; ++i) { unsigned x = d[offset + i]; if(x == 3) mask |= 1u << i; v.push_back(T(x == 3 ? 2 : x)); }
    if(v.empty()) v.push_back(T());
    return Loaded<typename ByRank<T, k>::type>(s, v, 0, mask);
}

// The result's own state before: unmasked, and a value nothing computes.
template<int k, class Run> void policies(seq::Context& ctx, std::string const& key, Shape const& s, std::vector<Expect> const& want, Run run)
{
    auto once = [&](auto& policy, std::string const& how) {
        auto result = ByRank<int, k>::make(s, -7);
        Mark<decltype(result)> out(result.mask(), true);
        run(out, policy, result);
        compare(ctx, cat(key, how), result, want);
        // Without marking, the same elements are computed.
        auto other = ByRank<int, k>::make(s, -7);
        fa::DontMarkNoData dont;
        run(dont, policy, other);
        for(size_t i = 0; i < want.size(); ++i) {
            ctx.check(!mask_at(other, i), cat(key, how, " unasked no-data"), cat("element ", i));
            if(want[i]) ctx.check(at(other, i) == (int)*want[i], cat(key, how, " unmarked value"), cat("element ", i));
        }
    };
    once(sequential(), "");
    if constexpr(k > 0) once(parallel(), " parallel");
    if constexpr(k == 2) once(any_sequential(), " any");
}

template<int k> void unary(seq::Context& ctx, Shape const& s)
{
    size_t n = k ? s.size() : 1;
    seq::tuples(n, 4, [&](std::vector<unsigned> const& d) {
        if(!ctx.begin()) return;
        auto a = states<int, k>(s, d, 0);
        ctx.describe(cat("unary ", s.name(), " ", text_of(a.value)));
        ctx.nontrivial(cat("unary", s.name(), d));
        for(int no_data = 0; no_data < 2; ++no_data) {
            std::vector<Expect> want;
            for(size_t i = 0; i < s.size(); ++i) { int v = a.v[i]; want.push_back((no_data && a.m[i]) || v == 0 || v == 1 ? Expect() : Expect(v * 2 + 1)); }
            policies<k>(ctx, cat("unary", no_data ? "" : " ignoring no-data"), s, want, [&](auto& out, auto& policy, auto& result) {
                if(no_data) fa::unary_local_operation<Twice, UnaryDomain, UnaryRange>(fa::InputNoDataPolicies<Detect<decltype(a.value)>>{{a.value.mask(), true}}, out, policy, a.value, result);
                else fa::unary_local_operation<Twice, UnaryDomain, UnaryRange>(fa::InputNoDataPolicies<fa::SkipNoData>{{}}, out, policy, a.value, result);
            });
        }
        a.unchanged(ctx, "unary");
        ctx.outcome("unary");
    });
}

template<int ra, int rb> void binary(seq::Context& ctx, Shape const& s)
{
    constexpr int k = ra > rb ? ra : rb;
    size_t na = ra ? s.size() : 1, nb = rb ? s.size() : 1;
    seq::tuples(na + nb, 4, [&](std::vector<unsigned> const& d) {
        if(!ctx.begin()) return;
        auto a = states<int8_t, ra>(s, d, 0); auto b = states<int, rb>(s, d, na);
        for(size_t i = 0; i < b.v.size(); ++i) if(b.v[i] == 2) { b.v[i] = 300; at(b.value, i) = 300; }  // Does not fit the other type.
        ctx.describe(cat("binary ", ra, rb, " ", s.name(), " ", text_of(a.value), " ", text_of(b.value)));
        ctx.nontrivial(cat("binary", ra, rb, s.name(), d));
        for(int no_data = 0; no_data < 4; ++no_data) {
            std::vector<Expect> want;
            for(size_t i = 0; i < s.size(); ++i) {
                size_t i1 = ra ? i : 0, i2 = rb ? i : 0;
                int x = a.v[i1], y = b.v[i2];
                bool skip = ((no_data & 1) && a.m[i1]) || ((no_data & 2) && b.m[i2]);
                want.push_back(skip || x == 0 || y == 0 || (x == 1 && y == 1) ? Expect() : Expect(10 * x + y));
            }
            using DA = Detect<decltype(a.value)>; using DB = Detect<decltype(b.value)>;
            policies<k>(ctx, cat("binary ", ra, rb, no_data == 3 ? "" : no_data == 2 ? " ignoring no-data of the first" : no_data == 1 ? " ignoring no-data of the second" : " ignoring no-data"), s, want, [&](auto& out, auto& policy, auto& result) {
                if(no_data == 3) fa::binary_local_operation<Combine, BinaryDomain, BinaryRange>(fa::InputNoDataPolicies<DA, DB>{{a.value.mask(), true}, {b.value.mask(), true}}, out, policy, a.value, b.value, result);
                else if(no_data == 2) fa::binary_local_operation<Combine, BinaryDomain, BinaryRange>(fa::InputNoDataPolicies<fa::SkipNoData, DB>{{}, {b.value.mask(), true}}, out, policy, a.value, b.value, result);
                else if(no_data == 1) fa::binary_local_operation<Combine, BinaryDomain, BinaryRange>(fa::InputNoDataPolicies<DA, fa::SkipNoData>{{a.value.mask(), true}, {}}, out, policy, a.value, b.value, result);
                else fa::binary_local_operation<Combine, BinaryDomain, BinaryRange>(fa::InputNoDataPolicies<fa::SkipNoData, fa::SkipNoData>{{}, {}}, out, policy, a.value, b.value, result);
            });
        }
        a.unchanged(ctx, "binary first"); b.unchanged(ctx, "binary second");
        ctx.outcome("binary");
    });
}

} // namespace

SUITE("C06", "all element states of one argument")
{
    for(auto const& s: shapes(ctx.thorough())) by_rank(s.rank, [&](auto rank) { unary<decltype(rank)::value>(ctx, s); });
}

SUITE("C06", "all element states of two arguments")
{
    for(auto const& s: shapes(false)) {
        if(s.size() > (ctx.thorough() ? 4u : 3u)) continue;
        by_rank(s.rank, [&](auto rank) {
            constexpr int k = decltype(rank)::value;
            binary<k, k>(ctx, s);
            if constexpr(k > 0) { binary<k, 0>(ctx, s); binary<0, k>(ctx, s); }
        });
    }
}

SUITE("C06", "no argument")
{
    for(auto const& s: shapes(ctx.thorough())) by_rank(s.rank, [&](auto rank) {
        constexpr int k = decltype(rank)::value;
        for(unsigned mask = 0; mask < (1u << s.size()); ++mask) {
            if(!ctx.begin()) continue;
            ctx.describe(cat("nullary ", s.name(), " no-data ", mask));
            ctx.nontrivial(cat("nullary", s.name(), mask));
            Loaded<typename ByRank<int, k>::type> a(s, {1}, 0, mask);
            auto once = [&](auto& policy, char const* how) {
                auto result = ByRank<int, k>::make(s, -7);
                Mark<decltype(result)> out(result.mask(), true);
                fa::nullary_local_operation<Seven>(fa::InputNoDataPolicies<Detect<decltype(a.value)>>{{a.value.mask(), true}}, out, policy, result);
                std::vector<Expect> want; for(bool m: a.m) want.push_back(m ? Expect() : Expect(7));
                compare(ctx, cat("nullary", how), result, want);
            };
            once(sequential(), "");
            if constexpr(k == 2) { once(parallel(), " parallel"); once(any_sequential(), " any"); }
        }
    });
}

// No-data as a special value among the values.
SUITE("C06", "no-data by value")
{
    using V = std::vector<int>;
    for(size_t n = 0; n <= (ctx.thorough() ? 6u : 5u); ++n) seq::tuples(n, 4, [&](std::vector<unsigned> const& d) {
        if(!ctx.begin()) return;
        V value, want;
        for(auto x: d) { int v = x == 3 ? -999 : (int)x; value.push_back(v); want.push_back(v == -999 || v == 0 || v == 1 ? -1 : 2 * v + 1); }
        ctx.describe(cat("no-data by value ", value));
        ctx.nontrivial(cat(value));
        V before = value;
        auto once = [&](auto& policy, char const* how) {
            V result(n, -7);
            fa::MarkNoDataByValue<V> out(result, -1);
            fa::unary_local_operation<Twice, UnaryDomain, UnaryRange>(fa::InputNoDataPolicies<fa::DetectNoDataByValue<V>>{{value, -999}}, out, policy, value, result);
            ctx.check(result == want, cat("by value", how), cat("is ", result, ", must be ", want));
            ctx.check(value == before, "by value argument", "the argument was written");
        };
        once(sequential(), "");
        once(parallel(), " parallel");
    });
}

// One value for all elements of the result.
SUITE("C06", "a value for all elements")
{
    for(auto const& s: shapes(ctx.thorough())) by_rank(s.rank, [&](auto rank) {
        constexpr int k = decltype(rank)::value;
        for(unsigned x = 0; x < 5; ++x) {
            if(!ctx.begin()) continue;
            auto a = states<int, 0>({0, 1, 1}, {x > 3 ? 2 : x}, 0);
            ctx.describe(cat("disaggregate ", s.name(), " ", text_of(a.value)));
            ctx.nontrivial(cat("disaggregate", s.name(), x));
            Expect one = a.m[0] || a.v[0] < 2 ? Expect() : Expect(a.v[0] * 2 + 1);
            policies<k>(ctx, "disaggregate", s, std::vector<Expect>(s.size(), one), [&](auto& out, auto& policy, auto& result) {
                fa::unary_disaggregate_operation<Twice, UnaryDomain, UnaryRange>(fa::InputNoDataPolicies<D0>{{a.value.mask(), true}}, out, policy, a.value, result);
            });
            a.unchanged(ctx, "disaggregate");
        }
    });
}
