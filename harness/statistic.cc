// Accumulators, and the statistics built on them.
#define SEQ_MAIN
#include "seq.h"
#include "alg.h"
#include "fern/algorithm/accumulator/count.h"
#include "fern/algorithm/accumulator/max.h"
#include "fern/algorithm/accumulator/mean.h"
#include "fern/algorithm/accumulator/median.h"
#include "fern/algorithm/accumulator/min.h"
#include "fern/algorithm/accumulator/mode.h"
#include "fern/algorithm/accumulator/range.h"
#include "fern/algorithm/accumulator/standard_deviation.h"
#include "fern/algorithm/accumulator/sum.h"
#include "fern/algorithm/accumulator/variance.h"
#include "fern/algorithm/core/unary_aggregate_operation.h"
#include "fern/algorithm/statistic/binary_max.h"
#include "fern/algorithm/statistic/binary_min.h"
#include "fern/algorithm/statistic/count.h"
#include "fern/algorithm/statistic/mean.h"
#include "fern/algorithm/statistic/sum.h"
#include "fern/algorithm/statistic/unary_max.h"
#include "fern/algorithm/statistic/unary_min.h"

using namespace alg;
using seq::cat;
namespace acc = fa::accumulator;

namespace {

using Values = std::vector<long long>;

bool near(double a, double b) { return std::fabs(a - b) <= 1e-6 * (1 + std::fabs(b)); }

long long sum_of(Values const& v) { long long s = 0; for(auto x: v) s += x; return s; }

// What each statistic is of a non-empty list of whole numbers. For integral
// results, the mean is rounded towards zero.
template<class R> R quotient(long long a, long long n) { return std::is_floating_point<R>::value ? (R)((double)a / n) : (R)(a / n); }
double variance_of(Values const& v) { double m = (double)sum_of(v) / v.size(), r = 0; for(auto x: v) r += (x - m) * (x - m); return r / v.size(); }

template<template<class, class> class A, class T, class R> struct Model;
#define MODEL(name, expression) \
    template<class T, class R> struct Model<acc::name, T, R> { static bool ok(R got, Values const& v) { return expression; } };
MODEL(Count, got == (R)v.size())
MODEL(Sum, got == (R)sum_of(v))
MODEL(Min, got == (R)*std::min_element(v.begin(), v.end()))
MODEL(Max, got == (R)*std::max_element(v.begin(), v.end()))
MODEL(Range, got == (R)(*std::max_element(v.begin(), v.end()) - *std::min_element(v.begin(), v.end())))
MODEL(Mean, near((double)got, (double)quotient<R>(sum_of(v), v.size())))
MODEL(Variance, near((double)got, variance_of(v)))
MODEL(StandardDeviation, near((double)got, std::sqrt(variance_of(v))))
template<class T, class R> struct Model<acc::Median, T, R>
{
    static bool ok(R got, Values v)
    {
        std::sort(v.begin(), v.end());
        size_t n = v.size();
        return near((double)got, (double)(n % 2 ? (R)v[n / 2] : quotient<R>(v[n / 2 - 1] + v[n / 2], 2)));
    }
};
template<class T, class R> struct Model<acc::Mode, T, R>
{
    static bool ok(R got, Values const& v)
    {
        // Any of the most frequent values.
        long best = 0;
        for(auto x: v) best = std::max<long>(best, std::count(v.begin(), v.end(), x));
        return std::count(v.begin(), v.end(), (long long)got) == best;
    }
};

template<class A, class = void> struct HasPolicy: std::false_type {};

// One list of values, added, merged and assigned in every way.
template<template<class, class> class A, class T, class R>
void accumulate(seq::Context& ctx, char const* name, Values const& v)
{
    using Accumulator = A<T, R>;
    using M = Model<A, T, R>;
    auto expect = [&](Accumulator const& a, Values const& seen, char const* how) {
        R got = a();
        ctx.check(M::ok(got, seen), cat(name, " ", how), cat("is ", (double)got));
        R again = a();
        ctx.check(M::ok(again, seen), cat(name, " ", how, ", asked again"), cat("is ", (double)again));
    };
    auto from = [&](size_t begin, size_t end) { Accumulator a; for(size_t i = begin; i < end; ++i) a((T)v[i]); return a; };
    size_t n = v.size();
    // Added one by one; asked on the way.
    {
        Accumulator a, b((T)v[0]), c;
        a((T)v[0]); for(size_t i = 0; i <= n; ++i) c((T)99);
        c = (T)v[0];
        for(size_t i = 1; i < n; ++i) {
            expect(a, Values(v.begin(), v.begin() + i), "on the way");
            a((T)v[i]); b((T)v[i]); c((T)v[i]);
        }
        expect(a, v, "default constructed"); expect(b, v, "constructed with a value"); expect(c, v, "assigned a value");
        Accumulator d(a); expect(d, v, "copied");
    }
    // Merged from two and three parts, empty ones included.
    for(size_t i = 0; i <= n; ++i) for(size_t j = i; j <= n; ++j) {
        Accumulator a = from(0, i), b = from(i, j), c = from(j, n);
        Accumulator left = a | b; left |= c; expect(left, v, "merged from the left");
        Accumulator right = b | c; right = a | right; expect(right, v, "merged from the right");
        Accumulator other = c | a; other |= b; expect(other, v, "merged out of order");
        if(i) expect(a, Values(v.begin(), v.begin() + i), "that was merged");
    }
}

// The variants that watch the range.
template<template<class, class> class A, class T, class R, class InRange>
void watched(seq::Context& ctx, char const* name, Values const& v, InRange in_range)
{
    using Accumulator = A<T, R>;
    using M = Model<A, T, R>;
    size_t n = v.size();
    for(size_t i = 0; i <= n; ++i) {
        Accumulator a, b; bool good = true; Values seen;
        auto step = [&](bool reported, Values const& values, char const* how) {
            bool want = in_range(values);
            ctx.check(reported == want, cat(name, " ", how, " range"), cat(want ? "in range" : "out of range", ", reported otherwise"));
            good = good && want;
        };
        for(size_t k = 0; k < i && good; ++k) { seen.push_back(v[k]); step(a.template operator()<fa::add::OutOfRangePolicy>((T)v[k]), seen, "adding"); }
        if(!good) { ctx.outcome(cat(name, " out of range")); continue; }
        Values rest;
        for(size_t k = i; k < n && good; ++k) { rest.push_back(v[k]); step(b.template operator()<fa::add::OutOfRangePolicy>((T)v[k]), rest, "adding"); }
        if(!good) { ctx.outcome(cat(name, " out of range")); continue; }
        seen.insert(seen.end(), rest.begin(), rest.end());
        step(a.template operator|=<fa::add::OutOfRangePolicy>(b), seen, "merging");
        if(good) { ctx.check(M::ok(a(), seen), cat(name, " watched"), cat("is ", (double)a())); ctx.outcome(cat(name, " in range")); }
        else ctx.outcome(cat(name, " out of range"));
    }
}

template<class R> bool fits(long long x)
{
    if(std::is_floating_point<R>::value) return true;
    return x >= (long long)std::numeric_limits<R>::lowest() && x <= (long long)std::numeric_limits<R>::max();
}

template<class F> void lists(size_t max, Values const& alphabet, F f)
{
    for(size_t n = 1; n <= max; ++n)
        seq::tuples(n, alphabet.size(), [&](std::vector<unsigned> const& d) {
            Values v; for(auto x: d) v.push_back(alphabet[x]);
            f(v);
        });
}

template<class T, class R> void all(seq::Context& ctx, char const* types, size_t max, Values const& alphabet)
{
    lists(max, alphabet, [&](Values const& v) {
        if(!ctx.begin()) return;
        ctx.describe(cat(types, " ", v));
        ctx.nontrivial(cat(types, v));
        ctx.sample(cat(types, v));
        accumulate<acc::Count, T, R>(ctx, "count", v); accumulate<acc::Sum, T, R>(ctx, "sum", v);
        accumulate<acc::Min, T, R>(ctx, "min", v); accumulate<acc::Max, T, R>(ctx, "max", v);
        accumulate<acc::Range, T, R>(ctx, "range", v); accumulate<acc::Mean, T, R>(ctx, "mean", v);
        accumulate<acc::Median, T, R>(ctx, "median", v); accumulate<acc::Mode, T, R>(ctx, "mode", v);
        if constexpr(std::is_floating_point<R>::value) { accumulate<acc::Variance, T, R>(ctx, "variance", v); accumulate<acc::StandardDeviation, T, R>(ctx, "standard deviation", v); }
    });
}

} // namespace

SUITE("C11", "values")
{
    bool t = ctx.thorough();
    all<int, int>(ctx, "int", t ? 7 : 5, {0, 1, -2, 7});
    all<int, double>(ctx, "int to double", t ? 7 : 5, {0, 1, -2, 7});
    all<double, double>(ctx, "double", t ? 6 : 5, {0, 3, -5, 7});
    // Far from zero: what is lost by subtracting squares shows here.
    all<double, double>(ctx, "large double", t ? 6 : 5, {1000000000, 1000000003, 1000000007});
    all<int32_t, double>(ctx, "large int to double", 4, {400000001, 400000004, -400000003});
    all<float, double>(ctx, "float to double", 4, {-1, 3, -5, 7});
    all<uint8_t, int64_t>(ctx, "uint8 to int64", t ? 6 : 5, {0, 100, 255});
    all<int8_t, int32_t>(ctx, "int8 to int32", t ? 6 : 5, {-128, 0, 127});
    all<int64_t, int64_t>(ctx, "int64", 4, {-5000000000ll, 1, 7000000000ll});
}

SUITE("C11", "range policy")
{
    bool t = ctx.thorough();
    lists(t ? 7 : 5, {-128, -100, -1, 0, 1, 100, 127}, [&](Values const& v) {
        if(!ctx.begin()) return;
        ctx.describe(cat("int8 ", v));
        ctx.nontrivial(cat("int8", v));
        auto in = [](Values const& x) { return fits<int8_t>(sum_of(x)); };
        watched<acc::Sum, int8_t, int8_t>(ctx, "sum int8", v, in); watched<acc::Mean, int8_t, int8_t>(ctx, "mean int8", v, in);
        auto in32 = [](Values const&) { return true; };
        watched<acc::Sum, int8_t, int32_t>(ctx, "sum int8 to int32", v, in32); watched<acc::Mean, int8_t, int32_t>(ctx, "mean int8 to int32", v, in32);
        watched<acc::Count, int8_t, int32_t>(ctx, "count", v, in32);
    });
    lists(t ? 6 : 4, {0, 1, 127, 128, 255}, [&](Values const& v) {
        if(!ctx.begin()) return;
        ctx.describe(cat("uint8 ", v));
        ctx.nontrivial(cat("uint8", v));
        watched<acc::Sum, uint8_t, uint8_t>(ctx, "sum uint8", v, [](Values const& x) { return fits<uint8_t>(sum_of(x)); });
        watched<acc::Sum, uint8_t, int64_t>(ctx, "sum uint8 to int64", v, [](Values const&) { return true; });
    });
    lists(3, {-2147483648ll, -1, 0, 1, 2147483647ll, 1500000000}, [&](Values const& v) {
        if(!ctx.begin()) return;
        ctx.describe(cat("int32 ", v));
        ctx.nontrivial(cat("int32", v));
        watched<acc::Sum, int32_t, int32_t>(ctx, "sum int32", v, [](Values const& x) { return fits<int32_t>(sum_of(x)); });
        watched<acc::Sum, int32_t, int64_t>(ctx, "sum int32 to int64", v, [](Values const&) { return true; });
    });
}

// More values than the result type can count.
SUITE("C11", "many values")
{
    for(int n = 1; n <= 700; ++n) for(int v: {0, 1, -1}) {
        if(!ctx.begin()) continue;
        ctx.describe(cat(n, " times ", v));
        ctx.nontrivial(cat(n, " ", v));
        acc::Mean<int8_t, int8_t> mean; acc::Mean<uint8_t, uint8_t> umean; acc::Mean<int8_t, int16_t> wide; acc::Count<int8_t, int> count; acc::Mode<int8_t> mode; acc::Median<int8_t> median;
        int sum = 0;
        for(int i = 0; i < n; ++i) {
            // Keep the sum of int8 within its range.
            int8_t x = i < 127 || v == 0 ? (int8_t)v : (int8_t)0;
            sum += x; mean(x); umean(v == 1 && i < 255 ? 1 : 0); wide((int8_t)v); count(x); mode((int8_t)v); median((int8_t)v);
        }
        ctx.check(mean() == (int8_t)(sum / n), "mean int8", cat("is ", (int)mean(), ", must be ", sum / n));
        int usum = v == 1 ? std::min(n, 255) : 0;
        ctx.check(umean() == (uint8_t)(usum / n), "mean uint8", cat("is ", (int)umean(), ", must be ", usum / n));
        ctx.check(wide() == v, "mean int8 to int16", cat("is ", wide(), ", must be ", v));
        ctx.check(count() == n, "count", cat("is ", count()));
        ctx.check(mode() == v && median() == v, "mode and median", cat("are ", (int)mode(), " and ", (int)median()));
    }
}

SUITE("C11", "empty")
{
    if(ctx.begin()) {
        ctx.describe("default constructed accumulators");
        ctx.nontrivial("empty");
        ctx.check(acc::Count<int>()() == 0 && acc::Sum<int>()() == 0 && acc::Sum<double>()() == 0, "count and sum", "must be zero");
        ctx.check(acc::Min<int>()() == std::numeric_limits<int>::max() && acc::Max<int>()() == std::numeric_limits<int>::lowest() && acc::Max<double>()() == std::numeric_limits<double>::lowest(), "min and max", "must be the extremes");
        acc::detail::FrequencyTable<int> f; ctx.check(f.empty() && f.size() == 0, "frequency table", "must be empty");
        f(3); f(3); f(4); auto g = f | f; ctx.check(!g.empty() && g.size() == 2 && g.mode() == 3, "frequency table", "has two values");
    }
}

// ------------------------------------------------------------------ C10
namespace {

Sequential sequential;
fa::ParallelExecutionPolicy& parallel() { static fa::ParallelExecutionPolicy p(3); return p; }

std::vector<Shape> shapes(seq::Context& ctx)
{
    std::vector<Shape> r{{0, 1, 1}};
    for(size_t n = 0; n <= (ctx.thorough() ? 8u : 6u); ++n) r.push_back({1, 1, n});
    for(size_t a = 0; a <= 4; ++a) for(size_t b = 0; b <= 4; ++b) if(a * b <= (ctx.thorough() ? 9u : 6u)) r.push_back({2, a, b});
    return r;
}

template<class F> void by_rank(Shape const& s, F f)
{
    if(s.rank == 0) f(std::integral_constant<int, 0>()); else if(s.rank == 1) f(std::integral_constant<int, 1>()); else f(std::integral_constant<int, 2>());
}

// An operation that reduces to a scalar; nullptr: no-data.
template<class R, class C, class Operation>
void reduce(seq::Context& ctx, std::string const& key, C& value, bool no_data, std::function<bool(R)> const& right, Operation operation)
{
    using D = Detect<C>;
    S<R> result((R)77);
    fa::InputNoDataPolicies<D> in{{value.mask(), true}}; O0 out(result.mask(), true);
    operation(in, out, value, result);
    if(ctx.check(result.mask() == no_data, cat(key, " no-data"), no_data ? "must be no-data" : "must not be no-data") && !no_data)
        ctx.check(right(result.value()), cat(key, " value"), cat("is ", (double)result.value()));
    ctx.outcome(cat(key, no_data ? " no-data" : " value"));
}

template<class T, template<class, class> class A, class C> void aggregate(seq::Context& ctx, char const* name, C& value, Values const& valid)
{
    auto right = [&](T got) { return Model<A, T, T>::ok(got, valid); };
    reduce<T>(ctx, cat(name, " sequential"), value, valid.empty(), right, [&](auto& in, auto& out, auto& v, auto& r) {
        fa::unary_aggregate_operation<A, fa::unary::DiscardDomainErrors, fa::binary::DiscardRangeErrors>(in, out, sequential, v, r); });
    if constexpr(KindOf<C>::rank > 0)
        reduce<T>(ctx, cat(name, " parallel"), value, valid.empty(), right, [&](auto& in, auto& out, auto& v, auto& r) {
            fa::unary_aggregate_operation<A, fa::unary::DiscardDomainErrors, fa::binary::DiscardRangeErrors>(in, out, parallel(), v, r); });
}

template<class T, int rank> void statistics(seq::Context& ctx, char const* type, Shape const& s, Values const& base)
{
    size_t n = s.size();
    for(unsigned mask = 0; mask < (1u << n); ++mask) for(size_t shift = 0; shift < (n ? base.size() : 1); ++shift) {
        if(!ctx.begin()) continue;
        Values all, valid;
        for(size_t i = 0; i < n; ++i) { all.push_back(base[(i + shift) % base.size()]); if(!((mask >> i) & 1)) valid.push_back(all[i]); }
        ctx.describe(cat(type, " ", s.name(), " ", all, " no-data ", mask));
        ctx.nontrivial(cat(type, s.name(), all, mask));
        ctx.sample(cat(type, s.name(), all, mask));
        auto value = ByRank<T, rank>::make(s);
        for(size_t i = 0; i < n; ++i) { at(value, i) = (T)all[i]; mask_at(value, i) = (mask >> i) & 1; }
        bool none = valid.empty();
        // Sums and means, with the range watched: the partial sums count, in
        // the order of the elements.
        bool in_range = true; long long partial = 0;
        for(auto x: valid) { partial += x; in_range = in_range && fits<T>(partial); }
        long long total = partial;
        reduce<T>(ctx, cat("sum ", type), value, none || !in_range, [&](T got) { return got == (T)total; },
            [&](auto& in, auto& out, auto& v, auto& r) { fa::statistic::sum<fa::sum::OutOfRangePolicy>(in, out, sequential, v, r); });
        reduce<T>(ctx, cat("mean ", type), value, none || !in_range, [&](T got) { return near((double)got, (double)quotient<T>(total, valid.size())); },
            [&](auto& in, auto& out, auto& v, auto& r) { fa::statistic::mean<fa::mean::OutOfRangePolicy>(in, out, sequential, v, r); });
        // In parallel, how the elements are divided is up to the code: a sum
        // that does not fit must be noticed, and one of which each sum of
        // successive elements fits must not be refused.
        if constexpr(rank > 0) {
            bool never = true;
            for(size_t i = 0; i < valid.size(); ++i) { long long sum = 0; for(size_t j = i; j < valid.size(); ++j) { sum += valid[j]; never = never && fits<T>(sum); } }
            bool must_be = none || !fits<T>(total), must_not_be = !none && never;
            auto check = [&](char const* name, auto operation, auto right) {
                using D = Detect<decltype(value)>;
                S<T> result((T)77);
                fa::InputNoDataPolicies<D> in{{value.mask(), true}}; O0 out(result.mask(), true);
                operation(in, out, result);
                ctx.check(result.mask() ? !must_not_be : !must_be, cat(name, " ", type, " parallel no-data"), result.mask() ? "must not be no-data" : "must be no-data");
                if(!result.mask() && !must_be) ctx.check(right(result.value()), cat(name, " ", type, " parallel value"), cat("is ", (double)result.value()));
                ctx.outcome(cat(name, " ", type, " parallel", result.mask() ? " no-data" : " value"));
            };
            check("sum", [&](auto& in, auto& out, auto& r) { fa::statistic::sum<fa::sum::OutOfRangePolicy>(in, out, parallel(), value, r); }, [&](T got) { return got == (T)total; });
            check("mean", [&](auto& in, auto& out, auto& r) { fa::statistic::mean<fa::mean::OutOfRangePolicy>(in, out, parallel(), value, r); }, [&](T got) { return near((double)got, (double)quotient<T>(total, valid.size())); });
        }
        if(in_range) {
            reduce<T>(ctx, cat("sum ", type, ", range ignored"), value, none, [&](T got) { return got == (T)total; },
                [&](auto& in, auto& out, auto& v, auto& r) { fa::statistic::sum<fa::binary::DiscardRangeErrors>(in, out, sequential, v, r); });
            if(n && mask == 0) {
                T r1 = 77, r2 = 77; fa::statistic::sum(sequential, value, r1); fa::statistic::mean(sequential, value, r2);
                ctx.check(r1 == (T)total && near((double)r2, (double)quotient<T>(total, n)), cat("defaults ", type), "sum and mean with default policies");
            }
        }
        reduce<T>(ctx, cat("max ", type), value, none, [&](T got) { return got == (T)*std::max_element(valid.begin(), valid.end()); },
            [&](auto& in, auto& out, auto& v, auto& r) { fa::statistic::unary_max(in, out, sequential, v, r); });
        reduce<T>(ctx, cat("min ", type), value, none, [&](T got) { return got == (T)*std::min_element(valid.begin(), valid.end()); },
            [&](auto& in, auto& out, auto& v, auto& r) { fa::statistic::unary_min(in, out, sequential, v, r); });
        for(auto x: {base[0], base[1], 55ll}) {
            S<size_t> result(77); O0 out(result.mask(), true);
            fa::InputNoDataPolicies<Detect<decltype(value)>, fa::SkipNoData> in{{value.mask(), true}, {}};
            fa::statistic::count(in, out, sequential, value, (T)x, result);
            ctx.check(result.mask() == none, cat("count ", type, " no-data"), none ? "must be no-data" : "must not be no-data");
            if(!none) ctx.check((long long)result.value() == std::count(valid.begin(), valid.end(), x), cat("count ", type), cat("of ", x, " is ", result.value()));
        }
        aggregate<T, acc::Max>(ctx, "Max", value, valid); aggregate<T, acc::Range>(ctx, "Range", value, valid);
        aggregate<T, acc::Median>(ctx, "Median", value, valid); aggregate<T, acc::Mode>(ctx, "Mode", value, valid);
        aggregate<T, acc::Count>(ctx, "Count", value, valid);
        if(in_range) { aggregate<T, acc::Sum>(ctx, "Sum", value, valid); aggregate<T, acc::Mean>(ctx, "Mean", value, valid); }
        for(size_t i = 0; i < n; ++i) ctx.check(at(value, i) == (T)all[i] && mask_at(value, i) == (bool)((mask >> i) & 1), "argument changed", "the argument was written");
    }
}

template<int rank> void wide(seq::Context& ctx, Shape const& s)
{
    size_t n = s.size();
    for(unsigned mask = 0; mask < (1u << n); ++mask) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("uint8 to int64 ", s.name(), " no-data ", mask));
        ctx.nontrivial(cat("wide", s.name(), mask));
        auto value = ByRank<uint8_t, rank>::make(s); Values valid;
        for(size_t i = 0; i < n; ++i) { at(value, i) = (uint8_t)(250 - i); mask_at(value, i) = (mask >> i) & 1; if(!((mask >> i) & 1)) valid.push_back(250 - i); }
        auto both = [&](auto accumulator, char const* name, std::function<bool(int64_t)> const& right) {
            using A = decltype(accumulator);
            for(int p = 0; p < 2; ++p)
                reduce<int64_t>(ctx, cat(name, p ? " parallel" : " sequential"), value, valid.empty(), right, [&](auto& in, auto& out, auto& v, auto& r) {
                    if(p) A::apply(in, out, parallel(), v, r); else A::apply(in, out, sequential, v, r); });
        };
        struct Sum { static void apply(fa::InputNoDataPolicies<Detect<decltype(value)>>& in, O0& out, Sequential& p, decltype(value)& v, S<int64_t>& r)
            { fa::unary_aggregate_operation<acc::Sum, fa::unary::DiscardDomainErrors, fa::add::OutOfRangePolicy>(in, out, p, v, r); }
            static void apply(fa::InputNoDataPolicies<Detect<decltype(value)>>& in, O0& out, fa::ParallelExecutionPolicy& p, decltype(value)& v, S<int64_t>& r)
            { fa::unary_aggregate_operation<acc::Sum, fa::unary::DiscardDomainErrors, fa::add::OutOfRangePolicy>(in, out, p, v, r); } };
        both(Sum(), "sum uint8 to int64", [&](int64_t got) { return got == sum_of(valid); });
    }
}

} // namespace

SUITE("C10", "int8")
{
    for(auto const& s: shapes(ctx)) by_rank(s, [&](auto rank) { statistics<int8_t, decltype(rank)::value>(ctx, "int8", s, {100, -50, 27, 1, -128}); });
}

// Neighbours that do not fit together.
SUITE("C10", "int8, large sums")
{
    for(auto const& s: shapes(ctx)) if(s.rank) by_rank(s, [&](auto rank) { statistics<int8_t, decltype(rank)::value>(ctx, "int8", s, {100, 60, 27, -100, -100, 1}); });
}

SUITE("C10", "int32")
{
    for(auto const& s: shapes(ctx)) by_rank(s, [&](auto rank) { statistics<int32_t, decltype(rank)::value>(ctx, "int32", s, {3, -4, 3, 9}); });
}

SUITE("C10", "double")
{
    for(auto const& s: shapes(ctx)) by_rank(s, [&](auto rank) { statistics<double, decltype(rank)::value>(ctx, "double", s, {3, -4, 3}); });
}

SUITE("C10", "wide results")
{
    for(auto const& s: shapes(ctx)) { if(s.rank == 1) wide<1>(ctx, s); else if(s.rank == 2) wide<2>(ctx, s); }
}

// Element-wise extremes.
SUITE("C10", "binary")
{
    Values const values{-128, -1, 0, 1, 127};
    for(auto const& s: shapes(ctx)) if(s.size() <= 4) by_rank(s, [&](auto rank) {
        constexpr int k = decltype(rank)::value;
        size_t n = s.size();
        for(unsigned mask = 0; mask < (1u << (2 * n)); ++mask) for(size_t shift = 0; shift < values.size(); ++shift) {
            if(!ctx.begin()) continue;
            ctx.describe(cat("binary max and min ", s.name(), " no-data ", mask, " shift ", shift));
            ctx.nontrivial(cat("binary", s.name(), mask, shift));
            auto a = ByRank<int8_t, k>::make(s), b = ByRank<int8_t, k>::make(s), hi = ByRank<int8_t, k>::make(s), lo = ByRank<int8_t, k>::make(s), by = ByRank<int8_t, k>::make(s);
            for(size_t i = 0; i < n; ++i) {
                at(a, i) = values[i % 5]; at(b, i) = values[(i + shift) % 5];
                mask_at(a, i) = (mask >> i) & 1; mask_at(b, i) = (mask >> (i + n)) & 1;
            }
            fa::InputNoDataPolicies<Detect<decltype(a)>, Detect<decltype(b)>> in{{a.mask(), true}, {b.mask(), true}};
            Mark<decltype(hi)> out_hi(hi.mask(), true), out_lo(lo.mask(), true);
            fa::statistic::binary_max(in, out_hi, sequential, a, b, hi);
            fa::statistic::binary_min(in, out_lo, sequential, a, b, lo);
            fa::statistic::binary_max(sequential, a, b, by);
            for(size_t i = 0; i < n; ++i) {
                bool none = mask_at(a, i) || mask_at(b, i);
                ctx.check(mask_at(hi, i) == none && mask_at(lo, i) == none, "binary no-data", cat("element ", i));
                ctx.check(at(by, i) == std::max(at(a, i), at(b, i)), "binary max defaults", cat("element ", i));
                if(!none) ctx.check(at(hi, i) == std::max(at(a, i), at(b, i)) && at(lo, i) == std::min(at(a, i), at(b, i)), "binary value", cat("element ", i));
            }
        }
    });
}
