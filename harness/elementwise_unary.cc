// Unary element-wise operations.
#define SEQ_MAIN
#include "elementwise.h"
#include "fern/algorithm/algebra/boole/defined.h"
#include "fern/algorithm/algebra/boole/not.h"
#include "fern/algorithm/algebra/elementary/absolute.h"
#include "fern/algorithm/algebra/elementary/ceil.h"
#include "fern/algorithm/algebra/elementary/factorial.h"
#include "fern/algorithm/algebra/elementary/floor.h"
#include "fern/algorithm/algebra/elementary/log.h"
#include "fern/algorithm/algebra/elementary/log10.h"
#include "fern/algorithm/algebra/elementary/log2.h"
#include "fern/algorithm/algebra/elementary/round.h"
#include "fern/algorithm/algebra/elementary/sqrt.h"
#include "fern/algorithm/algebra/elementary/tgamma.h"
#include "fern/algorithm/algebra/elementary/trunc.h"
#include "fern/algorithm/core/cast.h"
#include "fern/algorithm/trigonometry/acos.h"
#include "fern/algorithm/trigonometry/asin.h"
#include "fern/algorithm/trigonometry/atan.h"
#include "fern/algorithm/trigonometry/cos.h"
#include "fern/algorithm/trigonometry/sin.h"
#include "fern/algorithm/trigonometry/tan.h"

using namespace ew;

namespace {

#define UNARY(CLASS, NAME, SPACE, FUNCTION, POLICIES, EXPECT, ...) \
struct CLASS { \
    static constexpr char const* name = NAME; \
    template<class T> using Result = T; \
    template<class T> static std::vector<T> table() { return {__VA_ARGS__}; } \
    template<class T> static Expect expect(T v_) { LD v = v_; (void)v; EXPECT } \
    template<class I, class O, class P, class V, class R> static void apply(I const& in, O& out, P& p, V const& v, R& r) { fa::SPACE::FUNCTION POLICIES(in, out, p, v, r); } \
    template<class P, class V, class R> static void plain(P& p, V const& v, R& r) { fa::SPACE::FUNCTION(p, v, r); } \
};

#define NONE
// Between two whole numbers, by the definitions.
LD whole_floor(LD v) { if(!std::isfinite(v) || std::fabs(v) > 1e18L) return v; long long n = (long long)v; return n > v ? n - 1 : n; }
LD whole_round(LD v) { if(!std::isfinite(v) || std::fabs(v) > 1e18L) return v; return v < 0 ? -whole_floor(-v + .5L) : whole_floor(v + .5L); }
// Not farther from zero than the largest number of the type.
template<class T> Expect finite(LD v) { return std::isfinite(v) && std::fabs(v) <= (LD)std::numeric_limits<T>::max() ? Expect(v) : Expect(); }
template<class T> Expect finite_int(LD v) { return v >= (LD)std::numeric_limits<T>::min() && v <= (LD)std::numeric_limits<T>::max() ? Expect(v) : Expect(); }

UNARY(Ceil, "ceil", algebra, ceil, NONE, return -whole_floor(-v);, T(-1.5), T(2.25), 3)
UNARY(Floor, "floor", algebra, floor, NONE, return whole_floor(v);, T(-1.5), T(2.25), 3)
UNARY(Round, "round", algebra, round, NONE, return whole_round(v);, T(-1.5), T(2.25), 3)
UNARY(Trunc, "trunc", algebra, trunc, NONE, return v < 0 ? -whole_floor(-v) : whole_floor(v);, T(-1.5), T(2.25), 3)
UNARY(Sqrt, "sqrt", algebra, sqrt, <fa::sqrt::OutOfDomainPolicy>, if(!(v >= 0)) return {}; return std::sqrt(v);, -1, 2, 9)
UNARY(Log, "log", algebra, log, <fa::log::OutOfDomainPolicy>, if(!(v >= 0)) return {}; return std::log(v);, -1, 2, 9)
UNARY(Log10, "log10", algebra, log10, <fa::log10::OutOfDomainPolicy>, if(!(v >= 0)) return {}; return std::log10(v);, -1, 2, 100)
UNARY(Log2, "log2", algebra, log2, <fa::log2::OutOfDomainPolicy>, if(!(v >= 0)) return {}; return std::log2(v);, -1, 2, 9)
UNARY(Sin, "sin", trigonometry, sin, <fa::sin::OutOfDomainPolicy>, if(!std::isfinite(v)) return {}; return std::sin(v);, T(INFINITY), 2, 9)
UNARY(Cos, "cos", trigonometry, cos, <fa::cos::OutOfDomainPolicy>, if(!std::isfinite(v)) return {}; return std::cos(v);, T(INFINITY), 2, 9)
UNARY(Asin, "asin", trigonometry, asin, <fa::asin::OutOfDomainPolicy>, if(!(v >= -1 && v <= 1)) return {}; return std::asin(v);, -2, T(.5), 1)
UNARY(Acos, "acos", trigonometry, acos, <fa::acos::OutOfDomainPolicy>, if(!(v >= -1 && v <= 1)) return {}; return std::acos(v);, -2, T(.5), 1)
UNARY(Atan, "atan", trigonometry, atan, NONE, return std::atan(v);, -2, T(.5), 1)
// Odd multiples of half pi, as far as the type knows pi, are out of domain.
template<class T> bool odd_half_pi(T v) { T h = T(1.57079632679489661923L); LD q = std::rint((LD)v / h); return std::fabs(q) < 1e6L && std::fmod(q, 2.L) != 0 && q * (LD)h == (LD)v; }
UNARY(Tan, "tan", trigonometry, tan, <fa::tan::OutOfDomainPolicy>, if(!std::isfinite(v) || odd_half_pi(v_)) return {}; return std::tan(v);, T(INFINITY), T(1.57079632679489661923L), 9)
#define BOTH(NS) <fa::NS::OutOfDomainPolicy, fa::NS::OutOfRangePolicy>
UNARY(Tgamma, "tgamma", algebra, tgamma, BOTH(tgamma), if(std::isnan(v) || (v <= 0 && whole_floor(v) == v)) return {}; return finite<T>(std::tgamma(v));, -2, 5, 1000)
LD factorial_of(LD v) { LD f = 1; for(LD i = 2; i <= v && std::isfinite(f); ++i) f *= i; return f; }
UNARY(Factorial, "factorial", algebra, factorial, BOTH(factorial), if(!(v >= 0) || whole_floor(v) != v) return {}; if constexpr(std::is_integral<T>::value) return finite_int<T>(factorial_of(v)); else return finite<T>(factorial_of(v));, T(-2), T(5), T(3))
UNARY(Absolute, "absolute", algebra, absolute, <fa::absolute::OutOfRangePolicy>, if(std::is_integral<T>::value) return finite_int<T>(std::fabs(v)); return std::fabs(v);, T(-2), T(5), std::numeric_limits<T>::lowest())
UNARY(Not, "not", algebra, not_, NONE, return v == 0;, T(0), T(1), T(2))

template<class To> struct Cast
{
    static constexpr char const* name = "cast";
    template<class T> using Result = To;
    template<class T> static std::vector<T> table() { return {T(0), T(1), T(100)}; }
    template<class T> static Expect expect(T v) { return (LD)(To)v; }
    template<class I, class O, class P, class V, class R> static void apply(I const& in, O& out, P& p, V const& v, R& r) { fa::core::cast<fa::unary::DiscardRangeErrors>(in, out, p, v, r); }
    template<class P, class V, class R> static void plain(P& p, V const& v, R& r) { fa::core::cast(p, v, r); }
};

template<class Op> void floats(seq::Context& ctx)
{
    // As the tables of values are of the operation.
    auto keep = [](auto values) {
        if(std::string(Op::name) == "factorial") values.erase(std::remove_if(values.begin(), values.end(), [](auto v) { return !(v <= 2000); }), values.end());
        return values;
    };
    unary_values<Op, double>(ctx, keep(special<double>()));
    unary_values<Op, float>(ctx, keep(special<float>()));
}

} // namespace

#ifdef PROPERTY_C06
SUITE("C06", "rounding") { unary_masks<Ceil, double>(ctx); unary_masks<Floor, double>(ctx); unary_masks<Round, double>(ctx); unary_masks<Trunc, float>(ctx); }
SUITE("C06", "roots and logarithms") { unary_masks<Sqrt, double>(ctx); unary_masks<Log, double>(ctx); unary_masks<Log10, float>(ctx); unary_masks<Log2, double>(ctx); unary_masks<Tgamma, double>(ctx); }
SUITE("C06", "trigonometry") { unary_masks<Sin, double>(ctx); unary_masks<Cos, float>(ctx); unary_masks<Tan, double>(ctx); unary_masks<Asin, double>(ctx); unary_masks<Acos, double>(ctx); unary_masks<Atan, double>(ctx); }
SUITE("C06", "integers") { unary_masks<Absolute, int8_t>(ctx); unary_masks<Factorial, int>(ctx); unary_masks<Not, bool>(ctx); unary_masks<Cast<int>, int8_t>(ctx); unary_masks<Cast<double>, int>(ctx); }

// Whether elements are defined: no value is involved.
SUITE("C06", "defined")
{
    for(auto const& s: shapes(ctx.thorough())) by_rank(s.rank, [&](auto rank) {
        constexpr int k = decltype(rank)::value;
        for(unsigned mask = 0; mask < (1u << s.size()); ++mask) for(int before = 0; before < 2; ++before) {
            if(!ctx.begin()) continue;
            ctx.describe(cat("defined ", s.name(), " no-data ", mask));
            ctx.nontrivial(cat(s.name(), mask, before));
            Loaded<typename ByRank<int, k>::type> a(s, {5, 0, -1}, 0, mask);
            auto check = [&](auto& policy, char const* how) {
                auto result = ByRank<uint8_t, k>::make(s, (uint8_t)before);
                fa::InputNoDataPolicies<Detect<decltype(a.value)>> in{{a.value.mask(), true}};
                fa::algebra::defined(in, policy, result);
                for(size_t i = 0; i < s.size(); ++i) ctx.check(at(result, i) == !a.m[i] && !mask_at(result, i), cat("defined", how), cat("element ", i, " of ", text_of(result), " for ", text_of(a.value)));
            };
            check(sequential(), "");
            if constexpr(k == 2) check(parallel(), " parallel");
        }
    });
}

#endif

#ifdef PROPERTY_C08
SUITE("C08", "rounding") { floats<Ceil>(ctx); floats<Floor>(ctx); floats<Round>(ctx); floats<Trunc>(ctx); }
SUITE("C08", "roots and logarithms") { floats<Sqrt>(ctx); floats<Log>(ctx); floats<Log10>(ctx); floats<Log2>(ctx); floats<Tgamma>(ctx); floats<Factorial>(ctx); floats<Absolute>(ctx); }
SUITE("C08", "trigonometry") { floats<Sin>(ctx); floats<Cos>(ctx); floats<Tan>(ctx); floats<Asin>(ctx); floats<Acos>(ctx); floats<Atan>(ctx); }
SUITE("C08", "tangent at multiples of half pi")
{
    std::vector<double> d; std::vector<float> f;
    for(int n = -200; n <= 200; ++n) {
        double h = n * 1.57079632679489661923; float g = n * 1.57079632679489661923f;
        for(double x: {h, std::nextafter(h, 1e9), std::nextafter(h, -1e9)}) d.push_back(x);
        for(float x: {g, std::nextafter(g, 1e9f), std::nextafter(g, -1e9f)}) f.push_back(x);
    }
    unary_values<Tan, double>(ctx, d);
    unary_values<Tan, float>(ctx, f);
}

#endif

#ifdef PROPERTY_C18
namespace {

template<class From> void casts(seq::Context& ctx, std::vector<From> const& values)
{
    auto to = [&](auto target) {
        using To = decltype(target);
        std::vector<From> fit;
        for(From v: values) if(std::is_same<To, bool>::value || std::is_floating_point<To>::value || (std::isfinite((LD)v) && std::trunc((LD)v) >= (LD)std::numeric_limits<To>::min() && std::trunc((LD)v) <= (LD)std::numeric_limits<To>::max())) fit.push_back(v);
        using Op = Cast<To>;
        std::string key = cat("cast ", type_name<From>(), " to ", type_name<To>());
        for(From v: fit) {
            if(!ctx.begin()) continue;
            ctx.describe(cat(key, " of ", v));
            ctx.nontrivial(cat(key, v));
            // Truncated towards zero, or non-zero, or rounded to nearest.
            LD want = std::is_same<To, bool>::value ? (LD)(v != 0) : std::is_integral<To>::value ? std::trunc((LD)v) : (LD)v;
            S<From> value(v); S<To> result(To(1));
            fa::InputNoDataPolicies<D0> in{{value.mask(), true}}; O0 out(result.mask(), true);
            Op::apply(in, out, sequential(), value, result);
            compare(ctx, key, result, {Expect(want)});
            To plain(1); Op::plain(sequential(), v, plain);
            ctx.check(near(plain, want), cat(key, " without policies"), cat(key, " of ", v, " is ", plain));
            ctx.outcome(key);
        }
    };
    to(bool()); to(int8_t()); to(uint8_t()); to(int16_t()); to(uint16_t()); to(int32_t()); to(uint32_t()); to(int64_t()); to(uint64_t()); to(float()); to(double());
}

// With the range watched; for the types it supports, every value fits.
template<class From, class To> void watched(seq::Context& ctx, std::vector<From> const& values)
{
    std::string key = cat("watched cast ", type_name<From>(), " to ", type_name<To>());
    for(From v: values) {
        if(!ctx.begin()) continue;
        ctx.describe(cat(key, " of ", v));
        ctx.nontrivial(cat(key, v));
        S<From> value(v); S<To> result(To(1));
        fa::InputNoDataPolicies<D0> in{{value.mask(), true}}; O0 out(result.mask(), true);
        fa::core::cast<fa::cast::OutOfRangePolicy>(in, out, sequential(), value, result);
        compare(ctx, key, result, {Expect((LD)v)});
    }
}

} // namespace

SUITE("C18", "casts")
{
    casts<bool>(ctx, {false, true});
    casts<int8_t>(ctx, integers<int8_t>()); casts<uint8_t>(ctx, integers<uint8_t>());
    casts<int16_t>(ctx, integers<int16_t>()); casts<uint16_t>(ctx, integers<uint16_t>());
    casts<int32_t>(ctx, integers<int32_t>()); casts<uint32_t>(ctx, integers<uint32_t>());
    casts<int64_t>(ctx, integers<int64_t>()); casts<uint64_t>(ctx, integers<uint64_t>());
    casts<float>(ctx, special<float>()); casts<double>(ctx, special<double>());
}
SUITE("C18", "range watched")
{
    watched<bool, bool>(ctx, {false, true}); watched<bool, int>(ctx, {false, true}); watched<bool, double>(ctx, {false, true});
    watched<int8_t, int8_t>(ctx, integers<int8_t>()); watched<int8_t, int64_t>(ctx, integers<int8_t>()); watched<int32_t, int64_t>(ctx, integers<int32_t>());
    watched<uint8_t, uint8_t>(ctx, integers<uint8_t>()); watched<uint8_t, uint64_t>(ctx, integers<uint8_t>()); watched<uint32_t, uint64_t>(ctx, integers<uint32_t>());
    watched<float, float>(ctx, special<float>()); watched<double, double>(ctx, special<double>());
}
SUITE("C18", "no-data") { unary_masks<Cast<int>, int8_t>(ctx); unary_masks<Cast<double>, int>(ctx); unary_masks<Cast<bool>, double>(ctx); }
#endif
