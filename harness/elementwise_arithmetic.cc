// Binary arithmetic.
#include "elementwise.h"
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/algebra/elementary/divide.h"
#include "fern/algorithm/algebra/elementary/multiply.h"
#include "fern/algorithm/algebra/elementary/pow.h"
#include "fern/algorithm/algebra/elementary/subtract.h"

using namespace ew;

namespace {

template<class R> Expect in_range(LD v)
{
    if(std::is_integral<R>::value) { if(v < (LD)std::numeric_limits<R>::min() || v > (LD)std::numeric_limits<R>::max()) return {}; return std::trunc(v); }
    return Expect(v);
}

// What rounding to the result type makes of a finite value.
template<class R> Expect finite(R v) { return std::isfinite(v) ? Expect((LD)v) : Expect(); }

#define BINARY(CLASS, NAME, FUNCTION, POLICIES, RESULT, INTEGER, FLOAT) \
struct CLASS { \
    static constexpr char const* name = NAME; \
    template<class A, class B> using Result = RESULT; \
    template<class T> static std::vector<T> table1() { return {T(100), T(-7), T(2)}; } \
    template<class T> static std::vector<T> table2() { return {T(0), T(100.5), T(-3.25)}; } \
    template<class A, class B> static Expect expect(A a_, B b_) \
    { \
        using R = Result<A, B>; \
        if constexpr(std::is_integral<R>::value) { LD a = a_, b = b_; INTEGER } \
        else { volatile R a = (R)a_, b = (R)b_; FLOAT } \
    } \
    template<class I, class O, class P, class A, class B, class R> static void apply(I const& in, O& out, P& p, A const& a, B const& b, R& r) { fa::algebra::FUNCTION POLICIES(in, out, p, a, b, r); } \
    template<class P, class A, class B, class R> static void plain(P& p, A const& a, B const& b, R& r) { fa::algebra::FUNCTION(p, a, b, r); } \
};
#define COMMA ,
BINARY(Add, "add", add, <fa::add::OutOfRangePolicy>, fa::add::result_value_type<A COMMA B>, return in_range<R>(a + b);, return finite<R>(a + b);)
BINARY(Subtract, "subtract", subtract, <fa::subtract::OutOfRangePolicy>, fa::subtract::result_value_type<A COMMA B>, return in_range<R>(a - b);, return finite<R>(a - b);)
BINARY(Multiply, "multiply", multiply, <fa::multiply::OutOfRangePolicy>, fa::multiply::result_value_type<A COMMA B>, return in_range<R>(a * b);, return finite<R>(a * b);)
BINARY(Divide, "divide", divide, <fa::divide::OutOfDomainPolicy COMMA fa::divide::OutOfRangePolicy>, fa::divide::result_value_type<A COMMA B>, if(b == 0) return {}; return in_range<R>(a / b);, if(b == 0) return {}; return finite<R>(a / b);)
BINARY(Pow, "pow", pow, <fa::pow::OutOfDomainPolicy COMMA fa::pow::OutOfRangePolicy>, A, return {};,
    if((a < 0 && std::isfinite(b) && std::trunc(b) != b) || (a == 0 && b < 0)) return {};
    LD v = std::pow((LD)a, (LD)b);
    return std::isfinite(v) && std::fabs(v) <= (LD)std::numeric_limits<R>::max() ? Expect(v) : Expect();)

template<class Op> void floats(seq::Context& ctx)
{
    binary_values<Op, double, double>(ctx, special<double>(), special<double>());
    binary_values<Op, float, float>(ctx, special<float>(), special<float>());
}

template<class T> std::vector<T> moderate()
{
    auto v = special<T>();
    v.erase(std::remove_if(v.begin(), v.end(), [](T x) { return !(std::fabs(x) < T(1e15)); }), v.end());
    return v;
}

template<class Op> void mixed(seq::Context& ctx)
{
    binary_values<Op, double, float>(ctx, special<double>(), special<float>());
    binary_values<Op, float, double>(ctx, special<float>(), special<double>());
    binary_values<Op, int8_t, double>(ctx, integers<int8_t>(), moderate<double>());
    binary_values<Op, double, uint8_t>(ctx, moderate<double>(), integers<uint8_t>());
    binary_values<Op, int32_t, float>(ctx, integers<int32_t>(), moderate<float>());
    binary_values<Op, float, int64_t>(ctx, moderate<float>(), integers<int64_t>());
    binary_values<Op, uint64_t, double>(ctx, integers<uint64_t>(), moderate<double>());
}

} // namespace

#ifdef PROPERTY_C06
SUITE("C06", "add") { binary_masks<Add, int8_t, int8_t>(ctx); binary_masks<Add, double, double>(ctx); }
SUITE("C06", "subtract") { binary_masks<Subtract, uint8_t, uint8_t>(ctx); binary_masks<Subtract, double, float>(ctx); }
SUITE("C06", "multiply") { binary_masks<Multiply, int8_t, int8_t>(ctx); binary_masks<Multiply, int32_t, double>(ctx); binary_masks<Multiply, double, int8_t>(ctx); }
SUITE("C06", "divide") { binary_masks<Divide, int, int>(ctx); binary_masks<Divide, int32_t, double>(ctx); binary_masks<Divide, double, double>(ctx); }
SUITE("C06", "pow") { binary_masks<Pow, double, double>(ctx); }
#endif

#ifdef PROPERTY_C08
SUITE("C08", "add") { floats<Add>(ctx); mixed<Add>(ctx); }
SUITE("C08", "subtract") { floats<Subtract>(ctx); mixed<Subtract>(ctx); }
SUITE("C08", "multiply") { floats<Multiply>(ctx); mixed<Multiply>(ctx); }
SUITE("C08", "divide") { floats<Divide>(ctx); mixed<Divide>(ctx); }
SUITE("C08", "pow") { floats<Pow>(ctx); }
#endif
