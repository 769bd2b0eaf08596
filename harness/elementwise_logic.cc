// Comparisons and logic.
#include "elementwise.h"
#include "fern/algorithm/algebra/boole/and.h"
#include "fern/algorithm/algebra/boole/nor.h"
#include "fern/algorithm/algebra/boole/not.h"
#include "fern/algorithm/algebra/boole/or.h"
#include "fern/algorithm/algebra/boole/xnor.h"
#include "fern/algorithm/algebra/boole/xor.h"
#include "fern/algorithm/algebra/elementary/equal.h"
#include "fern/algorithm/algebra/elementary/greater.h"
#include "fern/algorithm/algebra/elementary/greater_equal.h"
#include "fern/algorithm/algebra/elementary/less.h"
#include "fern/algorithm/algebra/elementary/less_equal.h"

using namespace ew;

namespace {

#define BINARY(CLASS, NAME, FUNCTION, EXPECT) \
struct CLASS { \
    static constexpr char const* name = NAME; \
    template<class A, class B> using Result = bool; \
    template<class T> static std::vector<T> table1() { return {T(0), T(1), T(3)}; } \
    template<class T> static std::vector<T> table2() { return {T(1), T(0), T(2)}; } \
    template<class A, class B> static Expect expect(A a_, B b_) { LD a = a_, b = b_; return EXPECT; } \
    template<class I, class O, class P, class A, class B, class R> static void apply(I const& in, O& out, P& p, A const& a, B const& b, R& r) { fa::algebra::FUNCTION(in, out, p, a, b, r); } \
    template<class P, class A, class B, class R> static void plain(P& p, A const& a, B const& b, R& r) { fa::algebra::FUNCTION(p, a, b, r); } \
};
BINARY(Equal, "equal", equal, a == b)
BINARY(Greater, "greater", greater, a > b)
BINARY(GreaterEqual, "greater_equal", greater_equal, a >= b)
BINARY(Less, "less", less, a < b)
BINARY(LessEqual, "less_equal", less_equal, a <= b)
BINARY(And, "and", and_, a != 0 && b != 0)
BINARY(Or, "or", or_, a != 0 || b != 0)
BINARY(Xor, "xor", xor_, (a != 0) != (b != 0))
BINARY(Nor, "nor", nor, !(a != 0 || b != 0))
BINARY(Xnor, "xnor", xnor, (a != 0) == (b != 0))

struct Not
{
    static constexpr char const* name = "not";
    template<class T> using Result = bool;
    template<class T> static Expect expect(T v) { return (LD)v == 0; }
    template<class I, class O, class P, class V, class R> static void apply(I const& in, O& out, P& p, V const& v, R& r) { fa::algebra::not_(in, out, p, v, r); }
    template<class P, class V, class R> static void plain(P& p, V const& v, R& r) { fa::algebra::not_(p, v, r); }
};

template<class T> std::vector<T> all_8() { std::vector<T> r; for(int i = 0; i < 256; ++i) r.push_back((T)i); return r; }

template<class Op> void compared(seq::Context& ctx)
{
    binary_values<Op, int8_t, int8_t>(ctx, all_8<int8_t>(), all_8<int8_t>());
    binary_values<Op, uint8_t, uint8_t>(ctx, all_8<uint8_t>(), all_8<uint8_t>());
    binary_values<Op, int16_t, int16_t>(ctx, integers<int16_t>(), integers<int16_t>()); binary_values<Op, uint16_t, uint16_t>(ctx, integers<uint16_t>(), integers<uint16_t>());
    binary_values<Op, int32_t, int32_t>(ctx, integers<int32_t>(), integers<int32_t>()); binary_values<Op, uint32_t, uint32_t>(ctx, integers<uint32_t>(), integers<uint32_t>());
    binary_values<Op, int64_t, int64_t>(ctx, integers<int64_t>(), integers<int64_t>()); binary_values<Op, uint64_t, uint64_t>(ctx, integers<uint64_t>(), integers<uint64_t>());
    binary_values<Op, float, float>(ctx, special<float>(), special<float>()); binary_values<Op, double, double>(ctx, special<double>(), special<double>());
}

template<class Op> void logical(seq::Context& ctx)
{
    binary_values<Op, bool, bool>(ctx, {false, true}, {false, true});
    binary_values<Op, int8_t, int8_t>(ctx, all_8<int8_t>(), all_8<int8_t>());
    binary_values<Op, int, int>(ctx, integers<int>(), integers<int>());
    binary_values<Op, double, double>(ctx, special<double>(), special<double>());
    binary_values<Op, bool, int>(ctx, {false, true}, integers<int>());
    binary_values<Op, uint8_t, float>(ctx, integers<uint8_t>(), special<float>());
}


} // namespace

#ifdef PROPERTY_C06
SUITE("C06", "comparisons") { binary_masks<Equal, int, int>(ctx); binary_masks<Greater, int, int>(ctx); binary_masks<GreaterEqual, double, double>(ctx); binary_masks<Less, int, int>(ctx); binary_masks<LessEqual, float, float>(ctx); }
SUITE("C06", "logic") { binary_masks<And, bool, bool>(ctx); binary_masks<Or, int, int>(ctx); binary_masks<Xor, bool, bool>(ctx); binary_masks<Nor, int, int>(ctx); binary_masks<Xnor, bool, bool>(ctx); }
#endif

#ifdef PROPERTY_C09
SUITE("C09", "equal") { compared<Equal>(ctx); binary_values<Equal, bool, bool>(ctx, {false, true}, {false, true}); }
SUITE("C09", "greater") { compared<Greater>(ctx); }
SUITE("C09", "greater_equal") { compared<GreaterEqual>(ctx); }
SUITE("C09", "less") { compared<Less>(ctx); }
SUITE("C09", "less_equal") { compared<LessEqual>(ctx); }
SUITE("C09", "and") { logical<And>(ctx); }
SUITE("C09", "or") { logical<Or>(ctx); }
SUITE("C09", "xor") { logical<Xor>(ctx); }
SUITE("C09", "nor") { logical<Nor>(ctx); }
SUITE("C09", "xnor") { logical<Xnor>(ctx); }
SUITE("C09", "not") { unary_values<Not, bool>(ctx, {false, true}); unary_values<Not, int8_t>(ctx, all_8<int8_t>()); unary_values<Not, int>(ctx, integers<int>()); unary_values<Not, double>(ctx, special<double>()); unary_values<Not, float>(ctx, special<float>()); }
// Whatever the value, the results relate.
SUITE("C09", "relations")
{
    auto v = special<double>();
    for(double a: v) {
        if(!ctx.begin()) continue;
        ctx.nontrivial(cat(a));
        for(double b: v) {
            ctx.describe(cat(a, " and ", b));
            bool lt, le, gt, ge, eq, ab, ba;
            fa::algebra::less(sequential(), a, b, lt); fa::algebra::less_equal(sequential(), a, b, le); fa::algebra::greater(sequential(), a, b, gt);
            fa::algebra::greater_equal(sequential(), a, b, ge); fa::algebra::equal(sequential(), a, b, eq);
            fa::algebra::less(sequential(), b, a, ba); fa::algebra::equal(sequential(), b, a, ab);
            ctx.check(le == (lt || eq) && ge == (gt || eq) && gt == ba && eq == ab && lt + gt + eq <= 1, "relations", cat(a, " and ", b, ": ", lt, le, gt, ge, eq));
        }
    }
}
#endif
