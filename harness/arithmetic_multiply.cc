// multiply of integers: exact, or marked as no-data.

#include "arithmetic.h"
#include "fern/algorithm/algebra/elementary/multiply.h"

using namespace arithmetic;

namespace {

struct Op
{
    static constexpr char const* symbol = "*";
    template<class A, class B> using Result = fa::multiply::result_value_type<A, B>;
    static Expect expect(Big a, Big b) { Big v; if(__builtin_mul_overflow(a, b, &v)) return {false, 0}; return {true, v}; }
    template<class I, class O, class P, class A, class B, class R> static void apply(I const& in, O& out, P& policy, A const& a, B const& b, R& r)
    { fa::algebra::multiply<fa::multiply::OutOfRangePolicy>(in, out, policy, a, b, r); }
    template<class P, class A, class B, class R> static void apply(P& policy, A const& a, B const& b, R& r)
    { fa::algebra::multiply(policy, a, b, r); }
};

} // namespace

SUITE("C07", "multiply") { all_types<Op>(ctx); }
