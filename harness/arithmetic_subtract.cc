// subtract of integers: exact, or marked as no-data.

#include "arithmetic.h"
#include "fern/algorithm/algebra/elementary/subtract.h"

using namespace arithmetic;

namespace {

struct Op
{
    static constexpr char const* symbol = "-";
    template<class A, class B> using Result = fa::subtract::result_value_type<A, B>;
    static Expect expect(Big a, Big b) { return {true, a - b}; }
    template<class I, class O, class P, class A, class B, class R> static void apply(I const& in, O& out, P& policy, A const& a, B const& b, R& r)
    { fa::algebra::subtract<fa::subtract::OutOfRangePolicy>(in, out, policy, a, b, r); }
    template<class P, class A, class B, class R> static void apply(P& policy, A const& a, B const& b, R& r)
    { fa::algebra::subtract(policy, a, b, r); }
};

} // namespace

SUITE("C07", "subtract") { all_types<Op>(ctx); }
