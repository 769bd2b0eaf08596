// Operations on two and three arguments.
#include "no_data.h"

namespace {

OPERATION(Add, { TWO(int, int) fa::algebra::add<fa::add::OutOfRangePolicy>(in, out, policy, v.c, w.c, r.c); RESULT })
OPERATION(AddUnsigned, { TWO(uint16_t, uint16_t) fa::algebra::add<fa::add::OutOfRangePolicy>(in, out, policy, v.c, w.c, r.c); RESULT })
OPERATION(Divide, { TWO(double, double) fa::algebra::divide<fa::divide::OutOfDomainPolicy, fa::divide::OutOfRangePolicy>(in, out, policy, v.c, w.c, r.c); RESULT })
OPERATION(Less, { TWO(int, uint8_t) fa::algebra::less(in, out, policy, v.c, w.c, r.c); RESULT })
OPERATION(AddScalar, { auto v = filled<Way<int, rank>>(a.shape, a.e[0]); auto w = filled<Way<int, 0>>(scalar, {a.e[1][0]});
    auto r = blank<Way<int, rank>>(a.shape); auto in = inputs(v, w); auto out = r.out();
    fa::algebra::add<fa::add::OutOfRangePolicy>(in, out, policy, v.c, w.c, r.c); RESULT })
OPERATION(Unite, { TWO(int, int) fa::core::unite_no_data(in, out, policy, v.c, w.c, r.c); RESULT })
OPERATION(Intersect, { TWO(int, int) fa::core::intersect_no_data(in, out, policy, v.c, w.c, r.c); RESULT })
OPERATION(Cover, { TWO(int, int) fa::core::cover(in, out, policy, v.c, w.c, r.c); RESULT })
OPERATION(CoverScalar, { auto v = filled<Way<int, rank>>(a.shape, a.e[0]); auto w = filled<Way<int, 0>>(scalar, {a.e[1][0]});
    auto r = blank<Way<int, rank>>(a.shape); auto in = inputs(v, w); auto out = r.out();
    fa::core::cover(in, out, policy, v.c, w.c, r.c); RESULT })
OPERATION(If, { auto c = filled<Way<int, rank>>(a.shape, a.e[2]); auto v = filled<Way<int, rank>>(a.shape, a.e[0]); auto w = filled<Way<int, rank>>(a.shape, a.e[1]);
    auto r = blank<Way<int, rank>>(a.shape); auto in = inputs(c, v, w); auto out = r.out();
    fa::core::if_(in, out, policy, c.c, v.c, w.c, r.c); RESULT })
OPERATION(IfThen, { auto c = filled<Way<int, rank>>(a.shape, a.e[1]); auto v = filled<Way<int, rank>>(a.shape, a.e[0]);
    auto r = blank<Way<int, rank>>(a.shape); auto in = inputs(c, v); auto out = r.out();
    fa::core::if_(in, out, policy, c.c, v.c, r.c); RESULT })
OPERATION(BinaryMax, { TWO(int, int) fa::statistic::binary_max(in, out, policy, v.c, w.c, r.c); RESULT })

template<int rank> void two_arguments(seq::Context& ctx, Shape const& s)
{
    patterns(ctx, s, 2, [&](Arguments const& a) {
        ways(ctx, "add", Add<rank>(), a); ways(ctx, "add unsigned", AddUnsigned<rank>(), a); ways(ctx, "divide", Divide<rank>(), a); ways(ctx, "less", Less<rank>(), a);
        ways(ctx, "add scalar", AddScalar<rank>(), a); ways(ctx, "binary_max", BinaryMax<rank>(), a);
        if constexpr(rank == 0 || rank == 2) {
            ways(ctx, "unite_no_data", Unite<rank>(), a); ways(ctx, "intersect_no_data", Intersect<rank>(), a); ways(ctx, "cover", Cover<rank>(), a);
            ways(ctx, "cover scalar", CoverScalar<rank>(), a); ways(ctx, "if-then", IfThen<rank>(), a);
        }
    });
}

template<int rank> void three_arguments(seq::Context& ctx, Shape const& s)
{
    patterns(ctx, s, 3, [&](Arguments const& a) { ways(ctx, "if", If<rank>(), a); });
}

} // namespace

SUITE("C21", "two-arguments")
{
    bool t = ctx.thorough();
    two_arguments<0>(ctx, scalar);
    for(size_t n = 1; n <= (t ? 7 : 5); ++n) two_arguments<1>(ctx, {1, 1, n});
    for(size_t r = 1; r <= (t ? 3 : 2); ++r) for(size_t c = 1; c <= 2; ++c) two_arguments<2>(ctx, {2, r, c});
    if(t) two_arguments<2>(ctx, {2, 2, 3});
}

SUITE("C21", "three-arguments")
{
    bool t = ctx.thorough();
    three_arguments<0>(ctx, scalar);
    for(size_t n = 1; n <= (t ? 5 : 4); ++n) three_arguments<1>(ctx, {1, 1, n});
    for(size_t r = 1; r <= 2; ++r) for(size_t c = 1; c <= 2; ++c) three_arguments<2>(ctx, {2, r, c});
}

