// Operations on one argument.
#include "no_data.h"

namespace {

OPERATION(Absolute, { ONE(int, int) fa::algebra::absolute<fa::absolute::OutOfRangePolicy>(in, out, policy, v.c, r.c); RESULT })
OPERATION(Sqrt, { ONE(double, double) fa::algebra::sqrt<fa::sqrt::OutOfDomainPolicy>(in, out, policy, v.c, r.c); RESULT })
OPERATION(Cast, { ONE(int, int64_t) fa::core::cast<fa::cast::OutOfRangePolicy>(in, out, policy, v.c, r.c); RESULT })
OPERATION(Defined, { auto v = filled<Way<int, rank>>(a.shape, a.e[0]); auto r = blank<Way<int, rank>>(a.shape); auto in = inputs(v); fa::algebra::defined(in, policy, r.c); RESULT })
OPERATION(Fill, { auto v = filled<Way<int, 0>>(scalar, {a.e[0][0]}); auto r = blank<Way<int, rank>>(a.shape); auto in = inputs(v); auto out = r.out();
    fa::core::fill(in, out, policy, v.value(0), r.c); RESULT })
OPERATION(Merge, { ONE(int, int) fa::core::merge_no_data(in, out, policy, v.c, r.c); RESULT })
Elements bounds(size_t n, int first) { Elements e; for(size_t i = 0; i < n; ++i) e.push_back({false, double(first + (int)i % 2)}); return e; }
OPERATION(Clamp, { auto v = filled<Way<int, rank>>(a.shape, a.e[0]); auto l = filled<Way<int, rank>>(a.shape, bounds(a.shape.size(), 3)); auto u = filled<Way<int, rank>>(a.shape, bounds(a.shape.size(), 7));
    auto r = blank<Way<int, rank>>(a.shape); auto in = inputs(v, l, u); auto out = r.out();
    fa::core::clamp(in, out, policy, v.c, l.c, u.c, r.c); RESULT })
OPERATION(Offset, { ONE(int, int)
    if constexpr(rank == 1) fa::core::offset(in, out, policy, v.c, fern::Point<int, 1>{1}, r.c); else fa::core::offset(in, out, policy, v.c, fern::Point<int, 2>{1, -1}, r.c);
    RESULT })
OPERATION(Compress, { auto v = filled<Way<int, rank>>(a.shape, a.e[0]); auto in = inputs(v); std::vector<int> c(a.shape.size(), 77); size_t n = 99;
    fa::core::compress(in, policy, v.c, c, n); c.resize(std::min(n, c.size()));
    auto r = blank<Way<int, rank>>(a.shape); auto out = r.out(); fa::core::decompress(in, out, policy, c, r.c);
    return cat(n, ": ", c, " ", text(r, a.shape.size())); })
OPERATION(Copy, { ONE(int, int) fa::core::copy(in, out, policy, v.c, fa::IndexRanges<1>{fa::IndexRange(0, a.shape.size())}, r.c, fern::Point<size_t, 1>{{0}}); RESULT })
OPERATION(Sum, { auto v = filled<Way<int, rank>>(a.shape, a.e[0]); TO_SCALAR(int) fa::statistic::sum<fa::sum::OutOfRangePolicy>(in, out, policy, v.c, r.c); return text(r, 1); })
OPERATION(Mean, { auto v = filled<Way<double, rank>>(a.shape, a.e[0]); TO_SCALAR(double) fa::statistic::mean<fa::mean::OutOfRangePolicy>(in, out, policy, v.c, r.c); return text(r, 1); })
OPERATION(Max, { auto v = filled<Way<int, rank>>(a.shape, a.e[0]); TO_SCALAR(int) fa::statistic::unary_max(in, out, policy, v.c, r.c); return text(r, 1); })
OPERATION(Min, { auto v = filled<Way<int, rank>>(a.shape, a.e[0]); TO_SCALAR(int) fa::statistic::unary_min(in, out, policy, v.c, r.c); return text(r, 1); })
OPERATION(Count, { auto v = filled<Way<int, rank>>(a.shape, a.e[0]); auto r = blank<Way<size_t, 0>>(scalar); auto out = r.out();
    auto in = fa::InputNoDataPolicies<decltype(v.in()), fa::SkipNoData>(v.in(), fa::SkipNoData());
    fa::statistic::count(in, out, policy, v.c, (int)a.e[0].front().value, r.c); return text(r, 1); })
template<int rank> void one_argument(seq::Context& ctx, Shape const& s)
{
    patterns(ctx, s, 1, [&](Arguments const& a) {
        ways(ctx, "absolute", Absolute<rank>(), a); ways(ctx, "sqrt", Sqrt<rank>(), a); ways(ctx, "cast", Cast<rank>(), a);
        ways(ctx, "sum", Sum<rank>(), a); ways(ctx, "mean", Mean<rank>(), a); ways(ctx, "max", Max<rank>(), a); ways(ctx, "min", Min<rank>(), a);
        ways(ctx, "count", Count<rank>(), a);
        if constexpr(rank == 0 || rank == 2) ways(ctx, "merge_no_data", Merge<rank>(), a);
        ways(ctx, "defined", Defined<rank>(), a); ways(ctx, "fill", Fill<rank>(), a); ways(ctx, "clamp", Clamp<rank>(), a);
        if constexpr(rank > 0) { ways(ctx, "offset", Offset<rank>(), a); ways(ctx, "compress", Compress<rank>(), a); }
        if constexpr(rank == 1) ways(ctx, "copy", Copy<rank>(), a);
    });
}

} // namespace

SUITE("C21", "one-argument")
{
    bool t = ctx.thorough();
    one_argument<0>(ctx, scalar);
    for(size_t n = 1; n <= (t ? 12 : 9); ++n) one_argument<1>(ctx, {1, 1, n});
    for(size_t r = 1; r <= 3; ++r) for(size_t c = 1; c <= (t ? 4 : 3); ++c) one_argument<2>(ctx, {2, r, c});
}

