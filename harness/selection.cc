// Operations that select, move or combine elements: compress and decompress,
// offset, if, cover, clamp, copy, fill, and combining no-data. Every mask
// pattern of every small shape, against models over plain vectors.
#define SEQ_MAIN
#include "seq.h"
#include "alg.h"
#include "fern/algorithm/core/clamp.h"
#include "fern/algorithm/core/compress.h"
#include "fern/algorithm/core/copy.h"
#include "fern/algorithm/core/cover.h"
#include "fern/algorithm/core/decompress.h"
#include "fern/algorithm/core/fill.h"
#include "fern/algorithm/core/if.h"
#include "fern/algorithm/core/intersect_no_data.h"
#include "fern/algorithm/core/merge_no_data.h"
#include "fern/algorithm/core/offset.h"
#include "fern/algorithm/core/unite_no_data.h"

using namespace alg;
using seq::cat;

namespace {

Sequential sequential;
int const untouched = -99;

// What is expected of an element of the result.
struct Cell { bool mask; int value; };

template<class C> void compare(seq::Context& ctx, std::string const& key, C& got, std::vector<Cell> const& want)
{
    for(size_t i = 0; i < want.size(); ++i) {
        ctx.check(mask_at(got, i) == want[i].mask, cat(key, " no-data"),
            cat("element ", i, " of ", text_of(got), want[i].mask ? " must be no-data" : " must not be no-data"));
        if(!want[i].mask) ctx.check(at(got, i) == want[i].value, cat(key, " value"),
            cat("element ", i, " of ", text_of(got), " must be ", want[i].value));
    }
    ctx.check(count_of(got) == want.size(), cat(key, " size"), "size of the result changed");
}

fa::ParallelExecutionPolicy& parallel(size_t n)
{
    static fa::ParallelExecutionPolicy two(2), three(3);
    return n == 2 ? two : three;
}

// Whatever executes the operation, the outcome is the same.
template<int rank, class F> void each_policy(F f)
{
    f(sequential, "");
    if constexpr(rank > 0) { f(parallel(2), " parallel"); f(parallel(3), " parallel by 3"); }
}

template<class C> std::vector<Cell> cells(C& c)
{
    std::vector<Cell> r;
    for(size_t i = 0; i < count_of(c); ++i) r.push_back({mask_at(c, i), (int)at(c, i)});
    return r;
}

template<class C> void unchanged(seq::Context& ctx, C& c, std::vector<Cell> const& before)
{
    for(size_t i = 0; i < before.size(); ++i)
        ctx.check(mask_at(c, i) == before[i].mask && at(c, i) == before[i].value, "argument changed", cat("element ", i, " of an argument"));
}

std::vector<Shape> shapes(size_t max1, size_t max_rows, size_t max_cols)
{
    std::vector<Shape> r;
    for(size_t n = 0; n <= max1; ++n) r.push_back({1, 1, n});
    for(size_t a = 1; a <= max_rows; ++a) for(size_t b = 1; b <= max_cols; ++b) r.push_back({2, a, b});
    return r;
}

} // namespace

// ------------------------------------------------------------------ C15
namespace {

template<int rank> void compress_shape(seq::Context& ctx, Shape const& shape)
{
    using C = typename ByRank<int, rank>::type;
    size_t n = shape.size();
    for(unsigned mask = 0; mask < (1u << n); ++mask) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("compress and decompress ", shape.name(), " no-data ", mask));
        auto value = ByRank<int, rank>::make(shape);
        std::vector<int> values, want;
        for(size_t i = 0; i < n; ++i) { values.push_back(10 + (int)i * 3); if(!((mask >> i) & 1)) want.push_back(values[i]); }
        load(value, values, mask);
        auto before = cells(value);
        std::vector<Cell> round;
        for(size_t i = 0; i < n; ++i) round.push_back({bool((mask >> i) & 1), values[i]});
        each_policy<rank>([&](auto& policy, char const* how) {
            std::vector<int> compressed(n, untouched);
            size_t count = 77;
            fa::InputNoDataPolicies<Detect<C>> in{{value.mask(), true}};
            fa::core::compress(in, policy, value, compressed, count);
            ctx.check(count == want.size(), cat("count", how), cat("count is ", count, ", must be ", want.size()));
            for(size_t i = 0; i < want.size() && i < n; ++i)
                ctx.check(compressed[i] == want[i], cat("value", how), cat("compressed element ", i, " is ", compressed[i], ", must be ", want[i]));
            unchanged(ctx, value, before);
            // Back again.
            compressed.resize(std::min(count, n));
            auto result = ByRank<int, rank>::make(shape, untouched);
            Mark<C> out(result.mask(), true);
            fa::core::decompress(in, out, policy, compressed, result);
            compare(ctx, cat("decompress", how), result, round);
        });
        // Without no-data, compressing copies.
        if(mask == 0) {
            std::vector<int> all(n, untouched);
            size_t count = 77;
            fa::core::compress(sequential, value, all, count);
            ctx.check(count == n && all == values, "no policy", "compressing values without no-data must copy them all");
            auto copy = ByRank<int, rank>::make(shape, untouched);
            fa::core::decompress(sequential, all, copy);
            compare(ctx, "decompress no policy", copy, round);
        }
        ctx.nontrivial(cat(shape.name(), mask));
        ctx.outcome(cat("valid ", want.size()));
        ctx.sample(cat(shape.name(), " ", text_of(value), " -> ", want));
    }
}

} // namespace

SUITE("C15", "compress-decompress")
{
    bool t = ctx.thorough();
    for(auto const& s: shapes(t ? 14 : 10, t ? 4 : 3, t ? 4 : 4)) {
        if(s.rank == 1) compress_shape<1>(ctx, s); else compress_shape<2>(ctx, s);
    }
}

SUITE("C15", "compress-by-value")
{
    // No-data by a marker value within the collection itself, as in a vector.
    for(size_t n = 0; n <= (ctx.thorough() ? 8 : 6); ++n)
        seq::tuples(n, 3, [&](std::vector<unsigned> const& d) {
            if(!ctx.begin()) return;
            std::vector<int> value, want;
            for(auto x: d) { value.push_back(x == 2 ? -1 : (int)x); if(x != 2) want.push_back((int)x); }
            ctx.describe(cat("compress ", value, " -1 being no-data"));
            std::vector<int> compressed(n, untouched), result(n, untouched);
            size_t count = 77;
            fa::InputNoDataPolicies<fa::DetectNoDataByValue<std::vector<int>>> in{{value, -1}};
            fa::core::compress(in, sequential, value, compressed, count);
            ctx.check(count == want.size() && std::equal(want.begin(), want.end(), compressed.begin()), "compress",
                cat("got ", compressed, " and count ", count, ", must be ", want));
            compressed.resize(std::min(count, n));
            fa::MarkNoDataByValue<std::vector<int>> out(result, -1);
            fa::core::decompress(in, out, sequential, compressed, result);
            ctx.check(result == value, "decompress", cat("got ", result, ", must be ", value));
            ctx.nontrivial(cat(value));
        });
}

// ------------------------------------------------------------------ C16
namespace {

// Offsets of type O: all that move less than everything and somewhat more, and,
// if extreme, also the ends of the type.
template<class O> std::vector<O> offsets(size_t n, int reach, bool extreme)
{
    std::vector<O> r;
    for(int d = -(int)n - reach; d <= (int)n + reach; ++d) r.push_back(O(d));
    if(extreme) {
        using L = std::numeric_limits<O>;
        for(O d: {L::min(), O(L::min() + 1), O(L::max() - 1), L::max()}) r.push_back(d);
    }
    return r;
}

template<int rank, class O = int> void offset_shape(seq::Context& ctx, Shape const& shape, int reach, bool extreme = false)
{
    using C = typename ByRank<int, rank>::type;
    using P = fern::Point<O, rank>;
    size_t n = shape.size();
    size_t rows = rank == 1 ? 1 : shape.rows, cols = shape.cols;
    std::vector<O> drs = rank == 1 ? std::vector<O>{0} : offsets<O>(rows, reach, extreme);
    for(O dr: drs) for(O dc: offsets<O>(cols, reach, extreme))
        for(unsigned mask = 0; mask < (1u << n); ++mask) {
            if(!ctx.begin()) continue;
            ctx.describe(cat("offset ", shape.name(), " by ", dr, ",", dc, " no-data ", mask));
            auto value = ByRank<int, rank>::make(shape);
            std::vector<int> values;
            for(size_t i = 0; i < n; ++i) values.push_back(10 + (int)i);
            load(value, values, mask);
            auto before = cells(value);
            P point;
            if constexpr(rank == 1) point = P(dc); else point = P(dr, dc);
            std::vector<Cell> want_mark, want_fill;
            for(int r = 0; r < (int)rows; ++r) for(int c = 0; c < (int)cols; ++c) {
                __int128 sr = (__int128)r - dr, sc = (__int128)c - dc;
                bool inside = sr >= 0 && sr < (int)rows && sc >= 0 && sc < (int)cols;
                size_t s = inside ? size_t(sr) * cols + size_t(sc) : 0;
                bool masked = inside && ((mask >> s) & 1);
                want_mark.push_back(inside ? Cell{masked, values[s]} : Cell{true, 0});
                want_fill.push_back(inside ? Cell{masked, values[s]} : Cell{false, 5});
            }
            {
                each_policy<rank>([&](auto& policy, char const* how) {
                    auto result = ByRank<int, rank>::make(shape, untouched);
                    fa::InputNoDataPolicies<Detect<C>> in{{value.mask(), true}};
                    Mark<C> out(result.mask(), true);
                    fa::core::offset(in, out, policy, value, point, result);
                    compare(ctx, cat("offset", how), result, want_mark);
                });
            }
            {
                each_policy<rank>([&](auto& policy, char const* how) {
                    auto result = ByRank<int, rank>::make(shape, untouched);
                    fa::InputNoDataPolicies<Detect<C>> in{{value.mask(), true}};
                    Mark<C> out(result.mask(), true);
                    fa::core::offset(in, out, policy, value, point, 5, result);
                    compare(ctx, cat("offset and fill", how), result, want_fill);
                });
            }
            if(mask == 0) {
                auto result = ByRank<int, rank>::make(shape, untouched);
                fa::core::offset(sequential, value, point, result);
                for(auto& w: want_mark) if(w.mask) w = {false, untouched};
                compare(ctx, "offset no policy", result, want_mark);
                auto filled = ByRank<int, rank>::make(shape, untouched);
                fa::core::offset(sequential, value, point, 5, filled);
                compare(ctx, "offset and fill no policy", filled, want_fill);
            }
            unchanged(ctx, value, before);
            ctx.sample(cat(shape.name(), " by ", dr, ",", dc, " ", text_of(value)));
            ctx.nontrivial(cat(shape.name(), dr, dc, mask));
            ctx.outcome(cat(dr < 0 ? "up" : dr > 0 ? "down" : "same", "-", dc < 0 ? "left" : dc > 0 ? "right" : "same"));
        }
}

} // namespace

SUITE("C16", "offset")
{
    bool t = ctx.thorough();
    for(auto const& s: shapes(t ? 8 : 6, t ? 3 : 3, t ? 4 : 3)) {
        if(s.size() == 0) continue;
        if(s.rank == 1) offset_shape<1>(ctx, s, 3); else offset_shape<2>(ctx, s, 2);
    }
}

// Offsets beyond any array, and offsets of the widest type.
SUITE("C16", "offsets at the ends of their type")
{
    bool t = ctx.thorough();
    for(auto const& s: shapes(t ? 4 : 3, 2, t ? 3 : 2)) {
        if(s.size() == 0) continue;
        if(s.rank == 1) { offset_shape<1, int32_t>(ctx, s, 1, true); offset_shape<1, int64_t>(ctx, s, 1, true); }
        else { offset_shape<2, int32_t>(ctx, s, 1, true); offset_shape<2, int64_t>(ctx, s, 1, true); }
    }
}

// ------------------------------------------------------------------ C17
namespace {

// Elements of an argument: 0 no-data, others a value.
template<class C> void load_digits(C& c, std::vector<unsigned> const& d, size_t& at_digit, int base)
{
    for(size_t i = 0; i < count_of(c); ++i) {
        unsigned x = d[at_digit++];
        mask_at(c, i) = x == 0;
        at(c, i) = x == 0 ? 1 : base + (int)x - 1;
    }
}

template<int rc, int rt, int rf> void if_case(seq::Context& ctx, Shape const& shape)
{
    constexpr int rank = rc > rt ? (rc > rf ? rc : rf) : (rt > rf ? rt : rf);
    using CC = typename ByRank<int, rc>::type; using CT = typename ByRank<int, rt>::type; using CF = typename ByRank<int, rf>::type;
    using CR = typename ByRank<int, rank>::type;
    size_t n = shape.size();
    size_t nc = rc ? n : 1, nt = rt ? n : 1, nf = rf ? n : 1;
    // condition: no-data, false, true; values: no-data or a value per position
    size_t total = nc + nt + nf;
    seq::tuples(total, 3, [&](std::vector<unsigned> const& d) {
        for(size_t i = nc; i < total; ++i) if(d[i] > 1) return;
        if(!ctx.begin()) return;
        auto condition = ByRank<int, rc>::make(shape);
        auto true_value = ByRank<int, rt>::make(shape);
        auto false_value = ByRank<int, rf>::make(shape);
        size_t k = 0;
        load_digits(condition, d, k, 0);
        load_digits(true_value, d, k, 20); for(size_t i = 0; i < nt; ++i) at(true_value, i) += 2 * (int)i;
        load_digits(false_value, d, k, 70); for(size_t i = 0; i < nf; ++i) at(false_value, i) += 3 * (int)i;
        if(!mask_at(condition, 0) && at(condition, 0)) at(condition, 0) = 7; // true, not 1
        ctx.describe(cat("if ", rc, rt, rf, " ", text_of(condition), " then ", text_of(true_value), " else ", text_of(false_value)));
        std::vector<Cell> want;
        for(size_t i = 0; i < n; ++i) {
            size_t c = rc ? i : 0, t = rt ? i : 0, f = rf ? i : 0;
            if(mask_at(condition, c)) want.push_back({true, 0});
            else if(at(condition, c)) want.push_back({mask_at(true_value, t), at(true_value, t)});
            else want.push_back({mask_at(false_value, f), at(false_value, f)});
        }
        each_policy<rank>([&](auto& policy, char const* how) {
            auto result = ByRank<int, rank>::make(shape, untouched);
            fa::InputNoDataPolicies<Detect<CC>, Detect<CT>, Detect<CF>> in{{condition.mask(), true}, {true_value.mask(), true}, {false_value.mask(), true}};
            Mark<CR> out(result.mask(), true);
            fa::core::if_(in, out, policy, condition, true_value, false_value, result);
            compare(ctx, cat("if", how), result, want);
        });
        bool any = false; for(auto x: d) any |= x == 0;
        if(!any) {
            auto plain = ByRank<int, rank>::make(shape, untouched);
            fa::core::if_(sequential, condition, true_value, false_value, plain);
            compare(ctx, "if no policy", plain, want);
        }
        ctx.nontrivial(cat(rc, rt, rf, shape.name(), d));
        ctx.outcome(cat("if-", rc, rt, rf));
        ctx.sample(cat("if ", text_of(condition), " then ", text_of(true_value), " else ", text_of(false_value)));
    });
}

template<int rc, int rt> void if_then_case(seq::Context& ctx, Shape const& shape)
{
    constexpr int rank = rc > rt ? rc : rt;
    using CC = typename ByRank<int, rc>::type; using CT = typename ByRank<int, rt>::type;
    using CR = typename ByRank<int, rank>::type;
    size_t n = shape.size();
    size_t nc = rc ? n : 1, nt = rt ? n : 1;
    seq::tuples(nc + nt, 3, [&](std::vector<unsigned> const& d) {
        for(size_t i = nc; i < nc + nt; ++i) if(d[i] > 1) return;
        if(!ctx.begin()) return;
        auto condition = ByRank<int, rc>::make(shape);
        auto true_value = ByRank<int, rt>::make(shape);
        size_t k = 0;
        load_digits(condition, d, k, 0);
        load_digits(true_value, d, k, 20); for(size_t i = 0; i < nt; ++i) at(true_value, i) += 2 * (int)i;
        ctx.describe(cat("if ", rc, rt, " ", text_of(condition), " then ", text_of(true_value)));
        std::vector<Cell> want;
        for(size_t i = 0; i < n; ++i) {
            size_t c = rc ? i : 0, t = rt ? i : 0;
            bool valid = !mask_at(condition, c) && at(condition, c) && !mask_at(true_value, t);
            want.push_back({!valid, at(true_value, t)});
        }
        each_policy<rank>([&](auto& policy, char const* how) {
            auto result = ByRank<int, rank>::make(shape, untouched);
            fa::InputNoDataPolicies<Detect<CC>, Detect<CT>> in{{condition.mask(), true}, {true_value.mask(), true}};
            Mark<CR> out(result.mask(), true);
            fa::core::if_(in, out, policy, condition, true_value, result);
            compare(ctx, cat("if then", how), result, want);
        });
        bool any = false; for(auto x: d) any |= x == 0;
        if(!any) {
            auto plain = ByRank<int, rank>::make(shape, untouched);
            fa::core::if_(sequential, condition, true_value, plain);
            for(auto& w: want) if(w.mask) w = {false, untouched};
            compare(ctx, "if then no policy", plain, want);
        }
        ctx.nontrivial(cat("t", rc, rt, shape.name(), d));
        ctx.outcome(cat("if-", rc, rt));
    });
}

template<int r1, int r2_> void cover_case(seq::Context& ctx, Shape const& shape)
{
    using C1 = typename ByRank<int, r1>::type; using C2 = typename ByRank<int, r2_>::type;
    using CR = typename ByRank<int, r1>::type;
    size_t n = shape.size(), n1 = r1 ? n : 1, n2 = r2_ ? n : 1;
    seq::tuples(n1 + n2, 2, [&](std::vector<unsigned> const& d) {
        if(!ctx.begin()) return;
        auto value1 = ByRank<int, r1>::make(shape);
        auto value2 = ByRank<int, r2_>::make(shape);
        size_t k = 0;
        load_digits(value1, d, k, 20); for(size_t i = 0; i < n1; ++i) at(value1, i) += 2 * (int)i;
        load_digits(value2, d, k, 70); for(size_t i = 0; i < n2; ++i) at(value2, i) += 3 * (int)i;
        ctx.describe(cat("cover ", r1, r2_, " ", text_of(value1), " ", text_of(value2)));
        std::vector<Cell> want;
        for(size_t i = 0; i < n; ++i) {
            size_t a = r1 ? i : 0, b = r2_ ? i : 0;
            if(!mask_at(value1, a)) want.push_back({false, at(value1, a)});
            else want.push_back({mask_at(value2, b), at(value2, b)});
        }
        each_policy<r1>([&](auto& policy, char const* how) {
            auto result = ByRank<int, r1>::make(shape, untouched);
            fa::InputNoDataPolicies<Detect<C1>, Detect<C2>> in{{value1.mask(), true}, {value2.mask(), true}};
            Mark<CR> out(result.mask(), true);
            fa::core::cover(in, out, policy, value1, value2, result);
            compare(ctx, cat("cover", how), result, want);
        });
        ctx.nontrivial(cat("c", r1, r2_, shape.name(), d));
        ctx.outcome(cat("cover-", r1, r2_));
    });
}

template<int rv, int rl, int ru> void clamp_case(seq::Context& ctx, Shape const& shape)
{
    using CV = typename ByRank<int, rv>::type; using CL = typename ByRank<int, rl>::type; using CU = typename ByRank<int, ru>::type;
    size_t n = shape.size(), nl = rl ? n : 1, nu = ru ? n : 1;
    // value: no-data or one of 5; lower bounds 1..2 and upper bounds 2..3
    seq::tuples(n, 6, [&](std::vector<unsigned> const& v) {
        seq::tuples(nl + nu, 2, [&](std::vector<unsigned> const& d) {
            if(!ctx.begin()) return;
            auto value = ByRank<int, rv>::make(shape);
            auto lower = ByRank<int, rl>::make(shape);
            auto upper = ByRank<int, ru>::make(shape);
            size_t k = 0;
            load_digits(value, v, k, 0);
            for(size_t i = 0; i < nl; ++i) at(lower, i) = 1 + (int)d[i];
            for(size_t i = 0; i < nu; ++i) at(upper, i) = 2 + (int)d[nl + i];
            ctx.describe(cat("clamp ", rv, rl, ru, " ", text_of(value), " between ", text_of(lower), " and ", text_of(upper)));
            std::vector<Cell> want;
            for(size_t i = 0; i < n; ++i) {
                int lo = at(lower, rl ? i : 0), hi = at(upper, ru ? i : 0), x = at(value, i);
                want.push_back({mask_at(value, i), x < lo ? lo : x > hi ? hi : x});
            }
            each_policy<rv>([&](auto& policy, char const* how) {
                auto result = ByRank<int, rv>::make(shape, untouched);
                fa::InputNoDataPolicies<Detect<CV>, Detect<CL>, Detect<CU>> in{{value.mask(), true}, {lower.mask(), true}, {upper.mask(), true}};
                Mark<CV> out(result.mask(), true);
                fa::core::clamp(in, out, policy, value, lower, upper, result);
                compare(ctx, cat("clamp", how), result, want);
            });
            bool any = false; for(auto x: v) any |= x == 0;
            if(!any) {
                auto plain = ByRank<int, rv>::make(shape, untouched);
                fa::core::clamp(sequential, value, lower, upper, plain);
                compare(ctx, "clamp no policy", plain, want);
            }
            ctx.nontrivial(cat("l", rv, rl, ru, shape.name(), v, d));
            ctx.outcome(cat("clamp-", rv, rl, ru));
        });
    });
}

Shape const zero{0, 1, 1};

} // namespace

SUITE("C17", "if")
{
    if_case<0, 0, 0>(ctx, zero); if_then_case<0, 0>(ctx, zero);
    std::vector<Shape> one, two;
    for(size_t n = 0; n <= (ctx.thorough() ? 4 : 3); ++n) one.push_back({1, 1, n});
    two = {{2, 1, 1}, {2, 1, 2}, {2, 2, 1}};
    two.push_back({2, 1, 3}); two.push_back({2, 3, 1});
    if(ctx.thorough()) { two.push_back({2, 2, 2}); two.push_back({2, 4, 1}); }
    for(auto const& s: one) {
        if_case<1, 0, 0>(ctx, s); if_case<1, 1, 0>(ctx, s); if_case<1, 0, 1>(ctx, s); if_case<1, 1, 1>(ctx, s);
    }
    for(auto const& s: two) {
        if_case<0, 0, 2>(ctx, s); if_case<0, 2, 0>(ctx, s); if_case<0, 2, 2>(ctx, s); if_case<2, 0, 0>(ctx, s);
        if_case<2, 0, 2>(ctx, s); if_case<2, 2, 0>(ctx, s); if_case<2, 2, 2>(ctx, s);
        if_then_case<0, 2>(ctx, s); if_then_case<2, 0>(ctx, s); if_then_case<2, 2>(ctx, s);
    }
    // Larger ones, without a no-data value of the branches.
    for(auto const& s: std::vector<Shape>{{2, 2, 2}, {2, 2, 3}}) { if_then_case<2, 0>(ctx, s); if_case<2, 0, 0>(ctx, s); if_then_case<0, 2>(ctx, s); }
}

SUITE("C17", "cover")
{
    cover_case<0, 0>(ctx, zero);
    bool t = ctx.thorough();
    for(size_t r = 1; r <= (t ? 3 : 2); ++r) for(size_t c = 1; c <= 3; ++c) { cover_case<2, 0>(ctx, {2, r, c}); if(r * c <= (t ? 8 : 6)) cover_case<2, 2>(ctx, {2, r, c}); }
}

SUITE("C17", "clamp")
{
    clamp_case<0, 0, 0>(ctx, zero);
    for(size_t n = 0; n <= (ctx.thorough() ? 4 : 3); ++n) { Shape s{1, 1, n}; clamp_case<1, 1, 1>(ctx, s); clamp_case<1, 1, 0>(ctx, s); clamp_case<1, 0, 1>(ctx, s); }
    for(auto const& s: std::vector<Shape>{{2, 1, 1}, {2, 1, 2}, {2, 2, 1}, {2, 3, 1}, {2, ctx.thorough() ? 4u : 2u, 1}}) { clamp_case<2, 2, 2>(ctx, s); clamp_case<2, 2, 0>(ctx, s); clamp_case<2, 0, 2>(ctx, s); }
}

// ------------------------------------------------------------------ C19
namespace {

template<int r1, int r2_> void combine_case(seq::Context& ctx, Shape const& shape)
{
    constexpr int rank = r1 > r2_ ? r1 : r2_;
    using C1 = typename ByRank<int, r1>::type; using C2 = typename ByRank<int, r2_>::type; using CR = typename ByRank<int, rank>::type;
    size_t n = shape.size(), n1 = r1 ? n : 1, n2 = r2_ ? n : 1;
    seq::tuples(n1 + n2 + n, 2, [&](std::vector<unsigned> const& d) {
        if(!ctx.begin()) return;
        auto value1 = ByRank<int, r1>::make(shape, 3);
        auto value2 = ByRank<int, r2_>::make(shape, 4);
        auto make = [&]() {
            auto r = ByRank<int, rank>::make(shape, 0);
            for(size_t i = 0; i < n; ++i) { at(r, i) = 40 + (int)i; mask_at(r, i) = d[n1 + n2 + i]; }
            return r;
        };
        for(size_t i = 0; i < n1; ++i) mask_at(value1, i) = d[i];
        for(size_t i = 0; i < n2; ++i) mask_at(value2, i) = d[n1 + i];
        ctx.describe(cat("combine no-data ", r1, r2_, " ", text_of(value1), " ", text_of(value2)));
        fa::InputNoDataPolicies<Detect<C1>, Detect<C2>> in{{value1.mask(), true}, {value2.mask(), true}};
        auto want = [&](auto&& f) {
            std::vector<Cell> w;
            for(size_t i = 0; i < n; ++i) w.push_back({d[n1 + n2 + i] || f(mask_at(value1, r1 ? i : 0), mask_at(value2, r2_ ? i : 0)), 40 + (int)i});
            return w;
        };
        each_policy<rank>([&](auto& policy, char const* how) {
            auto result = make(); Mark<CR> out(result.mask(), true);
            fa::core::unite_no_data(in, out, policy, value1, value2, result);
            compare(ctx, cat("unite", how), result, want([](bool a, bool b) { return a || b; }));
            for(size_t i = 0; i < n; ++i) ctx.check(at(result, i) == 40 + (int)i, "unite value", "values of the result must not change");
        });
        each_policy<rank>([&](auto& policy, char const* how) {
            auto result = make(); Mark<CR> out(result.mask(), true);
            fa::core::intersect_no_data(in, out, policy, value1, value2, result);
            compare(ctx, cat("intersect", how), result, want([](bool a, bool b) { return a && b; }));
            for(size_t i = 0; i < n; ++i) ctx.check(at(result, i) == 40 + (int)i, "intersect value", "values of the result must not change");
        });
        if constexpr(r1 == rank) {
            each_policy<rank>([&](auto& policy, char const* how) {
                auto result = make(); Mark<CR> out(result.mask(), true);
                fa::InputNoDataPolicies<Detect<C1>> in1{{value1.mask(), true}};
                fa::core::merge_no_data(in1, out, policy, value1, result);
                compare(ctx, cat("merge", how), result, want([](bool a, bool) { return a; }));
            });
        }
        ctx.nontrivial(cat(r1, r2_, shape.name(), d));
        ctx.outcome(cat("combine-", r1, r2_));
    });
}

template<int rank> void fill_case(seq::Context& ctx, Shape const& shape)
{
    using CR = typename ByRank<int, rank>::type;
    for(int masked = 0; masked < 2; ++masked) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("fill ", shape.name(), masked ? " with no-data" : ""));
        int value = 6; bool value_mask = masked;
        each_policy<rank>([&](auto& policy, char const* how) {
            auto result = ByRank<int, rank>::make(shape, untouched);
            Mark<CR> out(result.mask(), true);
            fa::InputNoDataPolicies<D0> in{{value_mask, true}};
            fa::core::fill(in, out, policy, value, result);
            compare(ctx, cat("fill", how), result, std::vector<Cell>(shape.size(), Cell{bool(masked), 6}));
        });
        auto plain = ByRank<int, rank>::make(shape, untouched);
        fa::core::fill(sequential, value, plain);
        compare(ctx, "fill no policy", plain, std::vector<Cell>(shape.size(), Cell{false, 6}));
        ctx.nontrivial(cat(shape.name(), masked));
    }
}

} // namespace

SUITE("C19", "combine-no-data")
{
    combine_case<0, 0>(ctx, zero);
    bool t = ctx.thorough();
    for(size_t r = 1; r <= 3; ++r) for(size_t c = 1; c <= 3; ++c) if(r * c <= (t ? 6 : 4)) combine_case<2, 2>(ctx, {2, r, c});
}

SUITE("C19", "fill")
{
    fill_case<0>(ctx, zero);
    for(size_t n = 0; n <= 9; ++n) fill_case<1>(ctx, {1, 1, n});
    for(size_t r = 1; r <= 5; ++r) for(size_t c = 1; c <= 5; ++c) fill_case<2>(ctx, {2, r, c});
}

SUITE("C19", "copy")
{
    // All ranges and positions that fit.
    size_t max = ctx.thorough() ? 7 : 5;
    for(size_t n = 1; n <= max; ++n)
        for(size_t begin = 0; begin <= n; ++begin) for(size_t end = begin; end <= n; ++end)
            for(size_t position = 0; position + (end - begin) <= n; ++position)
                for(unsigned mask = 0; mask < (1u << n); ++mask) {
                    if(!ctx.begin()) continue;
                    ctx.describe(cat("copy [", begin, ",", end, ") of ", n, " to ", position, " no-data ", mask));
                    auto source = a1<int>(n);
                    std::vector<int> values; for(size_t i = 0; i < n; ++i) values.push_back(10 + (int)i);
                    load(source, values, mask);
                    std::vector<Cell> want(n, Cell{false, untouched});
                    fa::IndexRanges<1> range{fa::IndexRange(begin, end)};
                    for(size_t i = begin; i < end; ++i) want[position + i - begin] = {bool((mask >> i) & 1), values[i]};
                    each_policy<1>([&](auto& policy, char const* how) {
                        auto destination = a1<int>(n, untouched);
                        fa::InputNoDataPolicies<D1> in{{source.mask(), true}};
                        O1 out(destination.mask(), true);
                        fa::core::copy(in, out, policy, source, range, destination, fern::Point<size_t, 1>{position});
                        compare(ctx, cat("copy", how), destination, want);
                        for(size_t i = 0; i < n; ++i) ctx.check(destination.mask().data()[i] || destination.data()[i] == want[i].value, "copy touched", "element outside of the range changed");
                    });
                    if(mask == 0) {
                        std::vector<int> from(values), to(n, untouched);
                        fa::core::copy(sequential, from, range, to, fern::Point<size_t, 1>{position});
                        for(size_t i = 0; i < n; ++i) ctx.check(to[i] == want[i].value, "copy no policy", cat("got ", to));
                        // Within a single collection, towards the front.
                        if(position <= begin) {
                            fa::core::copy(sequential, from, range, from, fern::Point<size_t, 1>{position});
                            for(size_t i = 0; i < end - begin; ++i) ctx.check(from[position + i] == values[begin + i], "copy within", cat("got ", from));
                        }
                    }
                    ctx.nontrivial(cat(n, begin, end, position, mask));
                }
}
