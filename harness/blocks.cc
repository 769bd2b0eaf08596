// Division of work into blocks.
#define SEQ_MAIN
#include "seq.h"
#include <numeric>
#include "fern/algorithm/core/index_ranges.h"

namespace fa = fern::algorithm;
using seq::cat;

namespace {

size_t volume(fa::IndexRange const& r) { return r.end() - r.begin(); }

} // namespace

SUITE("C04", "one dimension")
{
    size_t threads = ctx.thorough() ? 64 : 24, sizes = ctx.thorough() ? 1500 : 400;
    for(size_t t = 1; t <= threads; ++t) for(size_t n = 0; n <= sizes; ++n) {
        if(!ctx.begin()) continue;
        ctx.describe(cat(n, " elements, ", t, " threads"));
        auto blocks = fa::index_ranges(t, n);
        size_t next = 0;
        for(auto const& b: blocks) {
            ctx.check(b[0].begin() == next && b[0].end() > b[0].begin(), "gap, overlap or empty block", cat("block [", b[0].begin(), ", ", b[0].end(), ") after ", next));
            ctx.check(!b.empty() && b.size() == volume(b[0]), "size of block", cat("size ", b.size()));
            next = b[0].end();
        }
        ctx.check(next == n, "elements left out", cat("blocks end at ", next));
        ctx.check(n >= t ? blocks.size() >= t : blocks.size() == (n ? 1u : 0u), "number of blocks", cat(blocks.size(), " blocks"));
        ctx.nontrivial(cat(t, ' ', n));
        ctx.outcome(cat(std::min<size_t>(blocks.size(), 60), " blocks"));
        ctx.sample(cat(n, " elements, ", t, " threads: ", blocks.size(), " blocks"));
    }
}

SUITE("C04", "two dimensions")
{
    size_t threads = ctx.thorough() ? 24 : 12, rows = ctx.thorough() ? 200 : 60;
    for(size_t t = 1; t <= threads; ++t) for(size_t n = 0; n <= rows; ++n) for(size_t m: {0, 1, 2, 3, 5, 17}) {
        if(!ctx.begin()) continue;
        ctx.describe(cat(n, "x", m, " elements, ", t, " threads"));
        auto blocks = fa::index_ranges(t, n, m);
        // How often each element is visited.
        std::vector<int> visits(n * m, 0);
        size_t previous = 0; bool ordered = true, inside = true, any_empty = false;
        for(auto const& b: blocks) {
            inside = inside && b[0].end() <= n && b[1].end() <= m;
            ordered = ordered && b[0].begin() >= previous; previous = b[0].begin();
            any_empty = any_empty || b.empty();
            ctx.check(b.size() == volume(b[0]) * volume(b[1]) && b.empty() == (b.size() == 0), "size of block", cat("size ", b.size()));
            if(inside) for(size_t r = b[0].begin(); r < b[0].end(); ++r) for(size_t c = b[1].begin(); c < b[1].end(); ++c) ++visits[r * m + c];
        }
        ctx.check(inside, "outside", "a block reaches outside of the array");
        ctx.check(std::all_of(visits.begin(), visits.end(), [](int v) { return v == 1; }), "visits", "not every element is in exactly one block");
        ctx.check(ordered, "order", "the blocks are not in order");
        ctx.check(m == 0 || !any_empty, "empty block", "a block without elements");
        if(m && n >= t) ctx.check(blocks.size() >= t, "number of blocks", cat(blocks.size(), " blocks"));
        ctx.nontrivial(cat(t, ' ', n, ' ', m));
        ctx.sample(cat(n, "x", m, " elements, ", t, " threads: ", blocks.size(), " blocks"));
    }
}

SUITE("C04", "ranges")
{
    // A range is what lies from its begin to just before its end.
    for(size_t a = 0; a <= 4; ++a) for(size_t b = a; b <= 4; ++b) for(size_t c = 0; c <= 4; ++c) for(size_t d = c; d <= 4; ++d) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("[", a, ", ", b, ") x [", c, ", ", d, ")"));
        ctx.nontrivial(cat(a, b, c, d));
        fa::IndexRange r(a, b), s(c, d);
        ctx.check(r.begin() == a && r.end() == b && r.size() == b - a && r.empty() == (a == b), "range", "begin, end, size, empty");
        ctx.check((r == s) == (a == c && b == d) && (r != s) == !(r == s), "range equality", "compared");
        fa::IndexRanges<2> both(r, s), other(s, r), copy(both), moved(std::move(copy)), assigned;
        ctx.check(assigned.empty() && assigned.size() == 0, "default", "a default range is empty");
        assigned = other;
        ctx.check(both.size() == (b - a) * (d - c) && both.empty() == (a == b || c == d), "ranges", "size, empty");
        ctx.check(both[0] == r && both[1] == s && moved == both && assigned == other, "ranges content", "copied and moved");
        ctx.check((both == other) == (a == c && b == d) && (both != other) == !(both == other), "ranges equality", "compared");
        if(b <= d) { auto x = r; x.set_end(d); ctx.check(x.begin() == a && x.end() == d, "set_end", "end replaced"); }
        fa::IndexRanges<1> one{r};
        ctx.check(one.size() == b - a && one.empty() == (a == b) && one[0] == r, "one range", "size, empty");
    }
}
