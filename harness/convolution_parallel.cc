// See convolution.h.
#include "convolution.h"

// The border and the inner part are handled by different tasks: with inner
// parts that are empty, smaller and larger than the number of threads.
SUITE("C12", "in parallel, radius 1")
{
    for(auto s: {std::pair<int, int>{2, 2}, {2, 3}, {3, 2}, {3, 3}, {4, 5}, {5, 4}, {8, 3}, {3, 8}})
        images(ctx, s.first, s.second, s.first * s.second <= 6 ? -1 : ctx.thorough() ? 2 : 1, [&](Image const& i, std::string const& what) {
            all_policies<double>(ctx, i, k3, square<int, 1>(k3), what + " by 2", parallel(2));
            all_policies<double>(ctx, i, k3, square<int, 1>(k3), what + " by 3", parallel(3));
        });
}

SUITE("C12", "in parallel, radius 2")
{
    auto w = k5();
    for(auto s: {std::pair<int, int>{4, 4}, {4, 6}, {6, 5}, {9, 5}})
        images(ctx, s.first, s.second, ctx.thorough() ? 1 : 0, [&](Image const& i, std::string const& what) {
            all_policies<double>(ctx, i, w, square<int, 2>(w), what + " by 2", parallel(2));
            all_policies<double>(ctx, i, w, square<int, 2>(w), what + " by 3", parallel(3));
        });
}
