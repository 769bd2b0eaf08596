// See convolution.h.
#include "convolution.h"

SUITE("C12", "radius 2")
{
    auto w = k5();
    for(auto s: {std::pair<int, int>{5, 5}, {5, 7}, {6, 5}, {7, 6}, {4, 4}, {4, 5}, {5, 4}, {4, 7}, {8, 4}})
        images(ctx, s.first, s.second, ctx.thorough() || s == std::pair<int, int>{5, 5} ? 2 : 1, [&](Image const& i, std::string const& what) {
            all_policies<double>(ctx, i, w, square<int, 2>(w), what + " square<int, 2>");
            all_policies<double>(ctx, i, w, kernel<double>(w), what + " kernel<double>");
        });
}

SUITE("C12", "radius 3")
{
    auto w = k7();
    for(auto s: {std::pair<int, int>{7, 7}, {8, 7}, {6, 6}, {6, 8}, {7, 6}})
        images(ctx, s.first, s.second, ctx.thorough() ? 2 : 1, [&](Image const& i, std::string const& what) { all_policies<double>(ctx, i, w, square<int, 3>(w), what); });
}

