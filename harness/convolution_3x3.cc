// See convolution.h.
#include "convolution.h"

SUITE("C12", "radius 1, all no-data patterns of 3x3")
{
    images(ctx, 3, 3, -1, [&](Image const& i, std::string const& what) {
        all_policies<double>(ctx, i, k3, square<int, 1>(k3), what + " square<int>");
        all_policies<double>(ctx, i, k3, kernel<double>(k3), what + " kernel<double>");
        all_policies<double>(ctx, i, k3_zero, kernel<int>(k3_zero), what + " kernel<int> with zeros");
        all_policies<double>(ctx, i, k3_bool, kernel<bool>(k3_bool), what + " kernel<bool>");
        all_policies<double>(ctx, i, k3_bool, square<bool, 1>(k3_bool), what + " square<bool>");
        all_policies<double>(ctx, i, k3_negative, square<double, 1>(k3_negative), what + " square<double> negative weights");
        all_policies<float>(ctx, i, k3, square<float, 1>(k3), what + " float image");
    });
}


// Images that are all border.
SUITE("C12", "radius 1, all no-data patterns of images two wide or high")
{
    for(auto s: {std::pair<int, int>{2, 2}, {2, 3}, {3, 2}, {2, 5}, {5, 2}})
        images(ctx, s.first, s.second, -1, [&](Image const& i, std::string const& what) {
            all_policies<double>(ctx, i, k3, square<int, 1>(k3), what + " square<int>");
            all_policies<double>(ctx, i, k3, kernel<double>(k3), what + " kernel<double>");
        });
}
