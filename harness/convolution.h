// Convolution against its definition, for every no-data pattern of small
// images, every kernel type and every combination of policies.
#pragma once
#include "seq.h"
#include "alg.h"
#include "fern/algorithm/convolution/convolve.h"
#include "fern/algorithm/convolution/neighborhood/kernel.h"
#include "fern/algorithm/convolution/neighborhood/square.h"

using namespace alg;
using seq::cat;
namespace cv = fa::convolve;

namespace {

Sequential sequential;

fa::ParallelExecutionPolicy& parallel(size_t n)
{
    static fa::ParallelExecutionPolicy two(2), three(3);
    return n == 2 ? two : three;
}

// A weight matrix, and the image it is applied to.
struct Weights
{
    int radius; std::vector<double> w;
    double at(int r, int c) const { return w[(r + radius) * (2 * radius + 1) + (c + radius)]; }
};

struct Image
{
    int rows, cols; std::vector<double> v; std::vector<bool> no_data;
    bool in(int r, int c) const { return r >= 0 && c >= 0 && r < rows && c < cols; }
    bool data(int r, int c) const { return in(r, c) && !no_data[r * cols + c]; }
    double at(int r, int c) const { return v[r * cols + c]; }
};

// Average of the valid cells in the 3x3 window around (r, c), if there is one.
bool focal_average(Image const& i, int r, int c, double& average)
{
    double sum = 0; int n = 0;
    for(int y = r - 1; y <= r + 1; ++y) for(int x = c - 1; x <= c + 1; ++x)
        if(i.data(y, x)) { sum += i.at(y, x); ++n; }
    if(n) average = sum / n;
    return n != 0;
}

enum class Kind { value, no_data, unspecified };
struct Expected { Kind kind; double value; };

Expected expected(Image const& i, Weights const& w, int r, int c, bool replace_no_data, bool divide, bool replace_outside, bool keep_focus, bool check_range, double largest)
{
    if(keep_focus && !i.data(r, c)) return {Kind::no_data, 0};
    double sum = 0, weights = 0; bool seen = false, seen_zero = false;
    for(int y = -w.radius; y <= w.radius; ++y) for(int x = -w.radius; x <= w.radius; ++x) {
        double v; bool have;
        if(!i.in(r + y, c + x)) have = replace_outside && focal_average(i, r + y, c + x, v);
        else if(i.data(r + y, c + x)) { have = true; v = i.at(r + y, c + x); }
        else have = replace_no_data && focal_average(i, r + y, c + x, v);
        if(!have) continue;
        if(w.at(y, x) == 0) { seen_zero = true; continue; }
        seen = true; sum += v * w.at(y, x); weights += w.at(y, x);
    }
    // What becomes of an element whose neighbours all weigh nothing is not
    // something the documentation settles.
    if(!seen) return {seen_zero ? Kind::unspecified : Kind::no_data, 0};
    if(check_range && !(std::fabs(sum) <= largest)) return {Kind::no_data, 0};
    if(divide && weights == 0) return {Kind::unspecified, 0};
    return {Kind::value, divide ? sum / weights : sum};
}

template<class AFN, class NP, class OOI, class NDF, template<class, class> class OORP, class T, class K, class Policy = Sequential>
void run(seq::Context& ctx, Image const& image, Weights const& w, K const& kernel, std::string const& what, Policy& policy = sequential)
{
    constexpr bool replace_no_data = std::is_same<AFN, cv::ReplaceNoDataByFocalAverage>::value;
    constexpr bool divide = std::is_same<NP, cv::DivideByWeights>::value;
    constexpr bool replace_outside = std::is_same<OOI, cv::ReplaceOutOfImageByFocalAverage>::value;
    constexpr bool keep = std::is_same<NDF, cv::KeepNoDataFocusElement>::value;
    constexpr bool check_range = std::is_same<OORP<T, T>, cv::OutOfRangePolicy<T, T>>::value;
    std::string policies = cat(replace_no_data ? "average-for-no-data " : "skip-no-data ", divide ? "normalise " : "sum ",
        replace_outside ? "average-outside " : "skip-outside ", keep ? "keep-focus" : "replace-focus", check_range ? " range" : "");
    ctx.describe(cat(what, " ", policies));
    auto source = a2<T>(image.rows, image.cols), result = a2<T>(image.rows, image.cols, (T)-77);
    for(size_t i = 0; i < image.v.size(); ++i) { at(source, i) = (T)image.v[i]; mask_at(source, i) = image.no_data[i]; }
    fa::InputNoDataPolicies<D2> in{{source.mask(), true}}; O2 out(result.mask(), true);
    fa::convolution::convolve<AFN, NP, OOI, NDF, OORP>(in, out, policy, source, kernel, result);
    double eps = sizeof(T) == 4 ? 1e-5 : 1e-11;
    for(int r = 0; r < image.rows; ++r) for(int c = 0; c < image.cols; ++c) {
        auto e = expected(image, w, r, c, replace_no_data, divide, replace_outside, keep, check_range, std::numeric_limits<double>::max());
        size_t i = r * image.cols + c;
        if(e.kind == Kind::unspecified) continue;
        std::string where = cat("element (", r, ", ", c, ")");
        if(!ctx.check(mask_at(result, i) == (e.kind == Kind::no_data), cat("no-data ", policies),
            cat(where, e.kind == Kind::no_data ? " must be no-data" : " must not be no-data"))) continue;
        if(e.kind == Kind::value) {
            double got = at(result, i);
            ctx.check(std::fabs(got - e.value) <= eps * (1 + std::fabs(e.value)) || got == e.value, cat("value ", policies), cat(where, " is ", got, ", must be ", e.value));
        }
    }
    for(size_t i = 0; i < image.v.size(); ++i)
        ctx.check(at(source, i) == (T)image.v[i] && mask_at(source, i) == image.no_data[i], "source changed", "the source was written");
}

template<class T, class K, class Policy = Sequential> void all_policies(seq::Context& ctx, Image const& i, Weights const& w, K const& k, std::string const& what, Policy& policy = sequential)
{
    #define ONE(AFN, NP, OOI, NDF) run<cv::AFN, cv::NP, cv::OOI, cv::NDF, fa::unary::DiscardRangeErrors, T>(ctx, i, w, k, what, policy);
    #define TWO(AFN, NP, OOI) ONE(AFN, NP, OOI, KeepNoDataFocusElement) ONE(AFN, NP, OOI, ReplaceNoDataFocusElement)
    #define FOUR(AFN, NP) TWO(AFN, NP, SkipOutOfImage) TWO(AFN, NP, ReplaceOutOfImageByFocalAverage)
    #define EIGHT(AFN) FOUR(AFN, DontDivideByWeights) FOUR(AFN, DivideByWeights)
    EIGHT(SkipNoData) EIGHT(ReplaceNoDataByFocalAverage)
    #undef ONE
    #undef TWO
    #undef FOUR
    #undef EIGHT
}

double const primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97,
    101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223, 227};

Image image(int rows, int cols, uint64_t mask)
{
    Image i{rows, cols, {}, {}};
    for(int k = 0; k < rows * cols; ++k) { i.v.push_back(primes[k % 49] * (k % 5 == 3 ? -1 : 1)); i.no_data.push_back((mask >> k) & 1); }
    return i;
}

template<class T, size_t radius> fern::Square<T, radius> square(Weights const& w)
{
    static std::initializer_list<std::initializer_list<T>> const zero[] = {{{T()}},
        {{T(), T(), T()}, {T(), T(), T()}, {T(), T(), T()}},
        {{T(), T(), T(), T(), T()}, {T(), T(), T(), T(), T()}, {T(), T(), T(), T(), T()}, {T(), T(), T(), T(), T()}, {T(), T(), T(), T(), T()}},
        {{T(), T(), T(), T(), T(), T(), T()}, {T(), T(), T(), T(), T(), T(), T()}, {T(), T(), T(), T(), T(), T(), T()}, {T(), T(), T(), T(), T(), T(), T()},
         {T(), T(), T(), T(), T(), T(), T()}, {T(), T(), T(), T(), T(), T(), T()}, {T(), T(), T(), T(), T(), T(), T()}}};
    fern::Square<T, radius> k(zero[radius]);
    for(size_t i = 0; i < w.w.size(); ++i) k.weight(i) = (T)w.w[i];
    return k;
}

template<class T> fern::Kernel<T> kernel(Weights const& w)
{
    fern::Kernel<T> k(w.radius, T());
    for(size_t i = 0; i < w.w.size(); ++i) k.weight(i) = (T)w.w[i];
    return k;
}

// Kernels whose weights all differ, or are zero in places.
Weights const k3{1, {1, 2, 4, 8, 16, 32, 64, 128, 256}};
Weights const k3_zero{1, {0, 2, 0, 3, 0, 5, 0, 7, 11}};
Weights const k3_bool{1, {1, 0, 1, 1, 0, 0, 0, 1, 1}};
Weights const k3_negative{1, {-1, -2, -1, 0, 0, 0, 1, 2, 1}};
Weights k5() { Weights w{2, {}}; for(int i = 0; i < 25; ++i) w.w.push_back(1 + i * i); return w; }
Weights k7() { Weights w{3, {}}; for(int i = 0; i < 49; ++i) w.w.push_back(1 + (i * 5) % 49); return w; }

void images(seq::Context& ctx, int rows, int cols, int max_no_data, std::function<void(Image const&, std::string const&)> f)
{
    int n = rows * cols;
    auto one = [&](uint64_t mask) {
        if(!ctx.begin()) return;
        auto what = cat(rows, "x", cols, " no-data ", mask);
        ctx.nontrivial(what);
        ctx.sample(what);
        f(image(rows, cols, mask), what);
    };
    uint64_t all = n == 64 ? ~0ull : (1ull << n) - 1;
    if(max_no_data < 0) { for(uint64_t m = 0; m <= all; ++m) one(m); return; }
    // Up to so many no-data elements, and up to so many elements with data.
    one(0); one(all);
    for(int a = 0; a < n; ++a) {
        if(max_no_data >= 1) { one(1ull << a); one(all & ~(1ull << a)); }
        for(int b = a + 1; b < n && max_no_data >= 2; ++b) { one((1ull << a) | (1ull << b)); one(all & ~((1ull << a) | (1ull << b))); }
    }
}

} // namespace

