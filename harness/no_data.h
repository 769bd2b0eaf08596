// No-data kept in a mask, as a marker among the values, as the marker of the
// value type, and in a collection of its own with a marker of another type:
// the same operation must give the same outcome.
#pragma once
// Before the policies, which call it.
#include "fern/core/data_customization_point/scalar.h"
#include "fern/core/data_customization_point/vector.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/feature/core/data_customization_point/raster.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/feature/core/data_customization_point/masked_scalar.h"
#include "fern/algorithm/core/argument_traits/masked_raster.h"
#include "fern/algorithm/core/argument_customization_point/masked_raster.h"
#include "fern/algorithm/policy/all_no_data.h"
#include "fern/algorithm/policy/collect_no_data_indices.h"
#include "fern/algorithm/policy/detect_no_data.h"
#include "fern/algorithm/policy/detect_no_data_by_value.h"
#include "fern/algorithm/policy/mark_no_data.h"
#include "fern/algorithm/policy/mark_no_data_by_value.h"
// How a raster with the markers among its values tells this to operations
// which are composed of others.
namespace fern { namespace algorithm {
template<> struct ArgumentTraits<Raster<double, 2>>
{
    using Mask = Raster<double, 2>;
    using InputNoDataPolicy = DetectNoData<Raster<double, 2>>;
    using OutputNoDataPolicy = MarkNoData<Raster<double, 2>>;
};
inline Raster<double, 2>& mask(Raster<double, 2>& raster) { return raster; }
inline Raster<double, 2> const& mask(Raster<double, 2> const& raster) { return raster; }
} }
#include "seq.h"
#include "alg.h"
#include "fern/algorithm/algebra/boole/defined.h"
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/algebra/elementary/absolute.h"
#include "fern/algorithm/algebra/elementary/divide.h"
#include "fern/algorithm/algebra/elementary/less.h"
#include "fern/algorithm/algebra/elementary/sqrt.h"
#include "fern/algorithm/algebra/vector/gradient.h"
#include "fern/algorithm/algebra/vector/laplacian.h"
#include "fern/algorithm/algebra/vector/lax.h"
#include "fern/algorithm/convolution/convolve.h"
#include "fern/algorithm/convolution/neighborhood/square.h"
#include "fern/algorithm/core/cast.h"
#include "fern/algorithm/core/clamp.h"
#include "fern/algorithm/core/compress.h"
#include "fern/algorithm/core/copy.h"
#include "fern/algorithm/core/cover.h"
#include "fern/algorithm/core/decompress.h"
#include "fern/algorithm/core/fill.h"
#include "fern/algorithm/core/if.h"
#include "fern/algorithm/core/intersect_no_data.h"
#include "fern/algorithm/core/merge_no_data.h"
#include "fern/algorithm/core/offset.h"
#include "fern/algorithm/core/unite_no_data.h"
#include "fern/algorithm/space/focal/slope.h"
#include "fern/algorithm/statistic/binary_max.h"
#include "fern/algorithm/statistic/count.h"
#include "fern/algorithm/statistic/mean.h"
#include "fern/algorithm/statistic/sum.h"
#include "fern/algorithm/statistic/unary_max.h"
#include "fern/algorithm/statistic/unary_min.h"

using namespace alg;
using seq::cat;

namespace {

int const raster = 3;  // A rank: two dimensions, and cells of some size.

template<class T, int rank> struct PlainOf;
template<class T> struct PlainOf<T, 0> { using type = T; static T make(Shape const&) { return T(); } };
template<class T> struct PlainOf<T, 1> { using type = fern::Array<T, 1>; static type make(Shape const& s) { return type(fern::extents[(fern::Index)s.cols]); } };
template<class T> struct PlainOf<T, 2> { using type = fern::Array<T, 2>; static type make(Shape const& s) { return type(fern::extents[(fern::Index)s.rows][(fern::Index)s.cols]); } };
template<class T> struct PlainOf<T, raster>
{
    using type = fern::Raster<T, 2>;
    static type make(Shape const& s) { return type(fern::extents[(fern::Index)s.rows][(fern::Index)s.cols], typename type::Transformation{{0, 2, 0, 5}}); }
};
template<class T, int rank> struct MaskedOf { using type = typename ByRank<T, rank>::type; static type make(Shape const& s) { return ByRank<T, rank>::make(s); } };
template<class T> struct MaskedOf<T, raster> { using type = R2<T>; static type make(Shape const& s) { return r2<T>(s.rows, s.cols, 2, 5); } };

template<class C> auto& element(C& c, size_t i) { if constexpr(std::is_arithmetic<C>::value) return c; else return c.data()[i]; }

// The ways to tell which elements are no-data.

template<class T, int rank> struct ByMask
{
    using C = typename MaskedOf<T, rank>::type;
    static char const* name() { return "mask"; }
    C              c;
    ByMask(Shape const& s): c(MaskedOf<T, rank>::make(s)) {}
    auto in() const { return Detect<C>(c.mask(), true); }
    auto out() { return Mark<C>(c.mask(), true); }
    T& value(size_t i) { if constexpr(rank == 0) return c.value(); else return c.data()[i]; }
    bool& bit(size_t i) { if constexpr(rank == 0) return c.mask(); else return c.mask().data()[i]; }
    void set(size_t i, bool no_data) { bit(i) = no_data; if(no_data) value(i) = T(66); }
    bool no_data(size_t i) { return bit(i); }
};

template<class T, int rank> struct Plain
{
    using C = typename PlainOf<T, rank>::type;
    C              c;
    Plain(Shape const& s): c(PlainOf<T, rank>::make(s)) {}
    T& value(size_t i) { return element(c, i); }
};

template<class T, int rank> struct ByValue: Plain<T, rank>
{
    using C = typename Plain<T, rank>::C;
    using Plain<T, rank>::Plain; using Plain<T, rank>::c; using Plain<T, rank>::value;
    static T marker() { return std::is_signed<T>::value ? T(-99) : T(251); }
    static char const* name() { return "value"; }
    auto in() const { return fa::DetectNoDataByValue<C>(c, marker()); }
    auto out() { return fa::MarkNoDataByValue<C>(c, marker()); }
    void set(size_t i, bool no_data) { if(no_data) value(i) = marker(); }
    bool no_data(size_t i) { return value(i) == marker(); }
};

template<class T, int rank> struct ByType: Plain<T, rank>
{
    using C = typename Plain<T, rank>::C;
    using Plain<T, rank>::Plain; using Plain<T, rank>::c; using Plain<T, rank>::value;
    // As documented: the lowest value of a signed type, the highest value of
    // an unsigned type, the smallest positive normal value of a floating
    // point type.
    static T marker() { return std::is_signed<T>::value ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); }
    static char const* name() { return "type"; }
    auto in() const { return fa::DetectNoData<C>(c); }
    auto out() { return fa::MarkNoData<C>(c); }
    void set(size_t i, bool no_data) { if(no_data) value(i) = marker(); }
    bool no_data(size_t i) { return value(i) == marker(); }
};

template<class T, int rank> struct Apart: Plain<T, rank>
{
    using M = typename PlainOf<uint8_t, rank>::type;
    using Plain<T, rank>::Plain; using Plain<T, rank>::value;
    static char const* name() { return "apart"; }
    M              m;
    Apart(Shape const& s): Plain<T, rank>(s), m(PlainOf<uint8_t, rank>::make(s)) { for(size_t i = 0; i < s.size(); ++i) element(m, i) = 200; }
    auto in() const { return fa::DetectNoDataByValue<M>(m, 7); }
    auto out() { return fa::MarkNoDataByValue<M>(m, 7); }
    void set(size_t i, bool no_data) { element(m, i) = no_data ? 7 : 3; if(no_data) value(i) = T(66); }
    bool no_data(size_t i) { return element(m, i) == 7; }
};

// Elements: a value, or nothing.
struct Element { bool no_data; double value; };
using Elements = std::vector<Element>;

template<class Box> Box filled(Shape const& s, Elements const& e)
{
    Box b(s);
    for(size_t i = 0; i < e.size(); ++i) { b.value(i) = (std::decay_t<decltype(b.value(0))>)e[i].value; b.set(i, e[i].no_data); }
    return b;
}

template<class Box> Box blank(Shape const& s)
{
    Box b(s);
    for(size_t i = 0; i < s.size(); ++i) { b.value(i) = 55; b.set(i, false); }
    return b;
}

template<class Box> std::string text(Box& b, size_t n)
{
    std::ostringstream s; s.precision(12);
    for(size_t i = 0; i < n; ++i) { if(b.no_data(i)) s << "x "; else s << +b.value(i) << ' '; }
    return s.str();
}

std::string text(Elements const& e)
{
    std::ostringstream s;
    for(auto const& i: e) { if(i.no_data) s << "x "; else s << i.value << ' '; }
    return s.str();
}

template<class... Boxes> auto inputs(Boxes const&... b) { return fa::InputNoDataPolicies<decltype(b.in())...>(b.in()...); }

fa::ParallelExecutionPolicy& parallel() { static fa::ParallelExecutionPolicy p(3); return p; }

Shape const scalar{0, 1, 1};

// What an operation leaves, for arguments marked in some way.
#define WAY template<class, int> class Way

template<class F, class A> void ways(seq::Context& ctx, std::string const& name, F const& f, A const& arguments)
{
    std::string want = f.template run<ByMask>(arguments);
    auto one = [&](char const* way, std::string const& got) {
        ctx.check(got == want, cat(name, " by ", way), cat("gives ", got, ", and ", want, " when no-data is kept in a mask"));
    };
    one("value", f.template run<ByValue>(arguments));
    one("type", f.template run<ByType>(arguments));
    one("collection apart", f.template run<Apart>(arguments));
    ctx.outcome(want.find('x') == std::string::npos ? "all data" : want.find_first_of("0123456789") == std::string::npos ? "no data" : "mixed");
}

struct Arguments { Shape shape; std::vector<Elements> e; bool parallel; };

#define OPERATION(NAME, ...) \
template<int rank> struct NAME \
{ \
    template<WAY> std::string run(Arguments const& a) const \
    { \
        if(a.parallel && rank) return by<Way>(parallel(), a); \
        Sequential s; return by<Way>(s, a); \
    } \
    template<WAY, class P> std::string by(P& policy, Arguments const& a) const __VA_ARGS__ \
};

#define ONE(T, R) auto v = filled<Way<T, rank>>(a.shape, a.e[0]); auto r = blank<Way<R, rank>>(a.shape); auto in = inputs(v); auto out = r.out();
#define TWO(T, R) auto v = filled<Way<T, rank>>(a.shape, a.e[0]); auto w = filled<Way<T, rank>>(a.shape, a.e[1]); \
    auto r = blank<Way<R, rank>>(a.shape); auto in = inputs(v, w); auto out = r.out();
#define TO_SCALAR(R) auto r = blank<Way<R, 0>>(scalar); auto in = inputs(v); auto out = r.out();
#define RESULT return text(r, a.shape.size());

// Every choice of no-data, for one or more arguments; values differ.
template<class F> void patterns(seq::Context& ctx, Shape const& s, int nr_arguments, F f)
{
    size_t n = s.size();
    unsigned nr = 1u << (n * nr_arguments);
    for(unsigned m = 0; m < nr; ++m) {
        if(!ctx.begin()) continue;
        Arguments a{s, {}, false};
        for(int k = 0; k < nr_arguments; ++k) {
            Elements e;
            for(size_t i = 0; i < n; ++i) e.push_back({bool((m >> (k * n + i)) & 1), k == 2 ? double((i + 1) % 3) : double(((i + 1) * (k + 2) * 5) % 13)});
            a.e.push_back(e);
        }
        std::string what = s.name();
        for(auto const& e: a.e) what += ", " + text(e);
        ctx.nontrivial(what); ctx.sample(what);
        for(bool p: {false, true}) { a.parallel = p; ctx.describe(what + (p ? " in parallel" : "")); f(a); }
    }
}

} // namespace
