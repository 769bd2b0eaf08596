// What the harnesses for the algorithms share: containers built from plain
// values, and their contents as text.
#pragma once
#include <cassert>
#include <cmath>
#include <cstdint>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
#include "fern/core/data_customization_point/point.h"
#include "fern/core/data_customization_point/scalar.h"
#include "fern/core/data_customization_point/vector.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/feature/core/data_customization_point/masked_scalar.h"
#include "fern/algorithm/policy/policies.h"

namespace fa = fern::algorithm;

namespace alg {

template<class T> using S = fern::MaskedScalar<T>;
template<class T> using A1 = fern::MaskedArray<T, 1>;
template<class T> using A2 = fern::MaskedArray<T, 2>;
template<class T> using R2 = fern::MaskedRaster<T, 2>;
using M1 = fern::Mask<1>;
using M2 = fern::Mask<2>;

using Sequential = fa::SequentialExecutionPolicy;
using D0 = fa::DetectNoDataByValue<bool>;
using D1 = fa::DetectNoDataByValue<M1>;
using D2 = fa::DetectNoDataByValue<M2>;
using O0 = fa::MarkNoDataByValue<bool>;
using O1 = fa::MarkNoDataByValue<M1>;
using O2 = fa::MarkNoDataByValue<M2>;

template<class T> A1<T> a1(size_t n, T v = T()) { return A1<T>(fern::extents[(fern::Index)n], v); }
template<class T> A2<T> a2(size_t r, size_t c, T v = T()) { return A2<T>(fern::extents[(fern::Index)r][(fern::Index)c], v); }
template<class T> R2<T> r2(size_t r, size_t c, double cell_width = 1, double cell_height = 1, T v = T())
{ return R2<T>(fern::extents[(fern::Index)r][(fern::Index)c], typename R2<T>::Transformation{{0, cell_width, 0, cell_height}}, v); }

// The shape decides what a container looks like: 0d, 1d or 2d.
struct Shape
{
    int            rank;
    size_t         rows, cols;
    size_t size() const { return rank == 0 ? 1 : rank == 1 ? cols : rows * cols; }
    std::string name() const
    {
        return rank == 0 ? "0d" : rank == 1 ? "1d:" + std::to_string(cols) : "2d:" + std::to_string(rows) + "x" + std::to_string(cols);
    }
};

// Uniform access by element number.
template<class T> T& at(S<T>& s, size_t) { return s.value(); }
template<class T> T& at(A1<T>& a, size_t i) { return a.data()[i]; }
template<class T> T& at(A2<T>& a, size_t i) { return a.data()[i]; }
template<class T> bool& mask_at(S<T>& s, size_t) { return s.mask(); }
template<class T> bool& mask_at(A1<T>& a, size_t i) { return a.mask().data()[i]; }
template<class T> bool& mask_at(A2<T>& a, size_t i) { return a.mask().data()[i]; }
template<class T> size_t count_of(S<T> const&) { return 1; }
template<class T> size_t count_of(A1<T> const& a) { return a.num_elements(); }
template<class T> size_t count_of(A2<T> const& a) { return a.num_elements(); }

template<class T> struct KindOf;
template<class T> struct KindOf<S<T>> { static constexpr int rank = 0; using Detect = D0; using Mark = O0; using value = T; };
template<class T> struct KindOf<A1<T>> { static constexpr int rank = 1; using Detect = D1; using Mark = O1; using value = T; };
template<class T> struct KindOf<A2<T>> { static constexpr int rank = 2; using Detect = D2; using Mark = O2; using value = T; };
template<class T> struct KindOf<R2<T>> { static constexpr int rank = 2; using Detect = D2; using Mark = O2; using value = T; };
template<class C> using Detect = typename KindOf<std::remove_const_t<C>>::Detect;
template<class C> using Mark = typename KindOf<std::remove_const_t<C>>::Mark;

template<class T, int rank> struct ByRank;
template<class T> struct ByRank<T, 0> { using type = S<T>; static type make(Shape const&, T v = T()) { return S<T>(v); } };
template<class T> struct ByRank<T, 1> { using type = A1<T>; static type make(Shape const& s, T v = T()) { return a1<T>(s.cols, v); } };
template<class T> struct ByRank<T, 2> { using type = A2<T>; static type make(Shape const& s, T v = T()) { return a2<T>(s.rows, s.cols, v); } };

template<class C> std::string text_of(C& c)
{
    std::ostringstream s; s.precision(17);
    s << '[';
    for(size_t i = 0; i < count_of(c); ++i) {
        if(i) s << ' ';
        if(mask_at(c, i)) s << 'x'; else s << +at(c, i);
    }
    s << ']';
    return s.str();
}

template<class C> void load(C& c, std::vector<typename KindOf<C>::value> const& values, unsigned mask_bits = 0)
{
    for(size_t i = 0; i < count_of(c); ++i) {
        at(c, i) = values[i];
        mask_at(c, i) = (mask_bits >> i) & 1;
    }
}

// Bit-identical, or both not a number.
template<class T> bool same(T a, T b)
{
    if constexpr(std::is_floating_point<T>::value) {
        if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
        return a == b;
    }
    return a == b;
}

} // namespace alg
