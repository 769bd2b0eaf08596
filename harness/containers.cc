// Arrays, masked arrays, rasters and masked scalars against plain vectors of
// values and masks, over all small shapes and all short sequences of
// operations.
#define SEQ_MAIN
#include "seq.h"
#include <cassert>
#include "fern/core/data_customization_point/point.h"
#include "fern/core/data_customization_point/scalar.h"
#include "fern/core/data_customization_point/vector.h"
#include "fern/feature/core/array_reference.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/feature/core/data_customization_point/array_reference.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/feature/core/data_customization_point/masked_scalar.h"
#include "fern/feature/core/data_customization_point/raster.h"

using seq::cat;

namespace {

template<size_t n> using Dims = std::array<size_t, n>;

template<size_t n> auto extents_of(Dims<n> const& d)
{
    using I = fern::Index;
    if constexpr(n == 1) return fern::extents[(I)d[0]];
    else if constexpr(n == 2) return fern::extents[(I)d[0]][(I)d[1]];
    else return fern::extents[(I)d[0]][(I)d[1]][(I)d[2]];
}

template<size_t n> size_t count(Dims<n> const& d) { size_t r = 1; for(auto x: d) r *= x; return r; }
template<size_t n> std::string name(Dims<n> const& d) { std::string r; for(auto x: d) r += (r.empty() ? "" : "x") + std::to_string(x); return r; }

template<size_t n> std::vector<Dims<n>> all_dims(size_t largest)
{
    std::vector<Dims<n>> r;
    seq::tuples(n, largest + 1, [&](std::vector<unsigned> const& t) { Dims<n> d; for(size_t i = 0; i < n; ++i) d[i] = t[i]; r.push_back(d); });
    return r;
}

// Element by its indices, through operator[].
template<class C, size_t n> auto element(C const& c, Dims<n> const& d, size_t i)
{
    if constexpr(n == 1) return c[i];
    else if constexpr(n == 2) return c[i / d[1]][i % d[1]];
    else return c[i / (d[1] * d[2])][i / d[2] % d[1]][i % d[2]];
}

// Elements in the order of iteration.
template<class C> void flatten(C const& c, std::vector<double>& r)
{
    if constexpr(std::is_arithmetic<C>::value) r.push_back((double)c);
    else for(auto const& x: c) flatten(x, r);
}

template<class C> constexpr bool is_masked_v = false;
template<class T, size_t n> constexpr bool is_masked_v<fern::MaskedArray<T, n>> = true;
template<class T, size_t n> constexpr bool is_masked_v<fern::MaskedRaster<T, n>> = true;
template<class C> constexpr bool has_transformation = false;
template<class T, size_t n> constexpr bool has_transformation<fern::Raster<T, n>> = true;
template<class T, size_t n> constexpr bool has_transformation<fern::MaskedRaster<T, n>> = true;

template<class C, size_t n> void check_shape(seq::Context& ctx, char const* what, C const& c, Dims<n> const& d)
{
    ctx.check(c.num_dimensions() == n && c.num_elements() == count(d) && c.size() == d[0] && fern::size(c) == count(d), cat(what, " size"),
        cat(c.num_dimensions(), "d, ", c.num_elements(), " elements, size ", c.size(), " ", fern::size(c)));
    for(size_t i = 0; i < n; ++i)
        ctx.check(c.shape()[i] == d[i] && fern::size(c, i) == d[i], cat(what, " dimension"), cat("dimension ", i, " is ", c.shape()[i], " ", fern::size(c, i), ", must be ", d[i]));
}

template<class C, size_t n> void check_values(seq::Context& ctx, char const* what, C& c, Dims<n> const& d, std::function<double(size_t)> want)
{
    std::vector<double> listed;
    flatten(static_cast<C const&>(c), listed);
    ctx.check(listed.size() == count(d), cat(what, " iteration"), cat("iteration visits ", listed.size(), " elements"));
    C const& k = c;
    for(size_t i = 0; i < count(d) && i < listed.size(); ++i) {
        double w = want(i);
        ctx.check(listed[i] == w && (double)c.data()[i] == w && (double)k.data()[i] == w && (double)fern::get(c, i) == w && (double)fern::get(k, i) == w && (double)element(k, d, i) == w,
            cat(what, " value"), cat("element ", i, " is ", listed[i], " ", c.data()[i], " ", fern::get(c, i), " ", element(k, d, i), ", must be ", w));
    }
    if constexpr(n == 2) for(size_t r = 0; r < d[0]; ++r) for(size_t q = 0; q < d[1]; ++q)
        ctx.check(fern::index(c, r, q) == r * d[1] + q, cat(what, " index"), cat("index of (", r, ", ", q, ") is ", fern::index(c, r, q)));
}

template<class C, size_t n> void check_mask(seq::Context& ctx, char const* what, C& c, Dims<n> const& d, std::vector<bool> const& want)
{
    C const& k = c;
    bool any = false; for(bool b: want) any |= b;
    ctx.check(c.has_masked_values() == any, cat(what, " has masked values"), cat("has_masked_values is ", c.has_masked_values()));
    ctx.check(c.mask().num_elements() == count(d) && k.mask().num_elements() == count(d), cat(what, " mask size"), "size of the mask");
    for(size_t i = 0; i < n; ++i) ctx.check(c.mask().shape()[i] == d[i], cat(what, " mask shape"), cat("dimension ", i, " of the mask"));
    for(size_t i = 0; i < count(d); ++i)
        ctx.check(c.mask().data()[i] == want[i] && k.mask().data()[i] == want[i], cat(what, " mask"), cat("element ", i, want[i] ? " must be masked" : " must not be masked"));
    fern::Array<uint8_t, n> exported(extents_of(d), 7);
    k.mask(exported);
    for(size_t i = 0; i < count(d); ++i)
        ctx.check(exported.data()[i] == (want[i] ? 0 : 255), cat(what, " exported mask"), cat("element ", i, " of the exported mask is ", +exported.data()[i]));
}

template<size_t n> std::array<double, 2 * n> transformation() { std::array<double, 2 * n> t; for(size_t i = 0; i < 2 * n; ++i) t[i] = 0.5 + 3 * i; return t; }

template<class C, size_t n> void fill_distinct(C& c) { for(size_t i = 0; i < c.num_elements(); ++i) c.data()[i] = (typename std::remove_reference<decltype(c.data()[0])>::type)((i * 7) % 100 + 1); }
template<class T> double distinct(size_t i) { return (double)(T)((i * 7) % 100 + 1); }


template<class U, size_t n, class C> void clones(seq::Context& ctx, C& c, Dims<n> const& d)
{
    auto same = [&](char const* what, auto& k, bool filled) {
        using K = typename std::remove_reference<decltype(k)>::type;
        static_assert(is_masked_v<K> == is_masked_v<C> && has_transformation<K> == has_transformation<C>, "");
        check_shape(ctx, what, k, d);
        check_values(ctx, what, k, d, [&](size_t) { return filled ? (double)U(3) : 0.; });
        if constexpr(is_masked_v<C>) check_mask(ctx, what, k, d, std::vector<bool>(count(d), false));
        if constexpr(has_transformation<C>)
            for(size_t i = 0; i < 2 * n; ++i) ctx.check(k.transformation()[i] == c.transformation()[i], cat(what, " transformation"), cat("coefficient ", i, " of the clone is ", k.transformation()[i]));
        // Writing to the clone leaves the source alone.
        for(size_t i = 0; i < count(d); ++i) {
            fern::get(k, i) = U(77);
            if constexpr(is_masked_v<C>) k.mask().data()[i] = !k.mask().data()[i];
        }
    };
    { auto k = fern::clone<U>(c); same("clone", k, false); }
    { auto k = fern::clone<U>(c, U(3)); same("clone with value", k, true); }
}

// All that one collection must satisfy: built with value, given distinct
// values and, if it can be masked, a mask.
template<class T, size_t n, class Make> void collection(seq::Context& ctx, Dims<n> const& d, Make const& make)
{
    using C = decltype(make(T(5)));
    size_t const size = count(d);
    std::vector<bool> none(size, false), mask(size, false);
    for(size_t i = 0; i < size; ++i) mask[i] = (i * 5 + 2) % 3 == 0;

    C c = make(T(5));
    check_shape(ctx, "construction", c, d);
    check_values(ctx, "construction", c, d, [](size_t) { return (double)T(5); });
    if constexpr(is_masked_v<C>) check_mask(ctx, "construction", c, d, none);
    if constexpr(has_transformation<C>) ctx.check(c.transformation() == transformation<n>(), "transformation", "transformation of the raster");

    fill_distinct<C, n>(c);
    check_shape(ctx, "values", c, d);
    check_values(ctx, "values", c, d, distinct<T>);
    if constexpr(is_masked_v<C>) {
        check_mask(ctx, "values", c, d, none);
        for(size_t i = 0; i < size; ++i) c.mask().data()[i] = mask[i];
        check_values(ctx, "masking", c, d, distinct<T>);
        check_mask(ctx, "masking", c, d, mask);
    }

    clones<int, n>(ctx, c, d);
    clones<double, n>(ctx, c, d);
    clones<uint8_t, n>(ctx, c, d);
    check_shape(ctx, "source of the clones", c, d);
    check_values(ctx, "source of the clones", c, d, distinct<T>);
    if constexpr(is_masked_v<C>) check_mask(ctx, "source of the clones", c, d, mask);

    if constexpr(std::is_copy_constructible<C>::value) {
        C k(c);
        check_shape(ctx, "copy", k, d);
        check_values(ctx, "copy", k, d, distinct<T>);
        k.fill(T(9));
        check_values(ctx, "fill", k, d, [](size_t) { return (double)T(9); });
        check_values(ctx, "source of the copy", c, d, distinct<T>);
        if(size) k = c;
        if(size) check_values(ctx, "assignment", k, d, distinct<T>);
        if constexpr(has_transformation<C>) ctx.check(k.transformation() == c.transformation(), "transformation of the copy", "transformation of the copy");
    }

    if constexpr(has_transformation<C> && n == 2) {
        ctx.check(fern::cell_size(c, 0) == transformation<2>()[1] && fern::cell_size(c, 1) == transformation<2>()[3], "cell size", cat("cell sizes are ", fern::cell_size(c, 0), " and ", fern::cell_size(c, 1)));
        ctx.check(fern::cell_area(c) == transformation<2>()[1] * transformation<2>()[3], "cell area", cat("cell area is ", fern::cell_area(c)));
    }
    if constexpr(has_transformation<C>) {
        c.transformation()[2 * n - 1] = -8;
        auto changed = transformation<n>(); changed[2 * n - 1] = -8;
        C const& k = c;
        if constexpr(is_masked_v<C>) {
            for(size_t i = 0; i < 2 * n; ++i) { changed[i] = 11. + i; fern::set_transformation(c, i, 11. + i); }
            ctx.check(fern::data(c) == c.data(), "data", "data() is another location");
        }
        ctx.check(k.transformation() == changed, "change of the transformation", "the change of the transformation is lost");
        check_values(ctx, "change of the transformation", c, d, distinct<T>);
    }

    C m(std::move(c));
    check_shape(ctx, "move", m, d);
    check_values(ctx, "move", m, d, distinct<T>);
    if constexpr(is_masked_v<C>) check_mask(ctx, "move", m, d, mask);
    m.fill(T(2));
    check_values(ctx, "fill", m, d, [](size_t) { return (double)T(2); });
    if constexpr(is_masked_v<C>) {
        check_mask(ctx, "fill", m, d, mask);
        m.mask_all();
        check_mask(ctx, "mask all", m, d, std::vector<bool>(size, true));
    }
}

template<class T, size_t n> void collections(seq::Context& ctx, char const* type)
{
    for(auto const& d: all_dims<n>(ctx.thorough() && n < 3 ? 6 : 3)) {
        auto each = [&](char const* kind, auto const& make) {
            if(!ctx.begin()) return;
            ctx.describe(cat(kind, "<", type, "> of ", name(d), " elements"));
            collection<T, n>(ctx, d, make);
            ctx.transitions += 60;
            ctx.nontrivial(cat(kind, type, name(d)));
            ctx.outcome(count(d) == 0 ? "empty" : count(d) == 1 ? "one" : "many");
            ctx.sample(cat(kind, "<", type, "> ", name(d)));
        };
        each("Array", [&](T v) { return fern::Array<T, n>(extents_of(d), v); });
        each("MaskedArray", [&](T v) { return fern::MaskedArray<T, n>(extents_of(d), v); });
        each("Raster", [&](T v) { return fern::Raster<T, n>(extents_of(d), transformation<n>(), v); });
        each("MaskedRaster", [&](T v) { return fern::MaskedRaster<T, n>(extents_of(d), transformation<n>(), v); });
        if constexpr(n == 1) {
            each("Array (size)", [&](T v) { return fern::Array<T, 1>(d[0], v); });
            each("MaskedArray (size)", [&](T v) { return fern::MaskedArray<T, 1>(d[0], v); });
            each("Array (vector)", [&](T v) { return fern::Array<T, 1>(std::vector<T>(d[0], v)); });
            each("MaskedArray (vector)", [&](T v) { return fern::MaskedArray<T, 1>(std::vector<fern::MaskedScalar<T>>(d[0], fern::MaskedScalar<T>(v))); });
        }
        if constexpr(n == 2)
            each("Array (sizes)", [&](T v) { return fern::Array<T, 2>(d[0], d[1], v); });
    }
}

SUITE("C20", "collections of int") { collections<int, 1>(ctx, "int"); collections<int, 2>(ctx, "int"); collections<int, 3>(ctx, "int"); }
SUITE("C20", "collections of double") { collections<double, 1>(ctx, "double"); collections<double, 2>(ctx, "double"); collections<double, 3>(ctx, "double"); }
SUITE("C20", "collections of uint8") { collections<uint8_t, 1>(ctx, "uint8"); collections<uint8_t, 2>(ctx, "uint8"); collections<uint8_t, 3>(ctx, "uint8"); }

// Values and masks that are listed.
template<class T> void listed(seq::Context& ctx, char const* type)
{
    unsigned const most = ctx.thorough() ? 4 : 3;
    for(unsigned size = 0; size <= most; ++size)
        seq::tuples(size, 6, [&](std::vector<unsigned> const& t) {
            if(!ctx.begin()) return;
            std::vector<T> values(size); std::vector<bool> mask(size); std::vector<fern::MaskedScalar<T>> scalars; std::string text;
            for(unsigned i = 0; i < size; ++i) {
                values[i] = T(t[i] % 3 + 1); mask[i] = t[i] >= 3;
                scalars.push_back(mask[i] ? fern::MaskedScalar<T>(values[i], true) : fern::MaskedScalar<T>(values[i]));
                text += cat(" ", (double)values[i], mask[i] ? "*" : "");
            }
            ctx.describe(cat(type, " values (* = masked):", text));
            Dims<1> d{{size}};
            auto want = [&](size_t i) { return (double)values[i]; };
            { fern::Array<T, 1> a(values); check_shape(ctx, "Array of a vector", a, d); check_values(ctx, "Array of a vector", a, d, want); }
            { fern::MaskedArray<T, 1> a(scalars); check_shape(ctx, "MaskedArray of masked scalars", a, d); check_values(ctx, "MaskedArray of masked scalars", a, d, want); check_mask(ctx, "MaskedArray of masked scalars", a, d, mask); }
            auto lists = [&](std::initializer_list<T> const& l) {
                { fern::Array<T, 1> a(l); check_shape(ctx, "Array of a list", a, d); check_values(ctx, "Array of a list", a, d, want); }
                { fern::MaskedArray<T, 1> a(l); check_shape(ctx, "MaskedArray of a list", a, d); check_values(ctx, "MaskedArray of a list", a, d, want); check_mask(ctx, "MaskedArray of a list", a, d, std::vector<bool>(size, false)); }
            };
            auto rows = [&](std::initializer_list<std::initializer_list<T>> const& l, size_t nr_rows, size_t nr_cols) {
                Dims<2> d2{{nr_rows, nr_cols}};
                { fern::Array<T, 2> a(l); check_shape(ctx, "Array of rows", a, d2); check_values(ctx, "Array of rows", a, d2, want); }
                { fern::MaskedArray<T, 2> a(l); check_shape(ctx, "MaskedArray of rows", a, d2); check_values(ctx, "MaskedArray of rows", a, d2, want); check_mask(ctx, "MaskedArray of rows", a, d2, std::vector<bool>(size, false)); }
            };
            auto const& v = values;
            switch(size) {
                case 0: lists({}); break;
                case 1: lists({v[0]}); rows({{v[0]}}, 1, 1); break;
                case 2: lists({v[0], v[1]}); rows({{v[0], v[1]}}, 1, 2); rows({{v[0]}, {v[1]}}, 2, 1); break;
                case 3: lists({v[0], v[1], v[2]}); rows({{v[0], v[1], v[2]}}, 1, 3); rows({{v[0]}, {v[1]}, {v[2]}}, 3, 1); break;
                case 4: lists({v[0], v[1], v[2], v[3]}); rows({{v[0], v[1], v[2], v[3]}}, 1, 4); rows({{v[0], v[1]}, {v[2], v[3]}}, 2, 2); rows({{v[0]}, {v[1]}, {v[2]}, {v[3]}}, 4, 1); break;
            }
            // A reference to values that live elsewhere.
            auto refer = [&](auto&& reference, size_t nr_dimensions) {
                auto const& k = reference;
                ctx.check(k.num_dimensions() == nr_dimensions && fern::size(k) == size, "size of a reference", cat("size is ", fern::size(k)));
                size_t product = 1;
                for(size_t i = 0; i < nr_dimensions; ++i) product *= fern::size(k, i);
                ctx.check(product == size, "sizes of a reference", "sizes of the dimensions");
                for(size_t i = 0; i < size; ++i) ctx.check(fern::get(k, i) == values[i], "value of a reference", cat("element ", i, " is ", (double)fern::get(k, i)));
                for(size_t i = 0; i < size; ++i) { fern::get(reference, i) = T(9); ctx.check(values[i] == T(9), "write through a reference", cat("element ", i)); values[i] = T(t[i] % 3 + 1); }
            };
            if(size) {
                refer(fern::ArrayReference<T, 1>(values.data(), extents_of(d)), 1);
                refer(fern::ArrayReference<T, 2>(values.data(), extents_of(Dims<2>{{1, size}})), 2);
                refer(fern::ArrayReference<T, 2>(values.data(), extents_of(Dims<2>{{size, 1}})), 2);
            }
            ctx.transitions += 8;
            ctx.nontrivial(cat(type, text));
            ctx.outcome(cat(size));
        });
}

SUITE("C20", "listed values") { listed<int>(ctx, "int"); listed<double>(ctx, "double"); listed<uint8_t>(ctx, "uint8"); }

// All sequences of operations on masked arrays.
template<size_t n> void histories(seq::Context& ctx, Dims<n> const& d, unsigned depth)
{
    using A = fern::MaskedArray<int, n>;
    unsigned const size = count(d);
    struct Model { std::vector<int> v; std::vector<bool> m; };
    struct Op { std::string text; std::function<void(A&)> real; std::function<void(Model&)> model; };
    std::vector<Op> ops;
    for(unsigned i = 0; i < size; ++i) {
        for(int v: {1, 2}) ops.push_back({cat("value ", i, " = ", v), [=](A& a) { fern::get(a, i) = v; }, [=](Model& m) { m.v[i] = v; }});
        for(bool b: {false, true}) ops.push_back({cat(b ? "mask " : "unmask ", i), [=](A& a) { a.mask().data()[i] = b; }, [=](Model& m) { m.m[i] = b; }});
        ops.push_back({cat("swap value ", i), [=](A& a) { std::swap(*(a.data() + i), *a.data()); }, [=](Model& m) { std::swap(m.v[i], m.v[0]); }});
    }
    for(int v: {0, 1, 2}) {
        ops.push_back({cat("mask all ", v, "s"), [=](A& a) { a.set_mask(v); }, [=](Model& m) { for(unsigned i = 0; i < size; ++i) if(m.v[i] == v) m.m[i] = true; }});
        ops.push_back({cat("fill with ", v), [=](A& a) { a.fill(v); }, [=](Model& m) { m.v.assign(size, v); }});
    }
    for(unsigned bits = 0; bits < (1u << size); ++bits) {
        ops.push_back({cat("mask by bytes ", bits), [=](A& a) { fern::Array<uint8_t, n> o(extents_of(d)); for(unsigned i = 0; i < size; ++i) o.data()[i] = bits >> i & 1 ? 255 : 0; a.set_mask(o); }, [=](Model& m) { for(unsigned i = 0; i < size; ++i) if(!(bits >> i & 1)) m.m[i] = true; }});
        ops.push_back({cat("mask by ints ", bits), [=](A& a) { fern::Array<int, n> o(extents_of(d)); for(unsigned i = 0; i < size; ++i) o.data()[i] = bits >> i & 1 ? -4 : 7; a.set_mask(o, -4); }, [=](Model& m) { for(unsigned i = 0; i < size; ++i) if(bits >> i & 1) m.m[i] = true; }});
    }
    ops.push_back({"mask all", [](A& a) { a.mask_all(); }, [=](Model& m) { m.m.assign(size, true); }});
    ops.push_back({"unmask all", [](A& a) { a.mask().fill(false); }, [=](Model& m) { m.m.assign(size, false); }});
    for(unsigned length = 1; length <= depth; ++length)
        seq::tuples(length, ops.size(), [&](std::vector<unsigned> const& t) {
            if(!ctx.begin()) return;
            std::string text; for(auto i: t) text += (text.empty() ? "" : "; ") + ops[i].text;
            ctx.describe(cat("masked array of ", name(d), ": ", text));
            A a(extents_of(d)); Model m{std::vector<int>(size, 0), std::vector<bool>(size, false)};
            for(auto i: t) {
                ops[i].real(a); ops[i].model(m);
                ++ctx.transitions;
                check_values(ctx, "history", a, d, [&](size_t k) { return m.v[k]; });
                check_mask(ctx, "history", a, d, m.m);
            }
            uint64_t h = size; for(unsigned i = 0; i < size; ++i) h = seq::mix(h, m.v[i] * 2 + m.m[i]);
            ctx.outcome(cat(a.has_masked_values()));
            ctx.nontrivial(h);
            ctx.sample(text);
        });
}

SUITE("C20", "histories of masked arrays")
{
    unsigned const more = ctx.thorough();
    histories<1>(ctx, {{1}}, 3 + more);
    histories<1>(ctx, {{2}}, 3);
    histories<2>(ctx, {{1, 2}}, 2 + more);
    histories<2>(ctx, {{2, 1}}, 2 + more);
    histories<1>(ctx, {{3}}, 2 + more);
    histories<2>(ctx, {{2, 2}}, 2);
    if(more) histories<3>(ctx, {{1, 2, 2}}, 2);
}

// All sequences of operations on two masked scalars.
template<class T> void scalars(seq::Context& ctx, char const* type, unsigned depth)
{
    using S = fern::MaskedScalar<T>;
    struct M { T v; bool m; };
    struct Op { std::string text; std::function<void(S&, S&)> real; std::function<void(M&, M&)> model; };
    std::vector<Op> ops;
    for(int i: {0, 1, 2}) {
        T v(i);
        ops.push_back({cat("a = ", i), [=](S& a, S&) { a = v; }, [=](M& a, M&) { a = {v, false}; }});
        ops.push_back({cat("a.value() = ", i), [=](S& a, S&) { a.value() = v; }, [=](M& a, M&) { a.v = v; }});
        ops.push_back({cat("get(a) = ", i), [=](S& a, S&) { fern::get(a) = v; }, [=](M& a, M&) { a.v = v; }});
        ops.push_back({cat("(T&)a = ", i), [=](S& a, S&) { static_cast<T&>(a) = v; }, [=](M& a, M&) { a.v = v; }});
        ops.push_back({cat("b = S(", i, ", true)"), [=](S&, S& b) { b = S(v, true); }, [=](M&, M& b) { b = {v, true}; }});
        ops.push_back({cat("b = S(", i, ")"), [=](S&, S& b) { b = S(v); }, [=](M&, M& b) { b = {v, false}; }});
    }
    for(bool x: {false, true}) ops.push_back({cat("a.mask() = ", x), [=](S& a, S&) { a.mask() = x; }, [=](M& a, M&) { a.m = x; }});
    ops.push_back({"a = b", [](S& a, S& b) { a = b; }, [](M& a, M& b) { a = b; }});
    ops.push_back({"b = a", [](S& a, S& b) { b = a; }, [](M& a, M& b) { b = a; }});
    ops.push_back({"b = move(a)", [](S& a, S& b) { b = std::move(a); }, [](M& a, M& b) { b = a; }});
    ops.push_back({"a = S()", [](S& a, S&) { a = S(); }, [](M& a, M&) { a = {T(), false}; }});
    ops.push_back({"copy of a to b", [](S& a, S& b) { S c(a); b = c; }, [](M& a, M& b) { b = a; }});
    ops.push_back({"move of a to b", [](S& a, S& b) { S c(a); S e(std::move(c)); b = std::move(e); }, [](M& a, M& b) { b = a; }});
    for(unsigned length = 1; length <= depth; ++length)
        seq::tuples(length, ops.size(), [&](std::vector<unsigned> const& t) {
            if(!ctx.begin()) return;
            std::string text; for(auto i: t) text += (text.empty() ? "" : "; ") + ops[i].text;
            ctx.describe(cat("masked scalars of ", type, ": ", text));
            S a, b(T(2), true); M x{T(), false}, y{T(2), true};
            for(auto i: t) {
                ops[i].real(a, b); ops[i].model(x, y);
                ++ctx.transitions;
                auto same = [&](char const* what, S const& s, M const& m) {
                    S copy(s);
                    ctx.check(s.value() == m.v && fern::get(s) == m.v && static_cast<T const&>(s) == m.v && copy.value() == m.v && fern::get(copy) == m.v, "value", cat(what, " is ", (double)s.value(), ", must be ", (double)m.v));
                    ctx.check(s.mask() == m.m && copy.mask() == m.m, "mask", cat(what, m.m ? " must be masked" : " must not be masked"));
                    ctx.check(s == copy, "equal to its copy", what);
                };
                same("a", a, x); same("b", b, y);
                ctx.check((a == b) == (x.v == y.v && x.m == y.m), "equality", cat("a == b is ", a == b));
            }
            ctx.outcome(cat(a == b));
            ctx.nontrivial(seq::mix(seq::mix((uint64_t)(x.v * 2 + x.m), (uint64_t)(y.v * 2 + y.m)), 1));
        });
}

SUITE("C20", "histories of masked scalars") { scalars<int>(ctx, "int", ctx.thorough() ? 4 : 3); scalars<double>(ctx, "double", 2); scalars<uint8_t>(ctx, "uint8", 2); }

} // namespace
