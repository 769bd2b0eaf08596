// The no-data policies by themselves.
#define SEQ_MAIN
#include "no_data.h"

// ------------------------------------------------------- the policies alone

namespace {

template<class T> std::vector<T> values()
{
    std::vector<T> r;
    if constexpr(std::is_integral<T>::value && sizeof(T) <= 2) for(long long v = std::numeric_limits<T>::min(); v <= std::numeric_limits<T>::max(); ++v) r.push_back((T)v);
    else {
        using L = std::numeric_limits<T>;
        for(T v: {T(0), T(1), T(2), T(100), L::max(), T(L::max() - 1), L::lowest(), T(L::lowest() + 1), L::min(), T(L::min() + 1), T(L::max() / 2), T(-1)}) r.push_back(v);
        if constexpr(std::is_floating_point<T>::value) {
            for(T v: {L::denorm_min(), -L::min(), L::infinity(), -L::infinity(), L::quiet_NaN(), std::nextafter(L::min(), T(0)), std::nextafter(L::min(), T(1)), L::epsilon(), T(-0.0)}) r.push_back(v);
        }
    }
    return r;
}

// A collection that is indexed by as many indices as it has dimensions.
template<class T, size_t rank> struct Grid
{
    using value_type = T;
    using reference = T&;
    using const_reference = T const&;
    std::array<size_t, rank> extents;
    std::vector<T> v;
    Grid(std::array<size_t, rank> e): extents(e) { size_t n = 1; for(auto i: e) n *= i; v.resize(n); }
    T* data() { return v.data(); }
    size_t num_elements() const { return v.size(); }
    template<class... I> size_t index(I... i) const { size_t r = 0, d = 0; ((r = r * extents[d++] + i), ...); return r; }
};
template<class T, size_t rank> T const& at_(Grid<T, rank> const& g, size_t i) { if(i >= g.v.size()) throw std::out_of_range("index"); return g.v[i]; }
#define GET(ARGUMENTS, INDEX) \
template<class T, size_t rank> T const& get(Grid<T, rank> const& g, ARGUMENTS) { return at_(g, INDEX); } \
template<class T, size_t rank> T& get(Grid<T, rank>& g, ARGUMENTS) { return const_cast<T&>(at_(g, INDEX)); }
#define COMMA ,
GET(size_t i, i)
GET(size_t i COMMA size_t j, g.index(i COMMA j))
GET(size_t i COMMA size_t j COMMA size_t k, g.index(i COMMA j COMMA k))
#undef GET
#undef COMMA

#define CHECK(OK, KEY, TEXT) do { if(OK) ++ctx.evaluations; else ctx.check(false, KEY, cat(type, " value ", v, ": ", TEXT)); } while(0)

template<class T> void detect_values(seq::Context& ctx, char const* type)
{
    using fa::DetectNoData; using fa::DetectNoDataByValue;
    using A1 = fern::Array<T, 1>; using A2 = Grid<T, 2>; using A3 = Grid<T, 3>;
    auto const all = values<T>();
    T const marker = ByType<T, 0>::marker();
    if(ctx.begin()) {
        ctx.describe(cat("the marker of ", type));
        ctx.nontrivial(type);
        ctx.check(fern::no_data_value<T>() == marker, "marker of type", cat("is ", fern::no_data_value<T>()));
    }
    for(auto v: all) {
        if(!ctx.begin()) continue;
        ctx.describe(type); ctx.nontrivial(seq::mix(seq::hash(type), (uint64_t)ctx.index));
        bool is = v == marker;
        T w = v;
        A1 a1(fern::extents[3]); A2 a2({2, 2}); A3 a3({2, 1, 3});
        for(size_t i = 0; i < 3; ++i) a1.data()[i] = marker;
        for(size_t i = 0; i < 4; ++i) a2.data()[i] = marker;
        for(size_t i = 0; i < 6; ++i) a3.data()[i] = marker;
        a1[1] = v; a2.v[2] = v; a3.v[5] = v;
        std::vector<T> vec{marker, v, marker};
        DetectNoData<T> p0(w); DetectNoData<A1> p1(a1); DetectNoData<A2> p2(a2); DetectNoData<A3> p3(a3); DetectNoData<std::vector<T>> pv(vec);
        CHECK(fern::is_no_data(v) == is, "is_no_data", cat("must be ", is));
        CHECK(p0.is_no_data() == is && p1.is_no_data(1) == is && p2.is_no_data(1, 0) == is && p2.is_no_data(2) == is && p3.is_no_data(1, 0, 2) == is && p3.is_no_data(5) == is && pv.is_no_data(1) == is,
                "detected by type", cat("must be ", is));
        CHECK(p1.is_no_data(0) && p1.is_no_data(2) && p2.is_no_data(0, 0) && p2.is_no_data(0, 1) && p2.is_no_data(1, 1) && p3.is_no_data(0, 0, 0) && p3.is_no_data(0, 0, 2) && p3.is_no_data(1, 0, 0) && pv.is_no_data(0) && pv.is_no_data(2),
                "others detected by type", "hold the marker");
        // Any other marker.
        for(auto m: {T(0), T(7), marker, v, T(v + 1)}) {
            if(m != m) continue;
            bool is = v == m;
            T x = v; for(size_t i = 0; i < 6; ++i) a3.data()[i] = m; for(size_t i = 0; i < 4; ++i) a2.data()[i] = m; for(size_t i = 0; i < 3; ++i) { a1.data()[i] = m; vec[i] = m; }
            a1[1] = v; a2.v[2] = v; a3.v[5] = v; vec[1] = v;
            DetectNoDataByValue<T> q0(x, m); DetectNoDataByValue<A1> q1(a1, m); DetectNoDataByValue<A2> q2(a2, m); DetectNoDataByValue<A3> q3(a3, m); DetectNoDataByValue<std::vector<T>> qv(vec, m);
            CHECK(q0.is_no_data() == is && q1.is_no_data(1) == is && q2.is_no_data(1, 0) == is && q2.is_no_data(2) == is && q3.is_no_data(1, 0, 2) == is && q3.is_no_data(5) == is && qv.is_no_data(1) == is,
                "detected by value", cat("marker ", m, ", must be ", is));
            CHECK(q1.is_no_data(0) && q1.is_no_data(2) && q2.is_no_data(0, 1) && q2.is_no_data(1, 1) && q3.is_no_data(0, 0, 2) && q3.is_no_data(1, 0, 0) && qv.is_no_data(2),
                "others detected by value", cat("marker ", m));
        }
    }
    // Marking: the element, and no other; only then.
    for(int way = 0; way < 2; ++way) for(unsigned set = 0; set < 64; ++set) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("mark ", type, way ? " by value, elements " : " by type, elements ", set)); ctx.nontrivial(cat(type, way, "/", set));
        T const m = way ? T(9) : marker;
        auto each = [&](auto& c, auto mark, auto mark_linear) {
            for(int linear = 0; linear < 2; ++linear) {
                for(size_t i = 0; i < c.num_elements(); ++i) c.data()[i] = (T)(i + 20);
                for(size_t i = 0; i < c.num_elements(); ++i) if((set >> i) & 1) { if(linear) mark_linear(i); else mark(i); }
                for(size_t i = 0; i < c.num_elements(); ++i)
                    ctx.check(c.data()[i] == ((set >> i) & 1 ? m : (T)(i + 20)), cat("marked ", way ? "by value" : "by type"), cat("element ", i, " of ", c.num_elements()));
            }
        };
        A1 a1(fern::extents[6]); A2 a2({2, 3}); A3 a3({1, 3, 2}); T x = T(20); std::vector<T> vec{T(20), T(21), T(22)};
        auto with = [&](auto& p0, auto& p1, auto& p2, auto& p3, auto& pv) {
            each(a1, [&](size_t i) { p1.mark_as_no_data(i); }, [&](size_t i) { p1.mark_as_no_data(i); });
            each(a2, [&](size_t i) { p2.mark_as_no_data(i / 3, i % 3); }, [&](size_t i) { p2.mark_as_no_data(i); });
            each(a3, [&](size_t i) { p3.mark_as_no_data(0, i / 2, i % 2); }, [&](size_t i) { p3.mark_as_no_data(i); });
            if(set & 1) { p0.mark_as_no_data(); pv.mark_as_no_data(1); }
            ctx.check(x == (set & 1 ? m : T(20)) && vec[0] == T(20) && vec[1] == (set & 1 ? m : T(21)) && vec[2] == T(22), "marked scalar or vector", "the element, and no other");
        };
        if(way) {
            fa::MarkNoDataByValue<T> p0(x, m); fa::MarkNoDataByValue<A1> p1(a1, m); fa::MarkNoDataByValue<A2> p2(a2, m); fa::MarkNoDataByValue<A3> p3(a3, m); fa::MarkNoDataByValue<std::vector<T>> pv(vec, m);
            with(p0, p1, p2, p3, pv);
        }
        else {
            fa::MarkNoData<T> p0(x); fa::MarkNoData<A1> p1(a1); fa::MarkNoData<A2> p2(a2); fa::MarkNoData<A3> p3(a3); fa::MarkNoData<std::vector<T>> pv(vec);
            with(p0, p1, p2, p3, pv);
        }
    }
}

struct Collected: fa::CollectNoDataIndices<std::vector<size_t>> {};

} // namespace

SUITE("C21", "values")
{
    detect_values<int8_t>(ctx, "int8"); detect_values<uint8_t>(ctx, "uint8");
    detect_values<int16_t>(ctx, "int16"); detect_values<uint16_t>(ctx, "uint16");
    detect_values<int32_t>(ctx, "int32"); detect_values<uint32_t>(ctx, "uint32"); detect_values<int64_t>(ctx, "int64"); detect_values<uint64_t>(ctx, "uint64");
    detect_values<float>(ctx, "float32"); detect_values<double>(ctx, "float64");
}

SUITE("C21", "constant-policies")
{
    // Those which look at nothing, and the one that collects.
    for(size_t i = 0; i < 3; ++i) for(size_t j = 0; j < 3; ++j) for(size_t k = 0; k < 3; ++k) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("index ", i, " ", j, " ", k)); ctx.nontrivial(cat(i, j, k));
        ctx.check(fa::AllNoData::is_no_data() && fa::AllNoData::is_no_data(i) && fa::AllNoData::is_no_data(i, j) && fa::AllNoData::is_no_data(i, j, k), "all", "everything is no-data");
        ctx.check(!fa::SkipNoData::is_no_data() && !fa::SkipNoData::is_no_data(i) && !fa::SkipNoData::is_no_data(i, j) && !fa::SkipNoData::is_no_data(i, j, k), "none", "nothing is no-data");
        Collected c; c.mark(i); c.mark(j); c.mark(k);
        ctx.check(c.indices() == std::vector<size_t>{i, j, k}, "collected", "the indices marked, in order");
        // Mask without a marker given: true marks.
        fern::Array<bool, 2> mask(fern::extents[3][3]); for(size_t n = 0; n < 9; ++n) mask.data()[n] = false;
        fa::MarkNoDataByValue<fern::Array<bool, 2>> mark(mask); fa::DetectNoDataByValue<fern::Array<bool, 2>> detect(mask);
        mark.mark_as_no_data(i * 3 + j);
        for(size_t n = 0; n < 9; ++n)
            ctx.check(mask.data()[n] == (n == i * 3 + j) && detect.is_no_data(n) == mask.data()[n], "mask", "marks by true");
    }
}
