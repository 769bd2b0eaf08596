// if, cover, clamp, compress, decompress, offset, copy, combining no-data.
#include "parallel.h"
#include "fern/core/data_customization_point/vector.h"
#include "fern/core/point.h"
#include "fern/algorithm/core/clamp.h"
#include "fern/algorithm/core/compress.h"
#include "fern/algorithm/core/copy.h"
#include "fern/algorithm/core/cover.h"
#include "fern/algorithm/core/decompress.h"
#include "fern/algorithm/core/if.h"
#include "fern/algorithm/core/intersect_no_data.h"
#include "fern/algorithm/core/merge_no_data.h"
#include "fern/algorithm/core/offset.h"
#include "fern/algorithm/core/unite_no_data.h"

namespace par {
namespace {

unsigned mask_of(int rank, unsigned mask) { return rank ? mask : 0; }

// A condition: an integer, as in a combination with values.
template<int r> auto flags(Shape const& s, unsigned mask)
{
    auto c = make<int, r>(s, 0, mask);
    for(size_t i = 0; i < count_of(c); ++i) at(c, i) = i % 3 == 0;
    return c;
}

template<int r, int rc, int rt, int rf> void if_else()
{
    add("if-" + std::to_string(rc) + std::to_string(rt) + std::to_string(rf), r, [](auto& policy, Shape const& s, unsigned mask) {
        auto c = flags<rc>(s, mask_of(rc, mask >> 3)); auto t = make<int, rt>(s, 3, mask_of(rt, mask)); auto f = make<int, rf>(s, 8, mask_of(rf, mask >> 1));
        auto result = blank<int, r>(s);
        fa::InputNoDataPolicies<Detect<decltype(c)>, Detect<decltype(t)>, Detect<decltype(f)>> in{{c.mask(), true}, {t.mask(), true}, {f.mask(), true}};
        Mark<decltype(result)> out(result.mask(), true);
        fa::core::if_(in, out, policy, c, t, f, result);
        return raw(result);
    }, rc && rt && rf);
}

template<int r, int rc, int rt> void if_then()
{
    add("if-" + std::to_string(rc) + std::to_string(rt), r, [](auto& policy, Shape const& s, unsigned mask) {
        auto c = flags<rc>(s, mask_of(rc, mask >> 3)); auto t = make<int, rt>(s, 3, mask_of(rt, mask));
        auto result = blank<int, r>(s);
        fa::InputNoDataPolicies<Detect<decltype(c)>, Detect<decltype(t)>> in{{c.mask(), true}, {t.mask(), true}};
        Mark<decltype(result)> out(result.mask(), true);
        fa::core::if_(in, out, policy, c, t, result);
        return raw(result);
    }, rc && rt);
}

template<int r, int r1, int r2_> void cover()
{
    add("cover-" + std::to_string(r1) + std::to_string(r2_), r, [](auto& policy, Shape const& s, unsigned mask) {
        auto a = make<int, r1>(s, 3, mask); auto b = make<int, r2_>(s, 8, mask_of(r2_, mask >> 1));
        auto result = blank<int, r>(s);
        fa::InputNoDataPolicies<Detect<decltype(a)>, Detect<decltype(b)>> in{{a.mask(), true}, {b.mask(), true}};
        Mark<decltype(result)> out(result.mask(), true);
        fa::core::cover(in, out, policy, a, b, result);
        return raw(result);
    });
}

template<int r, int rl, int ru> void clamp()
{
    add("clamp-" + std::to_string(rl) + std::to_string(ru), r, [](auto& policy, Shape const& s, unsigned mask) {
        auto v = make<int, r>(s, 3, mask); auto l = make<int, rl>(s, 0, 0); auto u = make<int, ru>(s, 0, 0);
        for(size_t i = 0; i < count_of(l); ++i) at(l, i) = rl ? 2 + (int)(i % 3) : 3;
        for(size_t i = 0; i < count_of(u); ++i) at(u, i) = 6 + (int)(i % 2);
        auto result = blank<int, r>(s);
        fa::InputNoDataPolicies<Detect<decltype(v)>, Detect<decltype(l)>, Detect<decltype(u)>> in{{v.mask(), true}, {l.mask(), true}, {u.mask(), true}};
        Mark<decltype(result)> out(result.mask(), true);
        fa::core::clamp(in, out, policy, v, l, u, result);
        return raw(result);
    });
}

template<int r> void compress()
{
    add("compress", r, [](auto& policy, Shape const& s, unsigned mask) {
        auto v = make<int, r>(s, 3, mask);
        std::vector<int> compressed(count_of(v), 77); size_t count = 99;
        fa::InputNoDataPolicies<Detect<decltype(v)>> in{{v.mask(), true}};
        fa::core::compress(in, policy, v, compressed, count);
        std::string text = std::to_string(count) + ":";
        for(size_t i = 0; i < std::min(count, compressed.size()); ++i) text += " " + std::to_string(compressed[i]);
        return text;
    });
    add("compress-all", r, [](auto& policy, Shape const& s, unsigned) {
        auto v = make<int, r>(s, 3, 0);
        std::vector<int> compressed(count_of(v), 77); size_t count = 99;
        fa::core::compress(policy, v, compressed, count);
        std::string text = std::to_string(count) + ":";
        for(size_t i = 0; i < std::min(count, compressed.size()); ++i) text += " " + std::to_string(compressed[i]);
        return text;
    }, false);
    add("decompress", r, [](auto& policy, Shape const& s, unsigned mask) {
        auto result = blank<int, r>(s);
        auto no_data = make<int, r>(s, 0, mask);
        std::vector<int> compressed;
        for(size_t i = 0; i < count_of(no_data); ++i) if(!mask_at(no_data, i)) compressed.push_back((int)i + 10);
        fa::InputNoDataPolicies<Detect<decltype(result)>> in{{no_data.mask(), true}};
        Mark<decltype(result)> out(result.mask(), true);
        fa::core::decompress(in, out, policy, compressed, result);
        return raw(result);
    }, false);
}

template<int r> void offset()
{
    using P = fern::Point<int, r>;
    auto offsets = [](int k) { std::vector<P> v; 
        if constexpr(r == 1) v = {P{0}, P{1}, P{-2}, P{100}};
        else v = {P{0, 0}, P{1, 0}, P{0, -1}, P{-1, 2}, P{2, 1}, P{0, 50}, P{-50, 0}};
        (void)k; return v; };
    add("offset", r, [=](auto& policy, Shape const& s, unsigned mask) {
        std::string text;
        for(auto const& p: offsets(0)) {
            auto v = make<int, r>(s, 3, mask);
            auto result = blank<int, r>(s);
            fa::InputNoDataPolicies<Detect<decltype(v)>> in{{v.mask(), true}};
            Mark<decltype(result)> out(result.mask(), true);
            fa::core::offset(in, out, policy, v, p, result);
            text += raw(result) + "|";
        }
        return text;
    }, false);
    add("offset-fill", r, [=](auto& policy, Shape const& s, unsigned mask) {
        std::string text;
        for(auto const& p: offsets(0)) {
            auto v = make<int, r>(s, 3, mask);
            auto result = blank<int, r>(s);
            fa::InputNoDataPolicies<Detect<decltype(v)>> in{{v.mask(), true}};
            Mark<decltype(result)> out(result.mask(), true);
            fa::core::offset(in, out, policy, v, p, 5, result);
            text += raw(result) + "|";
        }
        return text;
    }, false);
    add("offset-one", r, [=](auto& policy, Shape const& s, unsigned mask) {
        auto v = make<int, r>(s, 3, mask);
        auto result = blank<int, r>(s);
        fa::InputNoDataPolicies<Detect<decltype(v)>> in{{v.mask(), true}};
        Mark<decltype(result)> out(result.mask(), true);
        fa::core::offset(in, out, policy, v, offsets(0)[1], result);
        return raw(result);
    });
}

template<int r> void no_data()
{
    add("unite", r, [](auto& policy, Shape const& s, unsigned mask) {
        auto a = make<int, r>(s, 3, mask); auto b = make<int, r>(s, 8, mask >> 2);
        auto result = blank<int, r>(s);
        fa::InputNoDataPolicies<Detect<decltype(a)>, Detect<decltype(b)>> in{{a.mask(), true}, {b.mask(), true}};
        Mark<decltype(result)> out(result.mask(), true);
        fa::core::unite_no_data(in, out, policy, a, b, result);
        return raw(result);
    });
    add("intersect", r, [](auto& policy, Shape const& s, unsigned mask) {
        auto a = make<int, r>(s, 3, mask); auto b = make<int, r>(s, 8, mask >> 2);
        auto result = blank<int, r>(s);
        fa::InputNoDataPolicies<Detect<decltype(a)>, Detect<decltype(b)>> in{{a.mask(), true}, {b.mask(), true}};
        Mark<decltype(result)> out(result.mask(), true);
        fa::core::intersect_no_data(in, out, policy, a, b, result);
        return raw(result);
    });
    add("merge", r, [](auto& policy, Shape const& s, unsigned mask) {
        auto a = make<int, r>(s, 3, mask);
        auto result = blank<int, r>(s);
        fa::InputNoDataPolicies<Detect<decltype(a)>> in{{a.mask(), true}};
        Mark<decltype(result)> out(result.mask(), true);
        fa::core::merge_no_data(in, out, policy, a, result);
        return raw(result);
    });
}

void copy()
{
    add("copy", 1, [](auto& policy, Shape const& s, unsigned mask) {
        std::string text;
        size_t n = s.cols;
        for(size_t begin = 0; begin <= n; begin += 2) for(size_t end = begin; end <= n; ++end) for(size_t position = 0; position + (end - begin) <= n; position += 3) {
            auto v = make<int, 1>(s, 3, mask);
            auto result = blank<int, 1>(s);
            fa::InputNoDataPolicies<D1> in{{v.mask(), true}};
            O1 out(result.mask(), true);
            fa::IndexRanges<1> range{fa::IndexRange(begin, end)};
            fa::core::copy(in, out, policy, v, range, result, fern::Point<size_t, 1>{position});
            text += raw(result) + "|";
        }
        return text;
    }, false);
    add("copy-one", 1, [](auto& policy, Shape const& s, unsigned mask) {
        auto v = make<int, 1>(s, 3, mask);
        auto result = blank<int, 1>(s);
        fa::InputNoDataPolicies<D1> in{{v.mask(), true}};
        O1 out(result.mask(), true);
        fa::IndexRanges<1> range{fa::IndexRange(0, s.cols)};
        fa::core::copy(in, out, policy, v, range, result, fern::Point<size_t, 1>{size_t(0)});
        return raw(result);
    });
}

struct Register
{
    Register()
    {
        if_else<1, 1, 1, 1>(); if_else<1, 1, 0, 1>(); if_else<1, 1, 1, 0>(); if_else<1, 1, 0, 0>(); 
        if_else<2, 2, 2, 2>(); if_else<2, 0, 2, 2>(); if_else<2, 2, 0, 2>(); if_else<2, 2, 2, 0>(); if_else<2, 2, 0, 0>(); if_else<2, 0, 2, 0>(); if_else<2, 0, 0, 2>();
        if_then<2, 2, 2>(); if_then<2, 0, 2>(); if_then<2, 2, 0>();
        cover<2, 2, 2>(); cover<2, 2, 0>();
        clamp<1, 1, 1>(); clamp<1, 1, 0>(); clamp<1, 0, 1>(); clamp<2, 2, 2>(); clamp<2, 2, 0>(); clamp<2, 0, 2>();
        compress<1>(); compress<2>();
        offset<1>(); offset<2>();
        no_data<2>();
        copy();
    }
} register_;

} // namespace
} // namespace par
