// Data types, value types, and expression types against sets.
#define SEQ_MAIN
#include "seq.h"
#include <cassert>
#include <limits>
#include <sstream>
#include "fern/core/data_types.h"
#include "fern/core/expression_type.h"
#include "fern/core/type_traits.h"
#include "fern/core/value_type_traits.h"
#include "fern/core/value_types.h"
#include "fern/language/operation/core/expression_types.h"

using seq::cat;
using S = std::string;
using fern::DataTypes;
using fern::ValueTypes;
using fern::ExpressionType;
using fern::language::ExpressionTypes;

namespace {

struct Data
{
    using Flags = DataTypes;
    static std::vector<std::pair<S, Flags>> singles() { return {{"Constant", Flags::CONSTANT}, {"StaticField", Flags::STATIC_FIELD}}; }
};

struct Value
{
    using Flags = ValueTypes;
    static std::vector<std::pair<S, Flags>> singles() { return {{"Bool", Flags::BOOL}, {"Char", Flags::CHAR}, {"Uint8", Flags::UINT8}, {"Int8", Flags::INT8}, {"Uint16", Flags::UINT16}, {"Int16", Flags::INT16}, {"Uint32", Flags::UINT32}, {"Int32", Flags::INT32}, {"Uint64", Flags::UINT64}, {"Int64", Flags::INT64}, {"Float32", Flags::FLOAT32}, {"Float64", Flags::FLOAT64}, {"String", Flags::STRING}}; }
};

unsigned bits_of(int n) { return __builtin_popcount(n); }

template<class K> typename K::Flags make(unsigned bits)
{
    typename K::Flags r;
    auto singles = K::singles();
    for(unsigned i = 0; i < singles.size(); ++i) if(bits >> i & 1) r |= singles[i].second;
    return r;
}

template<class K> S text(unsigned bits)
{
    S r; auto singles = K::singles();
    for(unsigned i = 0; i < singles.size(); ++i) if(bits >> i & 1) r += (r.empty() ? "" : "|") + singles[i].first;
    return r.empty() ? "?" : r;
}

// The flags of a collection.
template<class K> unsigned bits(typename K::Flags const& f) { unsigned r = 0; for(unsigned i = 0; i < K::singles().size(); ++i) r |= (unsigned)f.test(i) << i; return r; }

template<class K> void flags(seq::Context& ctx, char const* what)
{
    using F = typename K::Flags;
    auto singles = K::singles();
    unsigned const n = singles.size(), all = (1u << n) - 1;
    std::vector<F> sets; std::vector<S> texts;
    for(unsigned b = 0; b <= all; ++b) { sets.push_back(make<K>(b)); texts.push_back(text<K>(b)); }
    // To pair with all sets: small sets, large sets and runs.
    std::vector<unsigned> others;
    for(unsigned b = 0; b <= all; ++b) {
        unsigned c = bits_of(b), low = b ? b & -b : 1;
        bool run = b && ((b / low + 1) & (b / low)) == 0;
        if(ctx.thorough() ? c <= 3 || c + 3 >= n || run : c <= 2 || c + 1 >= n || run) others.push_back(b);
    }
    for(unsigned b = 0; b <= all; ++b) {
        if(!ctx.begin()) continue;
        ctx.describe(cat(what, " ", texts[b]));
        F const& f = sets[b];
        ctx.check(bits<K>(f) == b, "test", cat("flags ", bits<K>(f)));
        ctx.check(f.count() == bits_of(b) && f.any() == (b != 0) && f.none() == (b == 0) && f.fixed() == (bits_of(b) == 1), "count", cat("count ", f.count(), f.any() ? " any" : "", f.none() ? " none" : "", f.fixed() ? " fixed" : ""));
        ctx.check(f.to_string() == texts[b], "to string", f.to_string());
        std::ostringstream stream; stream << f;
        ctx.check(stream.str() == texts[b], "stream", stream.str());
        for(unsigned o: others) {
            F const& g = sets[o];
            auto is = [&](char const* op, F const& r, unsigned want) { ctx.check((r == sets[want]) && bits<K>(r) == want && r.count() == bits_of(want), op, cat("with ", texts[o], ": ", r.to_string(), ", must be ", texts[want])); };
            is("or", f | g, b | o);
            is("and", f & g, b & o);
            F x(f), y(f), z(f);
            F &rx = x |= g, &ry = y &= g, &rz = z ^= g;
            ctx.check(&rx == &x && &ry == &y && &rz == &z, "assignment", "does not return its left hand side");
            is("or assignment", x, b | o);
            is("and assignment", y, b & o);
            is("exclusive or assignment", z, b ^ o);
            ctx.check((f == g) == (b == o) && (f != g) == (b != o), "equality", cat("with ", texts[o]));
            ctx.check(f.is_subset_of(g) == (b && (b & ~o) == 0) && g.is_subset_of(f) == (o && (o & ~b) == 0), "subset", cat("with ", texts[o], ": ", f.is_subset_of(g), " ", g.is_subset_of(f)));
            ++ctx.transitions;
        }
        ctx.check(bits<K>(f) == b, "unchanged", "an operation changed its argument");
        ctx.outcome(cat(bits_of(b)));
        ctx.nontrivial(cat(what, b));
        ctx.sample(texts[b]);
    }
}

SUITE("C25", "data types") { flags<Data>(ctx, "data types"); }
SUITE("C25", "value types") { flags<Value>(ctx, "value types"); }

SUITE("C25", "names")
{
    auto named = [&](S const& name, auto const& got, auto const& want) {
        if(!ctx.begin()) return;
        ctx.describe(cat("name ", name));
        ctx.check(got == want, "named types", cat("are ", got.to_string(), ", must be ", want.to_string()));
        ctx.outcome(got.fixed() ? "one" : "more");
        ctx.nontrivial(name);
        ++ctx.transitions;
    };
    for(auto const& s: Data::singles()) { named(s.first, DataTypes::from_string(s.first), s.second); named(s.first, DataTypes::from_string(s.second.to_string()), s.second); }
    named("All", DataTypes::from_string("All"), make<Data>(3));
    named("ALL", DataTypes::ALL, make<Data>(3));
    named("UNKNOWN", DataTypes::UNKNOWN, make<Data>(0));
    for(auto const& s: Value::singles()) { named(s.first, ValueTypes::from_string(s.first), s.second); named(s.first, ValueTypes::from_string(s.second.to_string()), s.second); }
    unsigned const is_unsigned = 1 << 2 | 1 << 4 | 1 << 6 | 1 << 8, is_signed = 1 << 3 | 1 << 5 | 1 << 7 | 1 << 9, is_float = 1 << 10 | 1 << 11;
    named("Size", ValueTypes::from_string("Size"), make<Value>(1 << 8));
    named("Number", ValueTypes::from_string("Number"), make<Value>(is_unsigned | is_signed | is_float));
    named("All", ValueTypes::from_string("All"), make<Value>((1 << 13) - 1));
    named("UNKNOWN", ValueTypes::UNKNOWN, make<Value>(0));
    named("UNSIGNED_INTEGER", ValueTypes::UNSIGNED_INTEGER, make<Value>(is_unsigned));
    named("SIGNED_INTEGER", ValueTypes::SIGNED_INTEGER, make<Value>(is_signed));
    named("INTEGER", ValueTypes::INTEGER, make<Value>(is_signed | is_unsigned));
    named("SIZE", ValueTypes::SIZE, make<Value>(1 << 8));
    named("FLOATING_POINT", ValueTypes::FLOATING_POINT, make<Value>(is_float));
    named("NUMBER", ValueTypes::NUMBER, make<Value>(is_unsigned | is_signed | is_float));
    named("ALL", ValueTypes::ALL, make<Value>((1 << 13) - 1));
}

template<class T, fern::ValueType v> void traits(seq::Context& ctx, S const& name, bool no_data_is_max)
{
    if(!ctx.begin()) return;
    ctx.describe(cat("type ", name));
    using Tr = fern::TypeTraits<T>;
    auto single = Value::singles()[v].second;
    ctx.check(Tr::value_type == v && Tr::value_types == single, "value type", cat(Tr::value_type, " ", Tr::value_types.to_string()));
    ctx.check(Tr::name == name, "name", Tr::name);
    ctx.check(std::is_same<typename fern::ValueTypeTraits<v>::type, T>::value, "type of the value type", "another type");
    ctx.check(Tr::value_types.test(v) && Tr::value_types.count() == 1, "flag", "flag of the value type");
    if constexpr(std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value) {
        using L = std::numeric_limits<T>;
        ctx.check(Tr::min() == L::min() && Tr::max() == L::max(), "limits", cat(+Tr::min(), " ", +Tr::max()));
        ctx.check(Tr::no_data_value() == (no_data_is_max ? L::max() : L::min()), "no-data value", cat(+Tr::no_data_value()));
    }
    ctx.transitions += 4;
    ctx.nontrivial(name);
    ctx.outcome(std::is_integral<T>::value ? "integral" : "other");
}

SUITE("C25", "traits")
{
    using namespace fern;
    traits<bool, VT_BOOL>(ctx, "bool", false);
    traits<char, VT_CHAR>(ctx, "char", false);
    traits<uint8_t, VT_UINT8>(ctx, "uint8", true);
    traits<int8_t, VT_INT8>(ctx, "int8", false);
    traits<uint16_t, VT_UINT16>(ctx, "uint16", true);
    traits<int16_t, VT_INT16>(ctx, "int16", false);
    traits<uint32_t, VT_UINT32>(ctx, "uint32", true);
    traits<int32_t, VT_INT32>(ctx, "int32", false);
    traits<uint64_t, VT_UINT64>(ctx, "uint64", true);
    traits<int64_t, VT_INT64>(ctx, "int64", false);
    traits<float, VT_FLOAT32>(ctx, "float32", false);
    traits<double, VT_FLOAT64>(ctx, "float64", false);
    traits<std::string, VT_STRING>(ctx, "string", false);
}

struct E { unsigned d, v; };
ExpressionType make(E const& e) { return e.d == 0 && e.v == 0 ? ExpressionType() : ExpressionType(make<Data>(e.d), make<Value>(e.v)); }
S text(E const& e) { return text<Data>(e.d) + "/" + text<Value>(e.v); }
bool satisfies(E const& formal, E const& actual) { return actual.d && !(actual.d & ~formal.d) && actual.v && !(actual.v & ~formal.v); }
bool fixed(E const& e) { return bits_of(e.d) == 1 && bits_of(e.v) == 1; }

std::vector<E> expression_types(std::vector<unsigned> const& values)
{
    std::vector<E> r{{0, 0}};
    for(unsigned d = 1; d <= 3; ++d) for(unsigned v: values) r.push_back({d, v});
    return r;
}

SUITE("C25", "expression types")
{
    std::vector<unsigned> values;
    for(unsigned b = 1; b < (1u << 13); ++b) if(bits_of(b) == 1 || (b & 7) == b || bits_of(b) >= 12 || (ctx.thorough() && bits_of(b) == 2)) values.push_back(b);
    auto types = expression_types(values);
    for(auto const& a: types) {
        if(!ctx.begin()) continue;
        ctx.describe(text(a));
        auto x = make(a);
        ctx.check(x.data_type() == make<Data>(a.d) && x.value_type() == make<Value>(a.v), "parts", cat(x.data_type().to_string(), " ", x.value_type().to_string()));
        ctx.check(x.defined() == (a.d && a.v) && x.fixed() == fixed(a), "defined and fixed", cat(x.defined(), " ", x.fixed()));
        std::ostringstream stream; stream << x;
        ctx.check(stream.str() == text(a), "stream", stream.str());
        for(auto const& b: types) {
            auto y = make(b);
            ctx.check(x.is_satisfied_by(y) == satisfies(a, b), "satisfied", cat("by ", text(b), ": ", x.is_satisfied_by(y)));
            bool equal = a.d == b.d && a.v == b.v;
            ctx.check((x == y) == equal && (x != y) == !equal, "equality", cat("with ", text(b)));
            ctx.outcome(satisfies(a, b) ? "satisfied" : "not satisfied");
            ++ctx.transitions;
        }
        ctx.nontrivial(text(a));
    }
}

SUITE("C25", "lists of expression types")
{
    auto types = expression_types({1, 8, 8 | 128, (1 << 13) - 1});
    std::vector<std::vector<E>> lists;
    for(unsigned n = 0; n <= 2; ++n) seq::tuples(n, types.size(), [&](std::vector<unsigned> const& t) { std::vector<E> l; for(auto i: t) l.push_back(types[i]); lists.push_back(l); });
    if(ctx.thorough()) for(auto const& t: types) lists.push_back({types[1], t, types[5]});
    auto build = [](std::vector<E> const& l) { ExpressionTypes r; for(auto const& e: l) r.add(make(e)); return r; };
    std::vector<ExpressionTypes> real; for(auto const& l: lists) real.push_back(build(l));
    for(size_t i = 0; i < lists.size(); ++i) {
        if(!ctx.begin()) continue;
        auto const& a = lists[i]; auto const& x = real[i];
        S s; for(auto const& e: a) s += (s.empty() ? "" : " | ") + text(e);
        ctx.describe(cat("list ", s));
        ctx.check(x.size() == a.size() && x.is_empty() == a.empty(), "size", cat(x.size()));
        bool all = !a.empty(); for(auto const& e: a) all &= fixed(e);
        ctx.check(x.fixed() == all, "fixed", cat(x.fixed()));
        size_t n = 0;
        for(auto const& e: x) { ctx.check(n < a.size() && e == make(a[n]) && x[n] == e, "elements", cat("element ", n)); ++n; }
        std::ostringstream stream; stream << x;
        ctx.check(stream.str() == s, "stream", stream.str());
        ExpressionTypes sized(a.size());
        ctx.check(sized.size() == a.size() && !sized.fixed(), "sized", cat(sized.size()));
        for(size_t k = 0; k < a.size(); ++k) sized[k] = make(a[k]);
        ExpressionTypes initialised = a.size() == 2 ? ExpressionTypes{make(a[0]), make(a[1])} : a.size() == 1 ? ExpressionTypes{make(a[0])} : build(a);
        for(size_t k = 0; k < a.size(); ++k) ctx.check(sized[k] == x[k] && initialised[k] == x[k], "elements", cat("element ", k, " of a list built in another way"));
        for(size_t j = 0; j < lists.size(); ++j) {
            auto const& b = lists[j]; auto const& y = real[j];
            size_t first = b.size();
            for(size_t k = b.size(); k-- > 0; ) for(auto const& e: a) if(satisfies(e, b[k])) first = k;
            ctx.check(x.id_of_satisfying_type(y) == first, "satisfying type", cat("with list ", j, ": ", x.id_of_satisfying_type(y), ", must be ", first));
            ctx.check(x.is_satisfied_by(y) == (first < b.size()), "satisfied", cat("with list ", j, ": ", x.is_satisfied_by(y)));
            ++ctx.transitions;
            ctx.outcome(cat(first, " of ", b.size()));
        }
        ctx.nontrivial(s + "#" + std::to_string(a.size()));
    }
}

} // namespace
