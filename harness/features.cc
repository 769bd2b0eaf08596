// Features with their attributes against a model: every history of additions
// up to a depth, followed by every query at every path.
#define SEQ_MAIN
#include "seq.h"
#include <cassert>
#include <memory>
#include "fern/language/feature/core/attributes.h"
#include "fern/language/feature/visitor/attribute_type_visitor.h"

namespace fl = fern::language;
using seq::cat;
using S = std::string;

namespace {

struct Node {
    std::map<S, std::shared_ptr<Node>> features;
    std::map<S, std::shared_ptr<fl::Attribute>> attributes;
    std::shared_ptr<fl::Feature> real;
};
using NodePtr = std::shared_ptr<Node>;
using Names = std::vector<S>;

Node const* find(Node const& root, Names const& names)
{
    Node const* node = &root;
    for(auto const& name: names) {
        auto i = node->features.find(name);
        if(i == node->features.end()) return nullptr;
        node = i->second.get();
    }
    return node;
}

S path_text(Names const& names, bool absolute)
{
    S s;
    for(size_t i = 0; i < names.size(); ++i) s += (i || absolute ? "/" : "") + names[i];
    return s;
}

enum Kind { add_feature, add_attribute, add_again };
struct Op { Kind kind; Names path; bool absolute; Names source; };

S text(Op const& op)
{
    S p = path_text(op.path, op.absolute);
    return op.kind == add_feature ? cat("feature at ", p) : op.kind == add_attribute ? cat("attribute at ", p) :
        cat("the feature of ", path_text(op.source, false), " also at ", p);
}

void apply(Node& root, Op const& op)
{
    Names above(op.path.begin(), op.path.end() - 1);
    auto& parent = const_cast<Node&>(*find(root, above));
    auto const& name = op.path.back();
    fern::Path path(path_text(op.path, op.absolute));
    if(op.kind == add_attribute) {
        auto attribute = std::make_shared<fl::ConstantAttribute<int>>(1);
        root.real->add_attribute(path, attribute);
        parent.attributes[name] = attribute;
        return;
    }
    NodePtr node;
    if(op.kind == add_feature) {
        node = std::make_shared<Node>();
        node->real = std::make_shared<fl::Feature>();
    }
    else {
        Names above_source(op.source.begin(), op.source.end() - 1);
        node = find(root, above_source)->features.at(op.source.back());
    }
    root.real->add_feature(path, node->real);
    parent.features[name] = node;
}

template<class Map> Names keys(Map const& map) { Names r; for(auto const& x: map) r.push_back(x.first); return r; }
Names sorted(Names names) { std::sort(names.begin(), names.end()); return names; }

void same(seq::Context& ctx, Node const& root, std::vector<Names> const& paths)
{
    fl::Feature const& real(*root.real);
    ctx.check(real.nr_features() == root.features.size(), "number of features", cat("is ", real.nr_features(), ", must be ", root.features.size()));
    ctx.check(real.nr_attributes() == root.attributes.size(), "number of attributes", cat("is ", real.nr_attributes(), ", must be ", root.attributes.size()));
    ctx.check(sorted(real.feature_names()) == keys(root.features), "names of features", "other names are reported");
    ctx.check(sorted(real.attribute_names()) == keys(root.attributes), "names of attributes", "other names are reported");
    for(auto const& names: paths) for(bool absolute: {false, true}) {
        auto p = path_text(names, absolute);
        fern::Path path(p);
        Names above(names.begin(), names.end() - 1);
        Node const* parent = find(root, above);
        Node const* node = find(root, names);
        ctx.check(real.contains_feature(path) == (node != nullptr), "contains feature", p);
        ctx.check(real.feature(path) == (node ? node->real : nullptr), "feature", p);
        if(node) {
            ctx.check(real.nr_features(path) == node->features.size(), "number of features at path", cat(p, ": ", real.nr_features(path), ", must be ", node->features.size()));
            ctx.check(real.nr_attributes(path) == node->attributes.size(), "number of attributes at path", cat(p, ": ", real.nr_attributes(path), ", must be ", node->attributes.size()));
            ctx.check(sorted(node->real->feature_names()) == keys(node->features) && sorted(node->real->attribute_names()) == keys(node->attributes), "names at path", p);
        }
        bool contains = false, threw = false;
        try { contains = real.contains_attribute(path); } catch(std::exception const&) { threw = true; }
        bool expected = parent && parent->attributes.count(names.back());
        ctx.check(!threw && contains == expected, "contains attribute", cat(p, threw ? ": exception" : "", ", must be ", expected));
        if(expected) ctx.check(real.attribute(path) == parent->attributes.at(names.back()), "attribute", p);
    }
}

bool below(Node const& node, Node const& other)
{
    if(&node == &other) return true;
    for(auto const& x: node.features) if(below(*x.second, other)) return true;
    return false;
}

// Everything that can be added next.
std::vector<Op> possible(Node const& root, Names const& letters, std::vector<Names> const& paths, bool absolute_too, bool again)
{
    std::vector<Op> result;
    (void)letters;
    for(auto const& path: paths) {
        Names above(path.begin(), path.end() - 1);
        Node const* parent = find(root, above);
        if(!parent || parent->features.count(path.back()) || parent->attributes.count(path.back())) continue;
        for(int absolute = 0; absolute <= (absolute_too ? 1 : 0); ++absolute) {
            result.push_back({add_feature, path, absolute != 0, {}});
            result.push_back({add_attribute, path, absolute != 0, {}});
        }
        if(again) for(auto const& source: paths) {
            Node const* node = find(root, source);
            if(node && !below(*node, *parent)) result.push_back({add_again, path, false, source});
        }
    }
    return result;
}

std::vector<Names> all_paths(Names const& letters, unsigned depth)
{
    std::vector<Names> result, last{{}};
    for(unsigned d = 0; d < depth; ++d) {
        std::vector<Names> next;
        for(auto const& p: last) for(auto const& l: letters) { auto q = p; q.push_back(l); next.push_back(q); }
        result.insert(result.end(), next.begin(), next.end());
        last = next;
    }
    return result;
}

struct Histories {
    seq::Context& ctx;
    Names letters;
    std::vector<Names> paths;
    unsigned depth, all_absolute;

    NodePtr build(std::vector<Op> const& history)
    {
        auto root = std::make_shared<Node>();
        root->real = std::make_shared<fl::Feature>();
        for(auto const& op: history) apply(*root, op);
        return root;
    }

    // The model alone is needed to know what is possible next.
    static void model_only(Node& root, Op const& op)
    {
        Names above(op.path.begin(), op.path.end() - 1);
        auto& parent = const_cast<Node&>(*find(root, above));
        if(op.kind == add_attribute) { parent.attributes[op.path.back()] = nullptr; return; }
        if(op.kind == add_feature) { parent.features[op.path.back()] = std::make_shared<Node>(); return; }
        Names above_source(op.source.begin(), op.source.end() - 1);
        NodePtr node = find(root, above_source)->features.at(op.source.back());
        parent.features[op.path.back()] = node;
    }

    void go(std::vector<Op>& history)
    {
        Node model;
        S description;
        for(auto const& op: history) { model_only(model, op); description += (description.empty() ? "" : "; ") + text(op); }
        if(ctx.begin()) {
            ctx.describe(description.empty() ? S("nothing added") : description);
            auto root = build(history);
            ctx.transitions += history.size();
            same(ctx, *root, paths);
            ctx.nontrivial(description);
            ctx.outcome(cat("features ", root->features.size(), ", attributes ", root->attributes.size()));
            ctx.sample(description);
        }
        if(history.size() == depth) return;
        bool last = history.size() + 1 == depth;
        for(auto const& op: possible(model, letters, paths, last || history.size() < all_absolute, true)) {
            history.push_back(op);
            go(history);
            history.pop_back();
        }
    }
};

} // namespace

SUITE("C37", "histories")
{
    Names letters{"a", "b"};
    std::vector<Op> history;
    Histories{ctx, letters, all_paths(letters, 3), ctx.thorough() ? 4u : 3u, 9}.go(history);
}

// Deeper, of paths along one name.
SUITE("C37", "deep")
{
    Names letters{"a"};
    auto paths = all_paths(letters, 4);
    paths.push_back({"b"}); paths.push_back({"a", "b"});
    std::vector<Op> history;
    Histories{ctx, letters, paths, ctx.thorough() ? 6u : 5u, ctx.thorough() ? 3u : 0u}.go(history);
}

SUITE("C37", "names")
{
    Names letters{"a", "aa", "a.b", ".a", "A", "a b", "1", "a-b", "\xc3\xa9"};
    std::vector<Op> history;
    Histories{ctx, letters, all_paths(letters, 2), 2, 9}.go(history);
}

// ---------------------------------------------------------------------------

namespace {

template<class Geometry> struct Geometries;
template<> struct Geometries<fl::d1::Point> { static std::vector<fl::d1::Point> all() { using P = fl::d1::Point; return {P(1.5), P(-2.0), P(1.5)}; } };
template<> struct Geometries<fl::d2::Point> { static std::vector<fl::d2::Point> all() {
    fl::d2::Point a, b; fern::set<0>(a, 1.1); fern::set<1>(a, 2.2); fern::set<0>(b, 2.2); fern::set<1>(b, 1.1); return {a, b, a}; } };
template<> struct Geometries<fl::d2::Box> { static std::vector<fl::d2::Box> all() {
    auto p = Geometries<fl::d2::Point>::all(); return {fl::d2::Box(p[0], p[1]), fl::d2::Box(p[1], p[0]), fl::d2::Box(p[0], p[0])}; } };

bool equal(fl::d1::Point const& a, fl::d1::Point const& b) { return fern::get<0>(a) == fern::get<0>(b); }
bool equal(fl::d2::Point const& a, fl::d2::Point const& b) { return fern::get<0>(a) == fern::get<0>(b) && fern::get<1>(a) == fern::get<1>(b); }
bool equal(fl::d2::Box const& a, fl::d2::Box const& b) { return equal(a.min_corner(), b.min_corner()) && equal(a.max_corner(), b.max_corner()); }

template<class Domain> void same_domain(seq::Context& ctx, Domain& domain, std::vector<typename Domain::GID> const& ids, std::vector<typename Domain::Geometry> const& added, S const& what)
{
    ctx.check(domain.size() == ids.size() && domain.empty() == ids.empty(), cat(what, " size"), cat("is ", domain.size(), ", must be ", ids.size()));
    for(size_t i = 0; i < ids.size(); ++i) ctx.check(equal(domain.geometry(ids[i]), added[i]), cat(what, " geometry"), cat("of addition ", i));
    size_t n = 0;
    bool right = true;
    for(auto const& x: domain) {
        auto at = std::find(ids.begin(), ids.end(), x.first);
        right = right && at != ids.end() && equal(x.second, added[at - ids.begin()]);
        ++n;
    }
    ctx.check(right && n == ids.size() && size_t(std::distance(domain.cbegin(), domain.cend())) == ids.size(), cat(what, " iteration"), "iteration must give each identifier with its geometry once");
}

template<class Geometry, class Value> void spatial(seq::Context& ctx, S const& name, std::vector<Value> const& values)
{
    auto geometries = Geometries<Geometry>::all();
    using Domain = fl::SpatialDomain<Geometry>;
    size_t options = geometries.size() * values.size();
    for(unsigned length = 0; length <= (ctx.thorough() ? 7u : 5u); ++length) seq::tuples(length, options, [&](auto const& choice) {
        if(!ctx.begin()) return;
        S history;
        for(auto c: choice) history += cat(" geometry ", c % geometries.size(), " value ", c / geometries.size());
        ctx.describe(cat(name, history));
        fl::SpatialAttribute<Domain, Value> attribute;
        Domain domain;
        ctx.check(attribute.empty() && attribute.size() == 0, "empty", "a new attribute must be empty");
        std::vector<typename Domain::GID> ids, domain_ids;
        std::vector<Geometry> added;
        std::vector<Value> given;
        for(auto c: choice) {
            auto const& geometry = geometries[c % geometries.size()];
            auto const& value = values[c / geometries.size()];
            ids.push_back(attribute.add(geometry, value));
            domain_ids.push_back(domain.add(geometry));
            added.push_back(geometry); given.push_back(value);
            ++ctx.transitions;
            ctx.check(std::set<size_t>(ids.begin(), ids.end()).size() == ids.size(), "identifiers", "an identifier is given out twice");
            ctx.check(std::set<size_t>(domain_ids.begin(), domain_ids.end()).size() == ids.size(), "identifiers of a domain", "an identifier is given out twice");
        }
        if(std::set<size_t>(ids.begin(), ids.end()).size() == ids.size() && std::set<size_t>(domain_ids.begin(), domain_ids.end()).size() == ids.size()) {
            same_domain(ctx, domain, domain_ids, added, "domain");
            same_domain(ctx, const_cast<Domain&>(attribute.domain()), ids, added, "domain of attribute");
            ctx.check(attribute.size() == ids.size() && attribute.empty() == ids.empty() && attribute.values().size() == ids.size() && attribute.values().empty() == ids.empty(), "size", cat("is ", attribute.size()));
            for(size_t i = 0; i < ids.size(); ++i) ctx.check(attribute.values().value(ids[i]) == given[i], "value", cat("of addition ", i));
            if(!ids.empty()) {
                auto i = attribute.values().cbegin();
                auto at = std::find(ids.begin(), ids.end(), i->first);
                ctx.check(at != ids.end() && i->second == given[at - ids.begin()], "first value", "iteration starts at another value");
            }
        }
        ctx.nontrivial(cat(name, history));
        ctx.sample(cat(name, history));
        ctx.outcome(cat(name, " ", length));
    });
}

} // namespace

SUITE("C38", "spatial attributes")
{
    spatial<fl::d2::Box, int>(ctx, "box, int", {3, -1});
    spatial<fl::d2::Point, S>(ctx, "point, string", {"", "x"});
    spatial<fl::d1::Point, double>(ctx, "one dimensional point, double", {0.5, 0.25});
    auto array = std::make_shared<fl::d2::MaskedArrayValue<int>>(fern::extents[1][2]);
    spatial<fl::d2::Box, fl::FieldValuePtr<int>>(ctx, "box, field", {array, nullptr});
}

SUITE("C38", "constant attributes")
{
    std::vector<S> values{"", "a", "b"};
    for(int constructed = 0; constructed < 2; ++constructed) for(unsigned length = 0; length <= 4; ++length) seq::tuples(length, values.size(), [&](auto const& choice) {
        if(!ctx.begin()) return;
        ctx.describe(cat(constructed ? "constructed with a value, " : "constructed without a value, ", length, " settings"));
        fl::ConstantAttribute<S> with("c"), without;
        auto& attribute = constructed ? with : without;
        auto const& read = attribute.values();
        S expected = constructed ? "c" : "";
        if(constructed) ctx.check(read.value() == expected, "constructed", read.value());
        for(auto c: choice) {
            attribute.set(values[c]); expected = values[c]; ++ctx.transitions;
            ctx.check(read.value() == expected && attribute.values().value() == expected, "set", cat(attribute.values().value(), ", must be ", expected));
        }
        ctx.nontrivial(cat(constructed, choice));
        ctx.outcome(cat("settings ", length));
    });
}

namespace {
struct Kind_ { S name; std::shared_ptr<fl::Attribute> attribute; fern::DataType data_type; fern::ValueType value_type; };
template<class T> void both(std::vector<Kind_>& kinds, char const* name, fern::ValueType value_type)
{
    kinds.push_back({cat("constant ", name), std::make_shared<fl::ConstantAttribute<T>>(), fern::DT_CONSTANT, value_type});
    kinds.push_back({cat("field ", name), std::make_shared<fl::FieldAttribute<T>>(), fern::DT_STATIC_FIELD, value_type});
}
}

SUITE("C38", "types")
{
    std::vector<Kind_> kinds;
    both<int8_t>(kinds, "int8", fern::VT_INT8); both<int16_t>(kinds, "int16", fern::VT_INT16);
    both<int32_t>(kinds, "int32", fern::VT_INT32); both<int64_t>(kinds, "int64", fern::VT_INT64);
    both<uint8_t>(kinds, "uint8", fern::VT_UINT8); both<uint16_t>(kinds, "uint16", fern::VT_UINT16);
    both<uint32_t>(kinds, "uint32", fern::VT_UINT32); both<uint64_t>(kinds, "uint64", fern::VT_UINT64);
    both<float>(kinds, "float32", fern::VT_FLOAT32); both<double>(kinds, "float64", fern::VT_FLOAT64);
    both<bool>(kinds, "bool", fern::VT_BOOL); both<S>(kinds, "string", fern::VT_STRING);
    for(unsigned length = 1; length <= (ctx.thorough() ? 3u : 2u); ++length) seq::tuples(length, kinds.size(), [&](auto const& choice) {
        if(!ctx.begin()) return;
        S history;
        for(auto c: choice) history += cat(history.empty() ? "" : ", then ", kinds[c].name);
        ctx.describe(cat("one visitor visits ", history));
        fl::AttributeTypeVisitor visitor;
        for(auto c: choice) {
            kinds[c].attribute->Accept(visitor); ++ctx.transitions;
            ctx.check(visitor.data_type() == kinds[c].data_type && visitor.value_type() == kinds[c].value_type, cat("type of ", kinds[c].name), cat(int(visitor.data_type()), ", ", int(visitor.value_type())));
        }
        ctx.nontrivial(history);
        ctx.outcome(cat("visits ", length));
    });
}
