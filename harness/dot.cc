// Drawings of scripts in the DOT language: read back by a reader of that
// language, and compared with the script. All scripts up to a size.
#define SEQ_MAIN
#include "ast.h"
#include <cmath>
#include <list>
#include "fern/language/ast/visitor/ast_dot_visitor.h"
#include "fern/language/ast/visitor/flowgraph_dot_visitor.h"
#include "fern/language/ast/visitor/identify_visitor.h"
#include "fern/language/ast/visitor/thread_visitor.h"

using namespace script;

namespace {

// ------------------------------------------------------------ reading of DOT
struct Token { char kind; S text; };    // i identifier, > arrow, punctuation

struct Arrow { S from, to; std::vector<size_t> clusters; };
struct Cluster { S id, label; };

struct Graph {
    std::map<S, S> labels;                  // of nodes that are declared
    std::vector<S> twice;                   // declared more than once
    std::vector<Arrow> arrows;
    std::vector<Cluster> clusters;
    S problem;
};

struct Reader {
    S const& s; size_t at = 0; S problem;
    std::vector<Token> tokens;
    explicit Reader(S const& text): s(text) {}

    void tokenize()
    {
        while(at < s.size()) {
            unsigned char c = s[at];
            if(isspace(c)) ++at;
            else if(isalpha(c) || c == '_' || c >= 128) { size_t b = at; while(at < s.size() && (isalnum((unsigned char)s[at]) || s[at] == '_' || (unsigned char)s[at] >= 128)) ++at; tokens.push_back({'i', s.substr(b, at - b)}); }
            else if(isdigit(c) || c == '.') { size_t b = at; while(at < s.size() && (isdigit((unsigned char)s[at]) || s[at] == '.')) ++at; tokens.push_back({'i', s.substr(b, at - b)}); }
            else if(c == '"') {
                S r; ++at;
                while(true) {
                    if(at >= s.size()) { problem = "a string does not end"; return; }
                    if(s[at] == '"') { ++at; break; }
                    if(s[at] == '\\' && at + 1 < s.size()) {
                        if(s[at + 1] == '"') r += '"'; else if(s[at + 1] == '\n') ; else { r += '\\'; r += s[at + 1]; }
                        at += 2;
                    }
                    else r += s[at++];
                }
                tokens.push_back({'i', r});
            }
            else if(c == '-' && at + 1 < s.size() && s[at + 1] == '>') { tokens.push_back({'>', "->"}); at += 2; }
            else if(strchr("{}[];,=", c)) { tokens.push_back({char(c), S(1, c)}); ++at; }
            else { problem = cat("unexpected character ", c); return; }
        }
    }

    size_t t = 0;
    char kind(size_t k = 0) const { return t + k < tokens.size() ? tokens[t + k].kind : 'E'; }
    bool take(char k) { if(kind() != k) return false; ++t; return true; }
    bool fail(S const& what) { if(problem.empty()) problem = what; return false; }

    // The text drawn for a label.
    S drawn(S const& label)
    {
        S r;
        for(size_t i = 0; i < label.size(); ++i) {
            if(label[i] != '\\') { r += label[i]; continue; }
            if(i + 1 == label.size()) { fail("a label ends with a backslash"); break; }
            switch(label[++i]) {
                case 'n': case 'l': case 'r': r += '\n'; break;
                case '\\': r += '\\'; break;
                default: fail(S("a label has a stray backslash before ") + label[i]);
            }
        }
        return r;
    }

    bool attributes(std::map<S, S>& m)
    {
        while(take('[')) {
            while(!take(']')) {
                if(kind() != 'i' || kind(1) != '=' || kind(2) != 'i') return fail("attributes are not of the form name = value");
                m[tokens[t].text] = tokens[t + 2].text; t += 3;
                if(!take(',')) take(';');
            }
        }
        return true;
    }

    bool statements(Graph& g, std::vector<size_t>& inside)
    {
        while(kind() != '}') {
            if(take(';')) continue;
            if(kind() != 'i') return fail("a statement must start with an identifier");
            S id = tokens[t].text;
            if(id == "subgraph") {
                ++t;
                Cluster c; if(kind() == 'i') c.id = tokens[t++].text;
                if(!take('{')) return fail("a subgraph must have a body");
                g.clusters.push_back(c); inside.push_back(g.clusters.size() - 1);
                if(!statements(g, inside)) return false;
                inside.pop_back(); ++t;
                continue;
            }
            if(kind(1) == '=') {
                if(kind(2) != 'i') return fail("an attribute of the graph has no value");
                if(id == "label" && !inside.empty()) g.clusters[inside.back()].label = drawn(tokens[t + 2].text);
                t += 3; continue;
            }
            if(kind(1) == '>') {
                ++t; S from = id;
                while(take('>')) { if(kind() != 'i') return fail("an arrow leads nowhere"); g.arrows.push_back({from, tokens[t].text, inside}); from = tokens[t++].text; }
                std::map<S, S> m; if(!attributes(m)) return false;
                continue;
            }
            ++t;
            std::map<S, S> m; if(!attributes(m)) return false;
            if(g.labels.count(id)) g.twice.push_back(id);
            g.labels[id] = m.count("label") ? drawn(m["label"]) : id;
        }
        return true;
    }

    Graph read()
    {
        Graph g;
        tokenize();
        std::vector<size_t> inside;
        if(problem.empty()) {
            if(!(kind() == 'i' && tokens[t].text == "digraph")) fail("it must be a digraph");
            else {
                ++t; if(kind() == 'i') ++t;
                if(!take('{')) fail("the graph must have a body");
                else if(statements(g, inside)) { ++t; if(t != tokens.size()) fail("something follows the graph"); }
            }
        }
        g.problem = problem;
        return g;
    }
};

Graph read(S const& text) { return Reader(text).read(); }

// --------------------------------------------------------------- what must be
S address(void const* p) { std::ostringstream s; s << p; return s.str(); }
S address(fl::AstVertex const* p) { return address((void const*)p); }

bool same_number(S const& text, Number const& n)
{
    if(n.kind == 'i') return text == cat(n.i);
    if(n.kind == 'u') return text == cat(n.u);
    char* end; double d = strtod(text.c_str(), &end);
    if(text.empty() || *end) return false;
    double v = n.size == 32 ? (float)n.f : n.f;
    if(std::isnan(v) || std::isinf(v)) return std::isnan(v) ? std::isnan(d) : d == v;
    return std::fabs(d - v) <= 1e-5 * std::fabs(v);
}

struct Labelled { S first; bool number = false; Number n; bool typed = false; S types; bool alternatives = false; };

struct Model {
    bool ast;
    std::map<S, Labelled> nodes;
    std::vector<std::pair<S, std::vector<S>>> arrows;           // per node, in order
    std::map<S, S> clusters;                                // of a scope: label
    std::vector<std::pair<S, S>> flow, flow_possible, uses;
    S function;

    static S symbol(T const& t)
    {
        if(t.n->kind == '[') return "[]";
        return dynamic_cast<fl::OperatorVertex*>(t.v)->symbol();
    }

    void follow(fl::AstVertex* v, bool must) { for(auto* s: v->successors()) (must ? flow : flow_possible).push_back({address(v), address(s)}); }

    Labelled label(T& t)
    {
        Labelled l; auto const& n = *t.n;
        switch(n.kind) {
            case 'n': case 'f': case 'd': l.first = n.name; break;
            case 's': l.first = "\"" + n.name + "\""; break;
            case '#': l.number = true; l.n = n.number; break;
            case 'o': case '[': l.first = symbol(t); break;
            case '=': l.first = "="; break;
            case '?': l.first = "If"; break;
            case 'w': l.first = "While"; break;
            case 'r': l.first = "return"; break;
        }
        if(ast && strchr("nf#o[", n.kind)) {
            l.typed = true;
            auto const& types = dynamic_cast<fl::ExpressionVertex*>(t.v)->expression_types();
            l.types = types.is_empty() ? S("dt: -\nvt: -") : "dt: " + types[0].data_type().to_string() + "\nvt: " + types[0].value_type().to_string();
        }
        return l;
    }

    void node(T& t)
    {
        nodes[address(t.v)] = label(t);
        std::vector<S> to;
        if(t.n->kind != 'd') for(auto& x: t.e) to.push_back(address(x.v));
        arrows.push_back({address(t.v), to});
        follow(t.v, expression(t.n->kind) || t.n->kind == '=');
        if(auto* v = dynamic_cast<fl::NameVertex*>(t.v)) for(auto* u: v->uses()) uses.push_back({address(v), address(u)});
        if(t.n->kind != 'd') for(auto& x: t.e) node(x);
        S before = function;
        if(t.n->kind == 'd') function = t.n->name;
        for(int i: {0, 1}) if(t.scope[i]) scope(t.block[i], t.scope[i]);
        function = before;
    }

    void scope(std::vector<T>& l, fl::ScopeVertex* s)
    {
        nodes[address(s)].first = "scope"; clusters[address(s)] = function;
        nodes[address(s->sentinel().get())].first = "sentinel";
        follow(s, false); follow(s->sentinel().get(), false);
        std::vector<S> to; for(auto& t: l) to.push_back(address(t.v));
        arrows.push_back({address(s), to});
        for(auto& t: l) node(t);
    }

    // The flow graph.
    void name_or_node(T& from, S const& to, std::vector<std::pair<S, S>>& result)
    {
        auto* v = dynamic_cast<fl::NameVertex*>(from.v);
        if(v && !v->definitions().empty()) for(auto* d: v->definitions()) result.push_back({address(d), to});
        else result.push_back({address(from.v), to});
    }

    void flowgraph(T& t)
    {
        auto* v = dynamic_cast<fl::NameVertex*>(t.v);
        bool drawn = t.n->kind != '=';
        if(v && !v->definitions().empty()) drawn = std::find(v->definitions().begin(), v->definitions().end(), v) != v->definitions().end();
        if(drawn) nodes[address(t.v)] = label(t);
        if(strchr("fo[", t.n->kind)) for(auto& x: t.e) name_or_node(x, address(t.v), flow);
        if(t.n->kind == '=') name_or_node(t.e[1], address(t.e[0].v), flow);
        for(auto& x: t.e) flowgraph(x);
        for(auto& b: t.block) for(auto& x: b) flowgraph(x);
    }
};

S shown(Labelled const& l) { return l.number ? "the number " + l.n.text : l.first; }

void same_nodes(seq::Context& ctx, Graph const& g, Model const& m, S const& script)
{
    ctx.check(g.twice.empty(), "drawn twice", cat(script, ": a node is declared twice"));
    for(auto const& n: m.nodes) {
        auto i = g.labels.find(n.first);
        if(!ctx.check(i != g.labels.end(), "not drawn", cat(script, ": ", shown(n.second), " is not drawn"))) continue;
        S label = i->second, types;
        if(n.second.typed) {
            // The last two lines.
            auto cut = label.rfind("\ndt: ");
            types = cut == S::npos ? S() : label.substr(cut + 1);
            if(cut != S::npos) label.resize(cut);
            ctx.check(types == n.second.types, "types", cat(script, ": ", shown(n.second), " is drawn with types ", types, ", must be ", n.second.types));
        }
        ctx.check(n.second.number ? same_number(label, n.second.n) : label == n.second.first, "label", cat(script, ": ", shown(n.second), " is drawn as ", label));
    }
    for(auto const& l: g.labels) ctx.check(m.nodes.count(l.first), "drawn", cat(script, ": something is drawn that is not in the script, as ", l.second));
    for(auto const& a: g.arrows) ctx.check(g.labels.count(a.from) && g.labels.count(a.to), "arrow", cat(script, ": an arrow has an end that is not drawn"));
}

std::vector<std::pair<S, S>> pairs(Graph const& g) { std::vector<std::pair<S, S>> r; for(auto const& a: g.arrows) r.push_back({a.from, a.to}); std::sort(r.begin(), r.end()); return r; }

using Pairs = std::vector<std::pair<S, S>>;
Pairs minus(Pairs const& a, Pairs const& b) { Pairs r; std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r; }

enum { plain = 0, identified = 1, threaded = 2 };

// Types of all expressions, by turn.
void annotate(std::vector<T>& l, unsigned& turn)
{
    static fern::ExpressionType const types[] = {
        {fern::DataTypes::CONSTANT, fern::ValueTypes::INT32}, {fern::DataTypes::STATIC_FIELD, fern::ValueTypes::FLOAT64},
        {fern::DataTypes::CONSTANT | fern::DataTypes::STATIC_FIELD, fern::ValueTypes::INT8 | fern::ValueTypes::UINT64}, {}};
    for(auto& t: l) {
        if(auto* v = dynamic_cast<fl::ExpressionVertex*>(t.v)) { if(turn % 5) v->add_result_type(types[turn % 5 - 1]); ++turn; }
        annotate(t.e, turn);
        for(auto& b: t.block) annotate(b, turn);
    }
}

std::shared_ptr<fl::ModuleVertex> prepare(seq::Context& ctx, Script& s, int how)
{
    auto tree = parse(ctx, s);
    if(!tree) return tree;
    if(how & identified) { fl::IdentifyVisitor v; tree->Accept(v); }
    if(how & threaded) { fl::ThreadVisitor v; tree->Accept(v); }
    return tree;
}

void draw_tree(seq::Context& ctx, L const& l, int how, bool types, S const& source = "script.ran")
{
    if(!ctx.begin()) return;
    auto s = instance(l); s.source = source;
    S t = text(s);
    ctx.describe(cat(t, " of ", source, how & identified ? ", identified" : "", how & threaded ? ", threaded" : "", types ? ", annotated" : ""));
    auto tree = prepare(ctx, s, how);
    if(!tree) return;
    unsigned turn = 0;
    if(types) annotate(s.statements, turn);
    Model m; m.ast = true; m.function = source; m.scope(s.statements, s.scope);
    Pairs base;
    fl::AstDotVisitor all(fl::AstDotVisitor::ConnectingCfg | fl::AstDotVisitor::ConnectingUses);
    for(int mode = 0; mode < 5; ++mode) {
        fl::AstDotVisitor one(mode == 0 ? 0 : mode == 1 ? fl::AstDotVisitor::ConnectingCfg : fl::AstDotVisitor::ConnectingUses);
        // The last visitor is used twice.
        fl::AstDotVisitor& visitor(mode < 3 ? one : all);
        bool flow = mode == 1 || mode > 2, uses = mode > 1;
        tree->Accept(visitor);
        auto g = read(visitor.script());
        if(!ctx.check(g.problem.empty(), "not DOT", cat(t, " of ", source, ": ", g.problem))) continue;
        same_nodes(ctx, g, m, t);
        if(mode == 0) {
            base = pairs(g);
            std::map<S, std::vector<S>> to; size_t n = 0;
            for(auto const& a: g.arrows) to[a.from].push_back(a.to);
            for(auto const& a: m.arrows) { n += a.second.size(); ctx.check(to[a.first] == a.second, "arrows", cat(t, ": ", shown(m.nodes[a.first]), " has ", to[a.first].size(), " arrows, must have ", a.second.size(), " in order")); }
            ctx.check(n == g.arrows.size(), "arrows", cat(t, ": there are ", g.arrows.size(), " arrows, must be ", n));
            // A cluster for each scope, around its statements.
            ctx.check(g.clusters.size() == m.clusters.size(), "clusters", cat(t, ": there are ", g.clusters.size(), " clusters, must be ", m.clusters.size()));
            for(auto const& a: g.arrows) {
                if(m.clusters.count(a.from)) ctx.check(!a.clusters.empty() && g.clusters[a.clusters.back()].label == m.clusters[a.from] && g.clusters[a.clusters.back()].id.find("cluster") == 0, "cluster", cat(t, ": the statements of a scope are not drawn in a cluster named after ", m.clusters[a.from]));
            }
            std::set<S> ids; for(auto const& c: g.clusters) { ids.insert(c.id); }
            ctx.check(ids.size() == g.clusters.size(), "clusters", cat(t, ": two clusters have the same identifier"));
        }
        auto now = pairs(g);
        ctx.check(minus(base, now).empty(), "arrows of other modes", cat(t, ": arrows are missing when more is drawn"));
        auto more = minus(now, base);
        Pairs must, may;
        if(flow) { must = m.flow; may = m.flow_possible; }
        if(uses) must.insert(must.end(), m.uses.begin(), m.uses.end());
        std::sort(must.begin(), must.end()); std::sort(may.begin(), may.end());
        ctx.check(minus(must, more).empty(), flow ? "arrows of flow" : "arrows of uses", cat(t, ": ", minus(must, more).size(), " arrows of ", flow ? "flow and " : "", uses ? "uses" : "", " are missing"));
        ctx.check(minus(minus(more, must), may).empty(), flow ? "arrows of flow" : "arrows of uses", cat(t, ": ", minus(minus(more, must), may).size(), " arrows are drawn of which there is no reason"));
    }
    ctx.outcome(cat(base.size(), " arrows, ", m.flow.size(), " of flow, ", m.uses.size(), " of uses"));
    ctx.nontrivial(cat(t, how, types, source));
}

void draw_flow(seq::Context& ctx, L const& l, int how)
{
    if(!ctx.begin()) return;
    auto s = instance(l);
    S t = text(s);
    ctx.describe(cat(t, how & identified ? ", identified" : ""));
    auto tree = prepare(ctx, s, how);
    if(!tree) return;
    Model m; m.ast = false;
    for(auto& x: s.statements) m.flowgraph(x);
    fl::FlowgraphDotVisitor visitor;
    for(int again = 0; again < 2; ++again) {
        tree->Accept(visitor);
        auto g = read(visitor.script());
        if(!ctx.check(g.problem.empty(), "flow graph not DOT", cat(t, ": ", g.problem))) continue;
        same_nodes(ctx, g, m, t);
        auto now = pairs(g); std::sort(m.flow.begin(), m.flow.end());
        ctx.check(minus(m.flow, now).empty(), "flow graph arrows", cat(t, ": ", minus(m.flow, now).size(), " arrows are missing"));
        ctx.check(minus(now, m.flow).empty(), "flow graph arrows", cat(t, ": ", minus(now, m.flow).size(), " arrows too many"));
        std::set<S> ids; for(auto const& c: g.clusters) ids.insert(c.id);
        ctx.check(ids.size() == g.clusters.size(), "flow graph clusters", cat(t, ": two clusters have the same identifier"));
        // The order of the arguments.
        std::map<S, std::vector<S>> to, expected;
        for(auto const& a: g.arrows) to[a.to].push_back(a.from);
        std::function<void(T&)> order = [&](T& x) {
            if(strchr("fo[", x.n->kind)) { Pairs p; for(auto& y: x.e) m.name_or_node(y, address(x.v), p); for(auto const& q: p) expected[q.second].push_back(q.first); }
            for(auto& y: x.e) order(y);
            for(auto& b: x.block) for(auto& y: b) order(y);
        };
        for(auto& x: s.statements) order(x);
        for(auto const& e: expected) { size_t k = 0; for(auto const& from: to[e.first]) k += k < e.second.size() && from == e.second[k]; ctx.check(k == e.second.size(), "flow graph order", cat(t, ": the arrows of the arguments of ", shown(m.nodes[e.first]), " are out of order")); }
    }
    ctx.outcome(cat("flow graph of ", m.nodes.size(), " nodes, ", m.flow.size(), " arrows"));
    ctx.nontrivial(cat("flow graph ", t, how));
}

// Functions that are called more than once cannot be threaded.
bool calls_once(L const& l)
{
    std::map<S, int> calls;
    std::function<void(P const&)> count = [&](P const& p) { if(p->kind == 'f') ++calls[p->name]; for(auto const& e: p->e) count(e); for(auto const& b: p->block) for(auto const& x: b) count(x); };
    for(auto const& p: l) count(p);
    for(auto const& c: calls) if(c.second > 1) return false;
    return true;
}

bool has(L const& l, char kind)
{
    for(auto const& p: l) if(p->kind == kind || has(p->e, kind) || has(p->block[0], kind) || has(p->block[1], kind)) return true;
    return false;
}

std::vector<Number> all_numbers()
{
    std::vector<Number> r;
    auto i = [&](int size, long long v) { Number n; n.kind = 'i'; n.size = size; n.i = v; n.text = cat(v); r.push_back(n); };
    auto u = [&](int size, unsigned long long v) { Number n; n.kind = 'u'; n.size = size; n.u = v; n.text = cat(v); r.push_back(n); };
    auto f = [&](int size, double v, S const& text) { Number n; n.kind = 'f'; n.size = size; n.f = v; n.text = text; r.push_back(n); };
    for(int v = -128; v < 128; ++v) i(8, v);
    for(int v = 0; v < 256; ++v) u(8, v);
    for(int size: {16, 32, 64}) for(long long v: {0ll, 1ll, -1ll, 65ll, 999ll, 1000ll, 32767ll, -32768ll}) i(size, v);
    for(int size: {16, 32, 64}) for(unsigned long long v: {0ull, 1ull, 65ull, 1000ull, 65535ull}) u(size, v);
    for(int size: {32, 64}) { i(size, 2147483647ll); i(size, -2147483647ll); }
    for(int size: {32, 64}) { f(size, 0, "0"); f(size, 1, "1"); f(size, -1.5, "-1.5"); f(size, 0.1, "0.1"); f(size, 1e10, "1e10"); f(size, 1e-10, "1e-10"); f(size, 123456.7, "123456.7"); }
    return r;
}

} // namespace

SUITE("C40", "trees")
{
    Grammar g; g.leaves = {name("a"), string_("s"), number(Number())}; g.targets = {name("a"), make('[', "", {name("a"), name("b")})};
    g.operations = {{'f', "f", {0, 1, 2}}, {'o', "UnarySub", {1}}, {'o', "add", {2}}};
    g.subscript = g.if_ = g.while_ = true; g.functions = {"g"}; g.parameters = 1;
    for(unsigned size = 0; size <= (ctx.thorough() ? 6u : 4u); ++size) g.scripts(size, [&](L const& l) { draw_tree(ctx, l, plain, true); });
}

SUITE("C40", "names and flow")
{
    Grammar g; g.leaves = {name("a"), name("b")}; g.targets = {name("a")}; g.operations = {{'o', "add", {2}}}; g.if_ = true; g.subscript = true;
    for(unsigned size = 1; size <= (ctx.thorough() ? 6u : 5u); ++size) g.scripts(size, [&](L const& l) { for(int how: {0, 1, 2, 3}) draw_tree(ctx, l, how, false); });
    Grammar h; h.leaves = {name("a")}; h.operations = {{'f', "f", {0, 1}}}; h.functions = {"f"}; h.if_ = true; h.nested_functions = false;
    for(unsigned size = 1; size <= (ctx.thorough() ? 7u : 6u); ++size) h.scripts(size, [&](L const& l) { if(calls_once(l)) draw_tree(ctx, l, threaded, false); });
}

SUITE("C40", "flow graphs")
{
    Grammar g; g.leaves = {name("a"), name("b")}; g.targets = {name("a")}; g.operations = {{'o', "add", {2}}, {'f', "f", {0, 1, 2}}}; g.if_ = true; g.subscript = true;
    for(unsigned size = 0; size <= (ctx.thorough() ? 6u : 5u); ++size) g.scripts(size, [&](L const& l) { for(int how: {plain, identified}) draw_flow(ctx, l, how); });
    Grammar h; h.leaves = {name("a"), string_("s"), number(Number())}; h.targets = {name("a"), make('[', "", {name("a"), name("b")})}; h.operations = {{'o', "UnarySub", {1}}, {'o', "Pow", {2}}}; h.if_ = true;
    for(unsigned size = 0; size <= (ctx.thorough() ? 7u : 6u); ++size) h.scripts(size, [&](L const& l) { draw_flow(ctx, l, identified); });
}

SUITE("C40", "texts")
{
    std::vector<S> parts{"a", "\"", "\\", "\n", "n", " ", "<", ">", "{", "]", "-", "%1%", "\xc3\xa9"};
    for(unsigned length = 0; length <= 3; ++length) seq::tuples(length, parts.size(), [&](auto const& choice) {
        S t; for(auto c: choice) t += parts[c];
        draw_tree(ctx, {string_(t)}, plain, false);
        draw_flow(ctx, {string_(t)}, plain);
        if(!t.empty() && length <= 2) {
            draw_tree(ctx, {name("a")}, plain, false, t);
            // Names are not restricted by the parser.
            draw_tree(ctx, {name(t), make('f', t, {name("a")})}, plain, true);
            draw_flow(ctx, {name(t), make('f', t, {name("a")})}, plain);
            draw_tree(ctx, {make('d', t, {}, {name("a")})}, plain, true);
        }
    });
}

SUITE("C40", "numbers and operators")
{
    for(auto const& n: all_numbers()) { draw_tree(ctx, {number(n)}, plain, true); draw_flow(ctx, {number(n)}, plain); }
    for(S o: {"Invert", "Not", "UnaryAdd", "UnarySub"}) { draw_tree(ctx, {make('o', o, {name("a")})}, plain, true); draw_flow(ctx, {make('o', o, {name("a")})}, plain); }
    for(S o: {"add", "Sub", "Mult", "Div", "Mod", "Pow", "LShift", "RShift", "BitOr", "BitXor", "BitAnd", "FloorDiv", "And", "Or", "Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"}) { draw_tree(ctx, {make('o', o, {name("a"), name("b")})}, plain, true); draw_flow(ctx, {make('o', o, {name("a"), name("b")})}, plain); }
}

// All data types and value types, alone and in pairs.
SUITE("C40", "types")
{
    using fern::ValueTypes; using fern::DataTypes;
    std::vector<std::pair<S, ValueTypes>> values{{"Uint8", ValueTypes::UINT8}, {"Uint16", ValueTypes::UINT16}, {"Uint32", ValueTypes::UINT32}, {"Uint64", ValueTypes::UINT64}, {"Int8", ValueTypes::INT8}, {"Int16", ValueTypes::INT16}, {"Int32", ValueTypes::INT32}, {"Int64", ValueTypes::INT64}, {"Float32", ValueTypes::FLOAT32}, {"Float64", ValueTypes::FLOAT64}, {"String", ValueTypes::STRING}};
    std::vector<std::pair<S, DataTypes>> datas{{"Constant", DataTypes::CONSTANT}, {"StaticField", DataTypes::STATIC_FIELD}};
    for(unsigned d = 1; d < 4; ++d) for(size_t a = 0; a < values.size(); ++a) for(size_t b = a; b <= values.size(); ++b) {
        if(!ctx.begin()) continue;
        DataTypes dt; ValueTypes vt; std::set<S> dn, vn;
        for(unsigned i = 0; i < 2; ++i) if(d & (1 << i)) { dt |= datas[i].second; dn.insert(datas[i].first); }
        for(auto i: {a, b}) if(i < values.size()) { vt |= values[i].second; vn.insert(values[i].first); }
        ctx.describe(cat("data types ", d, ", value types ", a, " and ", b));
        auto s = instance(L{name("a"), make('o', "add", {name("b"), number(Number())}), make('f', "f")});
        auto tree = parse(ctx, s);
        if(!tree) continue;
        for(auto& t: s.statements) dynamic_cast<fl::ExpressionVertex*>(t.v)->add_result_type(fern::ExpressionType(dt, vt));
        fl::AstDotVisitor visitor; tree->Accept(visitor);
        auto g = read(visitor.script());
        if(!ctx.check(g.problem.empty(), "not DOT", g.problem)) continue;
        auto split = [](S const& text) { std::set<S> r; std::stringstream in(text); S x; while(std::getline(in, x, '|')) r.insert(x); return r; };
        for(auto& t: s.statements) {
            S label = g.labels[address(t.v)]; auto x = label.rfind("\ndt: "), y = label.rfind("\nvt: ");
            bool ok = x != S::npos && y != S::npos && x < y;
            ctx.check(ok && split(label.substr(x + 5, y - x - 5)) == (dn.empty() ? std::set<S>{"?"} : dn), "data types", cat("drawn as ", label));
            ctx.check(ok && split(label.substr(y + 5)) == (vn.empty() ? std::set<S>{"?"} : vn), "value types", cat("drawn as ", label));
        }
        ctx.nontrivial(cat(d, " ", a, " ", b)); ctx.outcome(cat(dn.size(), " data types, ", vn.size(), " value types"));
    }
}
