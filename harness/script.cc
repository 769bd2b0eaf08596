// Scripts: from XML to syntax tree, identification of names, control flow,
// annotation and validation, inputs and outputs. All scripts up to a size.
#define SEQ_MAIN
#include "ast.h"
#include <cmath>
#include <boost/exception/all.hpp>
#include "fern/language/ast/visitor/identify_visitor.h"
#include "fern/language/ast/visitor/io_visitor.h"
#include "fern/language/ast/visitor/thread_visitor.h"

using namespace script;
namespace fd = fern::detail;

namespace {

template<class F> bool parse_error(F const& f, S& what)
{
    try { f(); what = "is accepted"; return false; }
    catch(fd::ParseError const& e) {
        // With a position and a message.
        bool full = boost::get_error_info<fd::ExceptionLineNr>(e) && boost::get_error_info<fd::ExceptionColNr>(e) && boost::get_error_info<fd::ExceptionMessage>(e);
        what = "gives an error without a position or a message";
        return full;
    }
    catch(std::exception const& e) { what = cat("throws ", typeid(e).name()); return false; }
}

Grammar full()
{
    Grammar g;
    g.leaves = {name("a"), string_("s"), number(Number())}; g.targets = {name("a"), make('[', "", {name("a"), name("b")})};
    g.operations = {{'f', "f", {0, 1, 2}}, {'o', "UnarySub", {1}}, {'o', "add", {2}}};
    g.subscript = g.attribute = g.if_ = g.while_ = true; g.functions = {"g"}; g.parameters = 1;
    return g;
}

// ------------------------------------------------------------------------ C27
SUITE("C27", "trees")
{
    auto g = full();
    for(unsigned size = 0; size <= (ctx.thorough() ? 5u : 4u); ++size) g.scripts(size, [&](L const& l) {
        if(!ctx.begin()) return;
        auto s = instance(l);
        ctx.describe(text(s));
        for(int style: {0, 1}) ctx.outcome(parse(ctx, s, style) ? "same tree" : "another tree");
        ctx.nontrivial(text(s));
    });
}

// Nested deeper, along one path.
SUITE("C27", "nesting")
{
    for(unsigned depth = 1; depth <= (ctx.thorough() ? 6u : 4u); ++depth) {
        unsigned const radix = 9;
        seq::tuples(depth, radix, [&](auto const& t) {
            if(!ctx.begin()) return;
            P p = name("a"); bool statement = false;
            for(auto k: t) {
                switch(k) {
                    case 0: if(!statement) p = make('f', "f", {name("b"), p}); else p = make('?', "", {name("c")}, {p}, {name("d")}); break;
                    case 1: if(!statement) p = make('f', "f", {p, name("b")}); else p = make('?', "", {name("c")}, {name("d")}, {p}); break;
                    case 2: if(!statement) p = make('o', "UnarySub", {p}); else p = make('w', "", {name("c")}, {name("b"), p}, {}); break;
                    case 3: if(!statement) p = make('[', "", {p, name("b")}); else p = make('w', "", {name("c")}, {name("b")}, {p, name("e")}); break;
                    case 4: if(!statement) p = make('[', "", {name("b"), p}); else p = make('d', "g", {name("b")}, {p, make('r', "")}); break;
                    case 5: if(!statement) p = make('.', "m", {p}); else p = make('d', "g", {}, {p}); break;
                    case 6: if(!statement) { p = make('=', "", {name("x"), p}); statement = true; } break;
                    case 7: if(!statement) { p = make('=', "", {p, name("x")}); statement = true; } break;
                    case 8: if(!statement) { p = make('?', "", {p}, {name("b")}, {name("d"), name("e")}); statement = true; } break;
                }
            }
            auto s = instance(L{p, name("z")});
            ctx.describe(text(s));
            ctx.outcome(parse(ctx, s) ? "same tree" : "another tree");
            ctx.nontrivial(text(s));
        });
    }
}

std::vector<Number> numbers()
{
    std::vector<Number> r;
    auto integer = [&](int size, long long v) { Number n; n.kind = 'i'; n.size = size; n.i = v; n.text = cat(v); r.push_back(n); };
    auto natural = [&](int size, unsigned long long v) { Number n; n.kind = 'u'; n.size = size; n.u = v; n.text = cat(v); r.push_back(n); };
    auto real = [&](int size, S const& t, double v) { Number n; n.kind = 'f'; n.size = size; n.f = size == 32 ? double(float(v)) : v; n.text = t; r.push_back(n); };
    for(int v = -128; v <= 127; ++v) integer(8, v);
    for(long long v: {-32768, -32767, -129, -1, 0, 1, 128, 255, 256, 32767}) integer(16, v);
    for(int size: {32, 64}) for(long long v: {-2147483648ll, -65536ll, -32769ll, -1ll, 0ll, 1ll, 32768ll, 65535ll, 2147483647ll}) integer(size, v);
    for(int v = 0; v <= 255; ++v) natural(8, v);
    for(unsigned long long v: {0, 255, 256, 32768, 65535}) natural(16, v);
    for(unsigned long long v: {0ull, 65536ull, 2147483648ull, 4294967295ull}) natural(32, v);
    for(unsigned long long v: {0ull, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull}) natural(64, v);
    for(int size: {32, 64}) {
        for(S t: {"0", "-0", "0.5", "-0.5", "0.1", "1.5e3", "1E-3", "16777217", "3.25", "123456.789", "-1e30"}) real(size, t, strtod(t.c_str(), nullptr));
        real(size, "INF", INFINITY); real(size, "-INF", -INFINITY); real(size, "NaN", NAN);
    }
    for(S t: {"1e300", "-1.7976931348623157e308", "2.2250738585072014e-308", "4503599627370497.5", "0.30000000000000004"}) real(64, t, strtod(t.c_str(), nullptr));
    return r;
}

SUITE("C27", "leaves")
{
    auto run = [&](P const& p) {
        if(!ctx.begin()) return;
        for(L const& l: {L{p}, L{make('=', "", {name("a"), p})}, L{make('f', "f", {p, p})}, L{make('?', "", {p}, {p}, {})}}) {
            auto s = instance(l);
            ctx.describe(text(s));
            ctx.outcome(parse(ctx, s) ? "same value" : "another value");
        }
        ctx.nontrivial(cat(p->kind, p->number.kind, p->number.size, " ", p->name));
    };
    for(auto const& n: numbers()) run(number(n));
    S const letters[] = {"a", " ", "&", "<", ">", "\"", "'", "\n", "\r", "\t", "\xc3\xa9", "]", "\xe2\x82\xac"};
    for(unsigned n = 0; n <= (ctx.thorough() ? 4u : 3u); ++n) seq::tuples(n, 13, [&](auto const& t) { S s; for(auto k: t) s += letters[k]; run(string_(s)); });
    for(S s: {"a", "A1", "a_b", "\xc3\xa9", "a b", "operator"}) { run(name(s)); run(make('.', s, {name("a")})); run(make('f', s, {})); }
    for(S s: {"Invert", "Not", "UnaryAdd", "UnarySub"}) run(make('o', s, {name("a")}));
    for(S s: {"add", "Sub", "Mult", "Div", "Mod", "Pow", "LShift", "RShift", "BitOr", "BitXor", "BitAnd", "FloorDiv", "And", "Or", "Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"}) run(make('o', s, {name("a"), name("b")}));
    // The name of the source, and documents with comments and a byte order.
    for(S source: {"", "a.ran", "/tmp/a b.ran", "<string>", "a&b\"c"}) {
        if(!ctx.begin()) continue;
        auto s = instance(L{name("a")}); s.source = source;
        ctx.describe("source " + source);
        ctx.outcome(parse(ctx, s) ? "same source" : "another source");
        ctx.nontrivial("source " + source);
    }
}

SUITE("C27", "truncated documents")
{
    auto g = full();
    for(unsigned size = 0; size <= (ctx.thorough() ? 3u : 2u); ++size) g.scripts(size, [&](L const& l) {
        auto s = instance(l);
        auto x = xml(document(s));
        if(!ctx.begin()) return;
        ctx.describe("prefixes of " + text(s));
        S what;
        for(size_t n = 0; n < x.size(); ++n) ctx.check(parse_error([&]{ fl::XmlParser().parse_string(x.substr(0, n)); }, what), "truncated", cat("the first ", n, " characters of the XML of ", text(s), ": ", what));
        // Extra text after the end is no document either.
        ctx.check(parse_error([&]{ fl::XmlParser().parse_string(x + "<a/>"); }, what), "trailing", cat("the XML of ", text(s), " and more: ", what));
        ctx.nontrivial("prefixes of " + text(s)); ctx.outcome("refused");
    });
}

// Elements and attributes that the schema does not have, or has to have.
void spoil(X& x, S const& parent, std::function<void(S const&)> const& run)
{
    S name = x.name;
    x.name = "Bogus"; run("<" + name + "> renamed"); x.name = name;
    for(size_t i = 0; i < x.attributes.size(); ++i) {
        auto all = x.attributes;
        x.attributes.erase(x.attributes.begin() + i); run("<" + name + "> without " + all[i].first); x.attributes = all;
        if(all[i].first != "source") { for(S bad: {"", "x", "-1", "1.5", "1 2"}) { x.attributes[i].second = bad; run("<" + name + "> with " + all[i].first + " " + bad); } x.attributes = all; }
    }
    x.attributes.emplace_back("bogus", "1"); run("<" + name + "> with another attribute"); x.attributes.pop_back();
    if(name == "Size" || name == "Value") for(S bad: {"", "x", "1 2", "1x"}) { S t = x.text; x.text = bad; run("<" + name + "> " + bad); x.text = t; }
    bool list = name == "Statements" || name == "Expressions", optional = name == "Return";
    for(size_t i = 0; i < x.kids.size(); ++i) {
        auto all = x.kids;
        bool block = (name == "If" || name == "While") && i == 1;
        if(!list && !optional && !block) { x.kids.erase(x.kids.begin() + i); run("<" + name + "> without <" + all[i].name + ">"); x.kids = all; }
        if(!list) { x.kids.push_back(all[0]); run("<" + name + "> with one more <" + all[0].name + ">"); x.kids = all; }
    }
    for(auto& k: x.kids) spoil(k, name, run);
}

SUITE("C27", "documents outside of the schema")
{
    auto g = full();
    for(unsigned size = 1; size <= (ctx.thorough() ? 4u : 3u); ++size) g.scripts(size, [&](L const& l) {
        if(!ctx.begin()) return;
        auto s = instance(l);
        auto x = document(s);
        ctx.describe("spoiled " + text(s));
        spoil(x, "", [&](S const& how) { S what; ctx.describe(cat(text(s), ": ", how)); ctx.check(parse_error([&]{ fl::XmlParser().parse_string(xml(x)); }, what), "outside of the schema", cat("the XML of ", text(s), ", ", how, ": ", what)); });
        ctx.nontrivial("spoiled " + text(s)); ctx.outcome("refused");
    });
}

// ------------------------------------------------------------------------ C28
struct Identify {
    // For each name its definition, if any.
    std::vector<std::map<S, T*>> scopes;
    std::map<T*, T*> definition; std::map<T*, std::vector<T*>> uses; std::vector<T*> names, defining;

    void use(T& t)
    {
        if(t.n->kind == 'n') {
            names.push_back(&t); definition[&t] = nullptr;
            for(auto i = scopes.rbegin(); i != scopes.rend(); ++i) { auto j = i->find(t.n->name); if(j != i->end()) { definition[&t] = j->second; uses[j->second].push_back(&t); break; } }
        }
        for(auto& x: t.e) use(x);
    }
    void block(std::vector<T>& l) { scopes.emplace_back(); for(auto& t: l) statement(t); scopes.pop_back(); }
    void statement(T& t)
    {
        switch(t.n->kind) {
            case '=': use(t.e[1]); names.push_back(&t.e[0]); defining.push_back(&t.e[0]); definition[&t.e[0]] = &t.e[0]; scopes.back()[t.e[0].n->name] = &t.e[0]; break;
            case '?': case 'w': use(t.e[0]); block(t.block[0]); block(t.block[1]); break;
            default: use(t);
        }
    }
};

void identify(seq::Context& ctx, L const& l)
{
    if(!ctx.begin()) return;
    auto s = instance(l);
    ctx.describe(text(s));
    auto tree = parse(ctx, s);
    if(!tree) return;
    fl::IdentifyVisitor visitor;
    tree->Accept(visitor);
    Identify m; m.block(s.statements);
    unsigned linked = 0;
    auto where = [&](T const* t) { return cat(t->n->name, " (line ", t->line, ")"); };
    for(auto* t: m.names) {
        auto* v = dynamic_cast<fl::NameVertex*>(t->v); auto* d = m.definition[t];
        std::vector<fl::NameVertex*> expected;
        if(d) { expected.push_back(dynamic_cast<fl::NameVertex*>(d->v)); ++linked; }
        ctx.check(v->definitions() == expected, d ? (d == t ? "own definition" : "definition") : "undefined name", cat("in ", text(s), ": ", where(t), " has ", v->definitions().size(), " definitions; must be ", d ? "that of " + where(d) : "none"));
        std::vector<fl::NameVertex*> uses; for(auto* u: m.uses[t]) uses.push_back(dynamic_cast<fl::NameVertex*>(u->v));
        ctx.check(v->uses() == uses, "uses", cat("in ", text(s), ": ", where(t), " has ", v->uses().size(), " uses, must have ", uses.size()));
    }
    ctx.check(visitor.symbol_table().empty(), "symbol table", "symbols are left in the table");
    ctx.outcome(linked ? "linked" : "nothing to link");
    if(linked) ctx.nontrivial(text(s));
}

SUITE("C28", "scripts")
{
    Grammar g; g.leaves = {name("a"), name("b")}; g.targets = g.leaves; g.operations = {{'o', "add", {2}}}; g.if_ = true;
    for(unsigned size = 1; size <= (ctx.thorough() ? 8u : 7u); ++size) g.scripts(size, [&](L const& l) { identify(ctx, l); });
}

SUITE("C28", "all kinds of expressions and statements")
{
    Grammar g; g.leaves = {name("a"), name("b"), number(Number())}; g.targets = {name("a"), name("b")}; g.operations = {{'o', "add", {2}}, {'f', "f", {0, 1, 2}}}; g.if_ = g.while_ = g.subscript = g.attribute = true;
    g.member = "b";
    for(unsigned size = 1; size <= (ctx.thorough() ? 6u : 5u); ++size) g.scripts(size, [&](L const& l) { identify(ctx, l); });
}

// ------------------------------------------------------------------------ C29
using V = fl::AstVertex*;

struct Flow {
    // The functions that are visible, by scope. The definitions of a scope
    // are visible in all its statements, and in the functions that follow.
    std::vector<std::map<S, T*>> visible;
    std::map<T*, T*> calls; std::map<T*, unsigned> called; std::vector<T*> definitions, functions;
    std::map<T*, T*> returns;   // a return, and its function

    void expression(T& t)
    {
        for(auto& x: t.e) expression(x);
        if(t.n->kind == 'f') for(auto i = visible.rbegin(); i != visible.rend(); ++i) { auto j = i->find(t.n->name); if(j != i->end()) { calls[&t] = j->second; ++called[j->second]; break; } }
    }
    void block(std::vector<T>& l)
    {
        visible.emplace_back();
        for(auto& t: l) if(t.n->kind == 'd') { definitions.push_back(&t); functions.push_back(&t); block(t.block[0]); functions.pop_back(); visible.back()[t.n->name] = &t; }
        for(auto& t: l) switch(t.n->kind) {
            case 'd': break;
            case '=': expression(t.e[1]); expression(t.e[0]); break;
            case '?': expression(t.e[0]); block(t.block[0]); block(t.block[1]); break;
            case 'r': returns[&t] = functions.back(); for(auto& x: t.e) expression(x); break;
            default: expression(t);
        }
        visible.pop_back();
    }

    // What running the script visits, given the outcomes of the conditions.
    std::vector<V> trace; unsigned decisions = 0, used = 0;

    void run(T& t)
    {
        for(auto& x: t.e) run(x);
        trace.push_back(t.v);
        if(t.n->kind == 'f' && calls.count(&t)) {
            T* d = calls[&t];
            trace.push_back(d->v);
            for(auto& x: d->e) run(x);
            run(d->block[0], d->scope[0]);
        }
    }
    // Whether a return was met: then the rest of the function is skipped.
    bool run(std::vector<T>& l, fl::ScopeVertex* scope)
    {
        trace.push_back(scope);
        for(auto& t: l) switch(t.n->kind) {
            case 'd': break;
            case '=': run(t.e[1]); run(t.e[0]); trace.push_back(t.v); break;
            case 'r':
                for(auto& x: t.e) run(x);
                trace.push_back(t.v);
                trace.push_back(returns[&t]->scope[0]->sentinel().get());
                return true;
            case '?': {
                run(t.e[0]); trace.push_back(t.v);
                bool yes = decisions >> used++ & 1;
                if(yes) { if(run(t.block[0], t.scope[0])) return true; }
                else if(!t.block[1].empty()) { if(run(t.block[1], t.scope[1])) return true; }
                trace.push_back(t.sentinel);
                break;
            }
            default: run(t);
        }
        trace.push_back(scope->sentinel().get());
        return false;
    }
};

// Follow the control flow from the module back to the module.
S follow(Script& s, unsigned decisions, unsigned& used, std::vector<V>& trace)
{
    used = 0; trace = {s.module};
    V at = s.module;
    for(unsigned steps = 0; steps < 1000; ++steps) {
        auto* i = dynamic_cast<fl::IfVertex*>(at);
        if(i) {
            bool yes = decisions >> used++ & 1;
            bool other = !i->false_scope()->statements().empty();
            if(at->successors().size() != (other ? 2u : 1u)) return cat("an if has ", at->successors().size(), " successors");
            at = yes ? at->successor(0) : other ? at->successor(1) : i->sentinel().get();
        }
        else {
            if(at->successors().size() != 1) return cat("a vertex on the path has ", at->successors().size(), " successors");
            at = at->successor();
        }
        trace.push_back(at);
        if(at == s.module) return "";
    }
    return "the path does not return to the module";
}

unsigned conditions(std::vector<T> const& l) { unsigned n = 0; for(auto const& t: l) n += (t.n->kind == '?') + conditions(t.block[0]) + conditions(t.block[1]); return n; }

void thread(seq::Context& ctx, L const& l)
{
    {
        // A function that is called twice is outside of the space.
        auto s = instance(l); Flow m; m.block(s.statements);
        for(auto const& c: m.called) if(c.second > 1) return;
    }
    if(!ctx.begin()) return;
    auto s = instance(l);
    ctx.describe(text(s));
    auto tree = parse(ctx, s);
    if(!tree) return;
    fl::ThreadVisitor visitor;
    tree->Accept(visitor);
    unsigned n = conditions(s.statements);
    for(unsigned decisions = 0; decisions < (1u << n); ++decisions) {
        Flow m; m.block(s.statements);
        m.decisions = decisions; m.trace = {s.module};
        m.run(s.statements, s.scope); m.trace.push_back(s.module);
        std::vector<V> real; unsigned used;
        S problem = follow(s, decisions, used, real);
        if(problem.empty() && real != m.trace) {
            size_t i = 0; while(i < real.size() && i < m.trace.size() && real[i] == m.trace[i]) ++i;
            auto kind = [](V v) { return v ? S(typeid(*v).name()) + cat(" at ", v->line()) : S("nothing"); };
            problem = cat("step ", i, " is to ", kind(i < real.size() ? real[i] : nullptr), ", must be to ", kind(i < m.trace.size() ? m.trace[i] : nullptr));
        }
        ctx.check(problem.empty(), "path", cat(text(s), ", decisions ", decisions, ": ", problem));
        ctx.transitions += real.size();
    }
    Flow m; m.block(s.statements);
    // Where a function goes to is up to its caller.
    for(auto* d: m.definitions) if(!m.called.count(d)) ctx.check(d->scope[0]->sentinel()->successors().empty(), "uncalled function", cat(text(s), ": the end of ", d->n->name, " leads somewhere"));
    ctx.nontrivial(text(s));
    ctx.outcome(cat(m.calls.size(), " calls, ", n, " conditions"));
}

SUITE("C29", "statements and expressions")
{
    Grammar g; g.leaves = {name("a"), string_("s"), number(Number())}; g.targets = {name("a")}; g.operations = {{'o', "add", {2}}, {'o', "Not", {1}}, {'f', "f", {0, 1, 2}}}; g.if_ = g.subscript = g.attribute = true;
    for(unsigned size = 0; size <= (ctx.thorough() ? 6u : 5u); ++size) g.scripts(size, [&](L const& l) { thread(ctx, l); });
}

SUITE("C29", "functions")
{
    Grammar g; g.leaves = {name("a")}; g.operations = {{'f', "f", {0, 1}}, {'f', "g", {0, 1}}}; g.functions = {"f", "g"}; g.parameters = 1; g.if_ = true;
    for(unsigned size = 1; size <= (ctx.thorough() ? 7u : 6u); ++size) g.scripts(size, [&](L const& l) { thread(ctx, l); });
}

SUITE("C29", "conditions and returns")
{
    Grammar g; g.leaves = {name("a")}; g.if_ = true; g.functions = {"f"}; g.nested_functions = false;
    // Blocks of a function that is called once.
    for(unsigned size = 1; size <= (ctx.thorough() ? 9u : 8u); ++size) for(auto const& b: std::vector<L>(g.blocks(size, true))) thread(ctx, {make('d', "f", {}, b), make('f', "f"), name("z")});
}

// ------------------------------------------------------------------------ C31
SUITE("C31", "scripts")
{
    Grammar g; g.leaves = {name("a"), name("b"), name("c")}; g.targets = g.leaves; g.operations = {{'o', "add", {2}}, {'f', "a", {2}}};
    fl::IOVisitor again;
    for(unsigned size = 0; size <= (ctx.thorough() ? 8u : 7u); ++size) g.scripts(size, [&](L const& l) {
        // Assignments only decide; one expression is enough to see uses.
        unsigned plain = 0; for(auto const& p: l) plain += p->kind != '=';
        if(plain > 1) return;
        if(!ctx.begin()) return;
        auto s = instance(l);
        ctx.describe(text(s));
        auto tree = parse(ctx, s);
        if(!tree) return;
        std::vector<S> inputs; std::vector<fl::NameVertex const*> outputs; std::set<S> defined;
        std::function<void(T&)> use = [&](T& t) { if(t.n->kind == 'n' && !defined.count(t.n->name) && std::find(inputs.begin(), inputs.end(), t.n->name) == inputs.end()) inputs.push_back(t.n->name); for(auto& x: t.e) use(x); };
        for(auto& t: s.statements) { if(t.n->kind == '=') { use(t.e[1]); defined.insert(t.e[0].n->name); } else use(t); }
        for(auto i = s.statements.rbegin(); i != s.statements.rend(); ++i) if(i->n->kind == '=' && defined.count(i->e[0].n->name)) { defined.erase(i->e[0].n->name); outputs.insert(outputs.begin(), dynamic_cast<fl::NameVertex const*>(i->e[0].v)); }
        fl::IOVisitor once;
        // A visitor can be used for one module after the other.
        for(auto* visitor: {&once, &again}) {
            tree->Accept(*visitor);
            S names, expected; for(auto const& i: visitor->inputs()) names += i + " "; for(auto const& i: inputs) expected += i + " ";
            ctx.check(visitor->inputs() == inputs, "inputs", cat(text(s), ": the inputs are ", names, ", must be ", expected));
            names = expected = ""; for(auto const& o: visitor->outputs()) names += cat(o ? o->name() : S("?"), ":", o ? o->line() : 0, " "); for(auto const& o: outputs) expected += cat(o->name(), ":", o->line(), " ");
            ctx.check(visitor->outputs() == outputs, "outputs", cat(text(s), ": the outputs are ", names, ", must be ", expected));
        }
        ctx.outcome(cat(inputs.size(), " inputs, ", outputs.size(), " outputs"));
        if(!outputs.empty()) ctx.nontrivial(text(s));
    });
}

} // namespace
