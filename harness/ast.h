// Scripts as data: enumerate all small ones, write them as XML documents, and
// match the tree the parser makes of them, vertex by vertex.
#pragma once
#include "seq.h"
#include <cassert>
#include <functional>
#include <memory>
#include "fern/core/exception.h"
#include "fern/language/ast/core/vertices.h"
#include "fern/language/ast/xml/xml_parser.h"

namespace script {

using seq::cat;
using S = std::string;
namespace fl = fern::language;

// n name, s string, # number, f call, o operator, [ subscript, . attribute
// = assignment, ? if, w while, d function definition, r return
struct N;
using P = std::shared_ptr<N const>;
using L = std::vector<P>;

struct Number { char kind = 'i'; int size = 64; S text = "5"; long long i = 5; unsigned long long u = 5; double f = 5; };

struct N {
    char kind; S name; L e; L block[2]; Number number;
};

inline P make(char kind, S const& name, L const& e = {}, L const& b0 = {}, L const& b1 = {})
{
    auto r = std::make_shared<N>(); r->kind = kind; r->name = name; r->e = e; r->block[0] = b0; r->block[1] = b1; return r;
}

inline P name(S const& s) { return make('n', s); }
inline P string_(S const& s) { return make('s', s); }
inline P number(Number const& n) { auto r = std::make_shared<N>(); r->kind = '#'; r->number = n; r->name = n.text; return r; }

inline bool expression(char k) { return strchr("ns#fo[.", k); }

// One occurrence of a node in a script.
struct T {
    P n; int id = 0, line = 0, col = 0;
    std::vector<T> e; std::vector<T> block[2];
    T* scope_owner = nullptr;
    // What the parser made of it.
    fl::AstVertex* v = nullptr; fl::ScopeVertex* scope[2] = {nullptr, nullptr}; fl::AstVertex* sentinel = nullptr;
};

struct Script { std::vector<T> statements; S source = "script.ran"; int nr_nodes = 0; fl::ModuleVertex* module = nullptr; fl::ScopeVertex* scope = nullptr; };

inline T instance(P const& p, int& id)
{
    T t; t.n = p; t.id = id++; t.line = 1 + t.id * 3; t.col = t.id % 2 ? 2147483647 - t.id : t.id;
    for(auto const& x: p->e) t.e.push_back(instance(x, id));
    for(int i: {0, 1}) for(auto const& x: p->block[i]) t.block[i].push_back(instance(x, id));
    return t;
}

inline Script instance(L const& statements) { Script s; for(auto const& p: statements) s.statements.push_back(instance(p, s.nr_nodes)); return s; }

// Readable.
inline S text(T const& t);
inline S text(std::vector<T> const& l, char const* sep) { S r; for(auto const& t: l) { if(!r.empty()) r += sep; r += text(t); } return r; }

inline S text(T const& t)
{
    auto const& n = *t.n;
    switch(n.kind) {
        case 'n': return n.name;
        case 's': return "\"" + n.name + "\"";
        case '#': return cat(n.number.text, n.number.kind, n.number.size);
        case 'f': return n.name + "(" + text(t.e, ", ") + ")";
        case 'o': return n.name + "<" + text(t.e, ", ") + ">";
        case '[': return text(t.e[0]) + "[" + text(t.e[1]) + "]";
        case '.': return text(t.e[0]) + "." + n.name;
        case '=': return text(t.e[0]) + " = " + text(t.e[1]);
        case 'r': return "return" + (t.e.empty() ? S() : " " + text(t.e[0]));
        case 'd': return "def " + n.name + "(" + text(t.e, ", ") + "): {" + text(t.block[0], "; ") + "}";
        default: return (n.kind == '?' ? "if " : "while ") + text(t.e[0]) + ": {" + text(t.block[0], "; ") + "}" + (t.block[1].empty() ? S() : " else {" + text(t.block[1], "; ") + "}");
    }
}

inline S text(Script const& s) { return text(s.statements, "; "); }

// XML.
struct X { S name; std::vector<std::pair<S, S>> attributes; std::vector<X> kids; S text; };

inline X leaf(S const& name, S const& text) { X x; x.name = name; x.text = text; return x; }
inline X expressions(std::vector<T> const& l);

inline X expression(T const& t, S const& element = "Expression")
{
    X x; x.name = element; x.attributes = {{"line", cat(t.line)}, {"col", cat(t.col)}};
    auto const& n = *t.n;
    switch(n.kind) {
        case 'n': x.kids = {leaf("Name", n.name)}; break;
        case 's': x.kids = {leaf("String", n.name)}; break;
        case '#': {
            X v; v.name = n.number.kind == 'i' ? "Integer" : n.number.kind == 'u' ? "UnsignedInteger" : "Float";
            v.kids = {leaf("Size", cat(n.number.size)), leaf("Value", n.number.text)};
            X w; w.name = "Number"; w.kids = {v}; x.kids = {w}; break;
        }
        case 'f': case 'o': { X v; v.name = n.kind == 'f' ? "FunctionCall" : "Operator"; v.kids = {leaf("Name", n.name), expressions(t.e)}; x.kids = {v}; break; }
        case '[': { X v; v.name = "Subscript"; v.kids = {expression(t.e[0]), expression(t.e[1])}; x.kids = {v}; break; }
        case '.': { X v; v.name = "Attribute"; v.kids = {expression(t.e[0]), leaf("Name", n.name)}; x.kids = {v}; break; }
    }
    return x;
}

inline X expressions(std::vector<T> const& l) { X x; x.name = "Expressions"; for(auto const& t: l) x.kids.push_back(expression(t)); return x; }

inline X statements(std::vector<T> const& l)
{
    X x; x.name = "Statements";
    for(auto const& t: l) {
        X s; s.name = "Statement"; s.attributes = {{"line", cat(t.line)}, {"col", cat(t.col)}};
        X v;
        switch(t.n->kind) {
            case '=': v.name = "Assignment"; v.kids = {expression(t.e[0]), expression(t.e[1])}; break;
            case '?': case 'w': v.name = t.n->kind == '?' ? "If" : "While"; v.kids = {expression(t.e[0]), statements(t.block[0]), statements(t.block[1])}; break;
            case 'd': v.name = "FunctionDefinition"; v.kids = {leaf("Name", t.n->name), expressions(t.e), statements(t.block[0])}; break;
            case 'r': v.name = "Return"; if(!t.e.empty()) v.kids = {expression(t.e[0])}; break;
            default: v = expression(t);
        }
        s.kids = {v}; x.kids.push_back(s);
    }
    return x;
}

inline X document(Script const& s) { X x; x.name = "Fern"; x.attributes = {{"source", s.source}}; x.kids = {statements(s.statements)}; return x; }

inline S escape(S const& s)
{
    S r;
    for(char c: s) {
        switch(c) {
            case '&': r += "&amp;"; break;
            case '<': r += "&lt;"; break;
            case '>': r += "&gt;"; break;
            case '"': r += "&quot;"; break;
            case '\r': r += "&#13;"; break;
            case '\n': r += "&#10;"; break;
            case '\t': r += "&#9;"; break;
            default: r += c;
        }
    }
    return r;
}

// Style 1 has white space between the elements.
inline void write(S& r, X const& x, int style, int depth = 0)
{
    if(style == 1 && depth) r += "\n" + S(depth, ' ');
    r += "<" + x.name;
    for(auto const& a: x.attributes) r += " " + a.first + "=\"" + escape(a.second) + "\"";
    if(x.kids.empty() && x.text.empty() && style == 0) { r += "/>"; return; }
    r += ">" + escape(x.text);
    for(auto const& k: x.kids) write(r, k, style, depth + 1);
    if(style == 1 && !x.kids.empty()) r += "\n" + S(depth, ' ');
    r += "</" + x.name + ">";
}

inline S xml(X const& x, int style = 0) { S r = "<?xml version=\"1.0\"?>"; write(r, x, style); return r; }

// ------------------------------------------------------------------ matching
// The vertices of the tree must be those of the script. Returns what is wrong.
inline S match(T& t, fl::AstVertex* v);

inline S match_scope(std::vector<T>& l, std::shared_ptr<fl::ScopeVertex> const& scope)
{
    if(!scope) return "there is no scope";
    if(scope->statements().size() != l.size()) return cat("a scope has ", scope->statements().size(), " statements, must have ", l.size());
    for(size_t i = 0; i < l.size(); ++i) { auto r = match(l[i], scope->statements()[i].get()); if(!r.empty()) return r; }
    return "";
}

inline S match_all(std::vector<T>& l, fl::ExpressionVertices const& e, char const* what)
{
    if(e.size() != l.size()) return cat(what, ": ", e.size(), " expressions, must be ", l.size());
    for(size_t i = 0; i < l.size(); ++i) { auto r = match(l[i], e[i].get()); if(!r.empty()) return r; }
    return "";
}

template<class V> S same_number(fl::AstVertex* v, V value)
{
    auto* n = dynamic_cast<fl::NumberVertex<V>*>(v);
    if(!n) return "a number has another type";
    return n->value() == value || (value != value && n->value() != n->value()) ? S() : cat("a number is ", +n->value(), ", must be ", +value);
}

inline S match(T& t, fl::AstVertex* v)
{
    if(!v) return "a vertex is missing";
    t.v = v;
    auto const& n = *t.n;
    auto with = [&](S const& r) { return r.empty() ? r : r + " (in " + text(t) + ")"; };
    if(v->line() != t.line || v->col() != t.col) return with(cat("position ", v->line(), ":", v->col(), ", must be ", t.line, ":", t.col));
    auto* x = dynamic_cast<fl::ExpressionVertex*>(v);
    if(expression(n.kind) != bool(x)) return with("a statement of another kind");
    static std::map<S, S> const symbols[2] = {
        {{"Invert", "~"}, {"Not", "!"}, {"UnaryAdd", "+"}, {"UnarySub", "-"}},
        {{"add", "+"}, {"Sub", "-"}, {"Mult", "*"}, {"Div", "/"}, {"Mod", "%"}, {"Pow", "**"}, {"LShift", "<<"}, {"RShift", ">>"}, {"BitOr", "|"}, {"BitXor", "^"}, {"BitAnd", "&"}, {"FloorDiv", "//"},
         {"And", "and"}, {"Or", "or"}, {"Eq", "=="}, {"NotEq", "!="}, {"Lt", "<"}, {"LtE", "<="}, {"Gt", ">"}, {"GtE", ">="}}};
    auto called = [&](S const& real) { return real == n.name ? S() : cat("the name is ", real, ", must be ", n.name); };
    switch(n.kind) {
        case 'n': { auto* p = dynamic_cast<fl::NameVertex*>(v); return with(!p ? "not a name" : called(p->name())); }
        case 's': { auto* p = dynamic_cast<fl::StringVertex*>(v); return with(!p ? "not a string" : called(p->value())); }
        case '#': {
            auto const& m = n.number;
            if(m.kind == 'i') return with(m.size == 8 ? same_number<int8_t>(v, m.i) : m.size == 16 ? same_number<int16_t>(v, m.i) : m.size == 32 ? same_number<int32_t>(v, m.i) : same_number<int64_t>(v, m.i));
            if(m.kind == 'u') return with(m.size == 8 ? same_number<uint8_t>(v, m.u) : m.size == 16 ? same_number<uint16_t>(v, m.u) : m.size == 32 ? same_number<uint32_t>(v, m.u) : same_number<uint64_t>(v, m.u));
            return with(m.size == 32 ? same_number<float>(v, m.f) : same_number<double>(v, m.f));
        }
        case 'f': { auto* p = dynamic_cast<fl::FunctionCallVertex*>(v); if(!p) return with("not a function call"); auto r = called(p->name()); return with(r.empty() ? match_all(t.e, p->expressions(), "arguments") : r); }
        case 'o': { auto* p = dynamic_cast<fl::OperatorVertex*>(v); if(!p) return with("not an operator"); auto r = called(p->name()); if(r.empty() && p->symbol() != symbols[t.e.size() - 1].at(n.name)) r = "another symbol: " + p->symbol(); return with(r.empty() ? match_all(t.e, p->expressions(), "operands") : r); }
        case '[': { auto* p = dynamic_cast<fl::SubscriptVertex*>(v); if(!p) return with("not a subscript"); auto r = match(t.e[0], p->expression().get()); return with(r.empty() ? match(t.e[1], p->selection().get()) : r); }
        case '.': { auto* p = dynamic_cast<fl::AttributeVertex*>(v); if(!p) return with("not an attribute"); auto r = called(p->member_name()); return with(r.empty() ? match(t.e[0], p->expression().get()) : r); }
        case '=': { auto* p = dynamic_cast<fl::AssignmentVertex*>(v); if(!p) return with("not an assignment"); auto r = match(t.e[0], p->target().get()); return with(r.empty() ? match(t.e[1], p->expression().get()) : r); }
        case 'r': {
            auto* p = dynamic_cast<fl::ReturnVertex*>(v); if(!p) return with("not a return");
            if(t.e.empty()) return with(p->expression() ? "a return has an expression" : "");
            return with(match(t.e[0], p->expression().get()));
        }
        case 'd': {
            auto* p = dynamic_cast<fl::FunctionDefinitionVertex*>(v); if(!p) return with("not a function definition");
            auto r = called(p->name()); if(r.empty()) r = match_all(t.e, p->arguments(), "parameters");
            if(r.empty()) r = match_scope(t.block[0], p->scope());
            t.scope[0] = p->scope().get(); return with(r);
        }
        case '?': {
            auto* p = dynamic_cast<fl::IfVertex*>(v); if(!p) return with("not an if");
            auto r = match(t.e[0], p->condition().get()); if(r.empty()) r = match_scope(t.block[0], p->true_scope()); if(r.empty()) r = match_scope(t.block[1], p->false_scope());
            t.scope[0] = p->true_scope().get(); t.scope[1] = p->false_scope().get(); t.sentinel = p->sentinel().get(); return with(r);
        }
        case 'w': {
            auto* p = dynamic_cast<fl::WhileVertex*>(v); if(!p) return with("not a while");
            auto r = match(t.e[0], p->condition().get()); if(r.empty()) r = match_scope(t.block[0], p->true_scope()); if(r.empty()) r = match_scope(t.block[1], p->false_scope());
            t.scope[0] = p->true_scope().get(); t.scope[1] = p->false_scope().get(); return with(r);
        }
    }
    return "?";
}

inline S match(Script& s, std::shared_ptr<fl::ModuleVertex> const& tree)
{
    if(!tree) return "there is no tree";
    if(tree->source_name() != s.source) return cat("the source is ", tree->source_name(), ", must be ", s.source);
    s.module = tree.get(); s.scope = tree->scope().get();
    return match_scope(s.statements, tree->scope());
}

// Parse, and bind the script to the tree. An empty pointer if that failed,
// which is reported.
inline std::shared_ptr<fl::ModuleVertex> parse(seq::Context& ctx, Script& s, int style = 0)
{
    std::shared_ptr<fl::ModuleVertex> tree; S problem;
    try { tree = fl::XmlParser().parse_string(xml(document(s), style)); problem = match(s, tree); }
    catch(std::exception const& e) { problem = cat("parsing throws ", typeid(e).name()); }
    bool ok = ctx.check(problem.empty(), "tree", cat(text(s), ": ", problem));
    return ok ? tree : nullptr;
}

// ---------------------------------------------------------------- enumeration
// All scripts of a size, the number of nodes.
struct Grammar {
    L leaves, targets;                              // size 1
    struct Operation { char kind; S name; std::vector<unsigned> arity; };
    std::vector<Operation> operations;              // f and o
    bool subscript = false, attribute = false, if_ = false, while_ = false;
    S member = "m";
    std::vector<S> functions; unsigned parameters = 0;  // definitions
    bool nested_functions = true;

    // In a function, returns are possible.
    std::map<unsigned, L> expressions_; std::map<std::pair<unsigned, bool>, L> statements_; std::map<std::pair<unsigned, bool>, std::vector<L>> blocks_;

    L const& expressions(unsigned size)
    {
        auto i = expressions_.find(size); if(i != expressions_.end()) return i->second;
        L r;
        if(size == 1) r = leaves;
        for(auto const& o: operations) for(auto a: o.arity) lists(size - 1, a, [&](L const& l) { r.push_back(make(o.kind, o.name, l)); });
        if(subscript) lists(size - 1, 2, [&](L const& l) { r.push_back(make('[', "", l)); });
        if(attribute) lists(size - 1, 1, [&](L const& l) { r.push_back(make('.', member, l)); });
        return expressions_[size] = r;
    }

    // Lists of n expressions with this many nodes.
    template<class F> void lists(unsigned size, unsigned n, F const& f, L const& prefix = {})
    {
        if(n == 0) { if(size == 0) f(prefix); return; }
        for(unsigned k = 1; k + n - 1 <= size; ++k)
            for(auto const& p: L(expressions(k))) { L l(prefix); l.push_back(p); lists(size - k, n - 1, f, l); }
    }

    L const& statements(unsigned size, bool function)
    {
        auto key = std::make_pair(size, function);
        auto i = statements_.find(key); if(i != statements_.end()) return i->second;
        L r(expressions(size));
        if(size >= 3) for(auto const& t: targets) for(auto const& e: expressions(size - 2)) r.push_back(make('=', "", {t, e}));
        for(char kind: {'?', 'w'}) {
            if(!(kind == '?' ? if_ : while_)) continue;
            for(unsigned c = 1; c + 2 <= size; ++c) for(auto const& condition: L(expressions(c)))
                for(unsigned b = 1; 1 + c + b <= size; ++b) for(auto const& b0: std::vector<L>(blocks(b, function)))
                    for(auto const& b1: std::vector<L>(blocks(size - 1 - c - b, function))) r.push_back(make(kind, "", {condition}, b0, b1));
        }
        if(nested_functions || !function) for(auto const& f: functions) for(unsigned p = 0; p <= parameters && p + 2 <= size; ++p) {
            L names; for(unsigned k = 0; k < p; ++k) names.push_back(name(cat("p", k)));
            for(auto const& body: std::vector<L>(blocks(size - 1 - p, true))) r.push_back(make('d', f, names, body));
        }
        if(function) {
            if(size == 1) r.push_back(make('r', ""));
            else for(auto const& e: expressions(size - 1)) r.push_back(make('r', "", {e}));
        }
        return statements_[key] = r;
    }

    std::vector<L> const& blocks(unsigned size, bool function)
    {
        auto key = std::make_pair(size, function);
        auto i = blocks_.find(key); if(i != blocks_.end()) return i->second;
        std::vector<L> r;
        if(size == 0) r.push_back({});
        else for(unsigned k = 1; k <= size; ++k) for(auto const& s: L(statements(k, function))) for(auto const& rest: std::vector<L>(blocks(size - k, function))) { L l{s}; l.insert(l.end(), rest.begin(), rest.end()); r.push_back(l); }
        return blocks_[key] = r;
    }

    // All scripts of this size, without keeping them.
    template<class F> void scripts(unsigned size, F const& f, L const& prefix = {})
    {
        if(size == 0) { f(prefix); return; }
        for(unsigned k = 1; k <= size; ++k) for(auto const& s: statements(k, false)) { L l(prefix); l.push_back(s); scripts(size - k, f, l); }
    }
};

} // namespace script
