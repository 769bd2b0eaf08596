// The text of a script, written for a syntax tree, reads back as that script.
#define SEQ_MAIN
#include "ast.h"
#include <cmath>
#include <limits>
#include "fern/language/ast/visitor/module_visitor.h"

using namespace script;

namespace {

// ---------------------------------------------------------------------- reader
// A reader of the language, written from its definition (that of Python).
struct Error { S what; };

struct Token { char kind; S text; };     // n name, # number, s string, o other

std::vector<Token> tokens(S const& line)
{
    std::vector<Token> r;
    auto word = [](char c) { return std::isalnum((unsigned char)c) || c == '_'; };
    for(size_t i = 0; i < line.size();) {
        char c = line[i];
        if(c == ' ') { ++i; continue; }
        if(c == '#') break;
        if(std::isdigit((unsigned char)c) || (c == '.' && i + 1 < line.size() && std::isdigit((unsigned char)line[i + 1]))) {
            size_t b = i;
            while(i < line.size() && (word(line[i]) || line[i] == '.' || ((line[i] == '+' || line[i] == '-') && (line[i - 1] == 'e' || line[i - 1] == 'E')))) ++i;
            r.push_back({'#', line.substr(b, i - b)});
        }
        else if(word(c)) { size_t b = i; while(i < line.size() && word(line[i])) ++i; r.push_back({'n', line.substr(b, i - b)}); }
        else if(c == '"' || c == '\'') {
            S t;
            for(++i; ; ++i) {
                if(i >= line.size()) throw Error{"a string does not end"};
                if(line[i] == c) { ++i; break; }
                if(line[i] != '\\') { t += line[i]; continue; }
                if(++i >= line.size()) throw Error{"a string does not end"};
                switch(line[i]) {
                    case 'n': t += '\n'; break;
                    case 'r': t += '\r'; break;
                    case 't': t += '\t'; break;
                    case '\\': case '"': case '\'': t += line[i]; break;
                    case 'x':
                        if(i + 2 >= line.size() || !std::isxdigit((unsigned char)line[i + 1]) || !std::isxdigit((unsigned char)line[i + 2])) throw Error{"unknown escape"};
                        t += (char)std::stoi(line.substr(i + 1, 2), nullptr, 16); i += 2; break;
                    default: t += '\\'; t += line[i];
                }
            }
            r.push_back({'s', t});
        }
        else {
            S t;
            for(auto o: {"**", "<<", ">>", "//", "==", "!=", "<=", ">="}) if(line.compare(i, 2, o) == 0) t = o;
            if(t.empty()) t = S(1, c);
            if(t.size() == 1 && !strchr("()[].,:=+-*/%|^&<>~!", c)) throw Error{cat("unknown character ", (int)(unsigned char)c)};
            r.push_back({'o', t});
            i += t.size();
        }
    }
    return r;
}

struct Reader
{
    struct Line { int indent; std::vector<Token> t; };
    std::vector<Line> lines; size_t line = 0, at = 0;

    Token const* peek() const { return line < lines.size() && at < lines[line].t.size() ? &lines[line].t[at] : nullptr; }
    bool is(S const& t) const { auto* p = peek(); return p && p->kind != 's' && p->kind != '#' && p->text == t; }
    bool take(S const& t) { if(!is(t)) return false; ++at; return true; }
    void need(S const& t) { if(!take(t)) throw Error{cat("there is no ", t)}; }
    void end() { if(peek()) throw Error{"there is something after the end: " + peek()->text}; ++line; at = 0; }

    explicit Reader(S const& text)
    {
        S l;
        // A line break in a string is an error, as its string does not end.
        for(char c: text) if(c == '\n') { add(l); l.clear(); } else l += c;
        if(!l.empty()) add(l);
    }
    void add(S const& l)
    {
        size_t b = 0;
        while(b < l.size() && l[b] == ' ') ++b;
        auto t = tokens(l.substr(b));
        if(!t.empty()) lines.push_back({(int)b, t});
    }

    static bool keyword(S const& s) { for(auto k: {"and", "or", "not", "if", "else", "elif", "while", "def", "return"}) if(s == k) return true; return false; }

    P number_(S text, bool negative)
    {
        Number n;
        bool hexadecimal = false; (void)hexadecimal;
        bool real = text.find_first_of(".eE") != S::npos;
        bool is_unsigned = false;
        while(!text.empty() && std::isalpha((unsigned char)text.back())) {
            char c = text.back();
            if(c == 'U' || c == 'u') is_unsigned = true;
            else if(c != 'L' && c != 'l') throw Error{"unknown suffix of a number"};
            text.pop_back();
        }
        if(text.empty()) throw Error{"a number has no digits"};
        if(negative) text = "-" + text;
        char* e = nullptr; errno = 0;
        n.text = text;
        if(real) { n.kind = 'f'; n.f = strtod(text.c_str(), &e); }
        else if(is_unsigned) { if(negative) throw Error{"a negative unsigned number"}; n.kind = 'u'; n.u = strtoull(text.c_str(), &e, 10); if(errno) throw Error{"a number too large"}; }
        else { n.kind = 'i'; n.i = strtoll(text.c_str(), &e, 10); if(errno) throw Error{"a number too large"}; }
        if(*e) throw Error{"a malformed number " + text};
        return number(n);
    }

    P primary()
    {
        auto* t = peek();
        if(!t) throw Error{"an expression is missing"};
        P r;
        if(t->kind == 's') { r = string_(t->text); ++at; }
        else if(t->kind == '#') { auto x = t->text; ++at; r = number_(x, false); }
        else if(t->kind == 'n') {
            if(keyword(t->text)) throw Error{"unexpected " + t->text};
            S n = t->text; ++at;
            if(take("(")) {
                L l;
                if(!take(")")) { do l.push_back(expression(0)); while(take(",")); need(")"); }
                r = make('f', n, l);
            }
            else r = name(n);
        }
        else if(take("(")) { r = expression(0); need(")"); }
        else throw Error{"unexpected " + t->text};
        for(;;) {
            if(take("[")) { auto i = expression(0); need("]"); r = make('[', "", {r, i}); }
            else if(take(".")) { auto* m = peek(); if(!m || m->kind != 'n') throw Error{"an attribute has no name"}; r = make('.', m->text, {r}); ++at; }
            else return r;
        }
    }

    // or 1, and 2, not 3, comparisons 4, | 5, ^ 6, & 7, shifts 8, sums 9, products 10, signs 11, ** 12
    P unary()
    {
        auto* t = peek();
        if(t && t->kind == 'o') {
            if(t->text == "-" && at + 1 < lines[line].t.size() && lines[line].t[at + 1].kind == '#') { at += 2; auto x = lines[line].t[at - 1].text; return number_(x, true); }
            for(auto const& o: {std::make_pair("-", "UnarySub"), std::make_pair("+", "UnaryAdd"), std::make_pair("~", "Invert"), std::make_pair("!", "Not")})
                if(t->text == o.first) { ++at; return make('o', o.second, {unary()}); }
        }
        auto p = primary();
        if(take("**")) p = make('o', "Pow", {p, unary()});
        return p;
    }

    P expression(int level)
    {
        struct Op { char const* symbol; char const* name; int level; };
        static Op const ops[] = {{"or", "Or", 1}, {"and", "And", 2}, {"==", "Eq", 4}, {"!=", "NotEq", 4}, {"<=", "LtE", 4}, {">=", "GtE", 4}, {"<", "Lt", 4}, {">", "Gt", 4}, {"|", "BitOr", 5}, {"^", "BitXor", 6}, {"&", "BitAnd", 7},
            {"<<", "LShift", 8}, {">>", "RShift", 8}, {"+", "add", 9}, {"-", "Sub", 9}, {"*", "Mult", 10}, {"/", "Div", 10}, {"%", "Mod", 10}, {"//", "FloorDiv", 10}};
        P p;
        if(is("not") ) { if(level > 3) throw Error{"unexpected not"}; ++at; p = make('o', "Not", {expression(3)}); }
        else p = unary();
        for(;;) {
            Op const* o = nullptr;
            for(auto const& x: ops) if(is(x.symbol)) { o = &x; break; }
            if(!o || o->level < level) return p;
            ++at;
            p = make('o', o->name, {p, expression(o->level + 1)});
        }
    }

    L block(int outer)
    {
        if(line >= lines.size() || lines[line].indent <= outer) throw Error{"a block is empty"};
        int indent = lines[line].indent;
        L r;
        while(line < lines.size() && lines[line].indent == indent) r.push_back(statement(indent));
        if(line < lines.size() && lines[line].indent > outer) throw Error{"the indentation does not match"};
        return r;
    }

    P statement(int indent)
    {
        for(char kind: {'?', 'w'}) if(take(kind == '?' ? "if" : "while")) {
            auto c = expression(0); need(":"); end();
            L t = block(indent), f;
            if(line < lines.size() && lines[line].indent == indent && is("else")) { ++at; need(":"); end(); f = block(indent); }
            return make(kind, "", {c}, t, f);
        }
        auto e = expression(0);
        if(take("=")) e = make('=', "", {e, expression(0)});
        end();
        return e;
    }

    L script()
    {
        L r;
        while(line < lines.size()) { if(lines[line].indent) throw Error{"unexpected indentation"}; r.push_back(statement(0)); }
        return r;
    }
};

bool same(L const& a, L const& b);

bool same(P const& a, P const& b)
{
    if(a->kind != b->kind) return false;
    if(a->kind == '#') {
        auto const& m = a->number; auto const& n = b->number;
        if(m.kind != n.kind) return false;
        if(m.kind == 'i') return m.i == n.i;
        if(m.kind == 'u') return m.u == n.u;
        // The number read, rounded to the type of the one written.
        return (m.size == 32 ? (double)(float)m.f == (double)strtof(n.text.c_str(), nullptr) : m.f == n.f) && std::signbit(m.f) == std::signbit(n.f);
    }
    return a->name == b->name && same(a->e, b->e) && same(a->block[0], b->block[0]) && same(a->block[1], b->block[1]);
}

bool same(L const& a, L const& b)
{
    if(a.size() != b.size()) return false;
    for(size_t i = 0; i < a.size(); ++i) if(!same(a[i], b[i])) return false;
    return true;
}

fl::ModuleVisitor& visitor(size_t tab)
{
    // Used for one script after the other.
    static std::map<size_t, std::unique_ptr<fl::ModuleVisitor>> visitors;
    auto& v = visitors[tab];
    if(!v) v.reset(new fl::ModuleVisitor(tab));
    return *v;
}

void check(seq::Context& ctx, L const& l, std::vector<size_t> const& tabs = {1, 4})
{
    auto s = instance(l);
    ctx.describe(text(s));
    ctx.nontrivial(text(s));
    auto tree = parse(ctx, s);
    if(!tree) return;
    for(auto tab: tabs) for(int again = 0; again < 2; ++again) {
        fl::ModuleVisitor fresh(tab);
        auto& v = again ? visitor(tab) : fresh;
        tree->Accept(v);
        S module = v.module();
        try {
            auto r = Reader(module).script();
            ctx.check(same(l, r), "another script", cat(text(s), " is written as '", module, "', which is ", text(instance(r))));
        }
        catch(Error const& e) { ctx.check(false, "unreadable", cat(text(s), " is written as '", module, "': ", e.what)); }
    }
    ctx.outcome("same script");
}

std::vector<S> const unary_names{"Invert", "Not", "UnaryAdd", "UnarySub"};
std::vector<S> const binary_names{"add", "Sub", "Mult", "Div", "Mod", "Pow", "LShift", "RShift", "BitOr", "BitXor", "BitAnd", "FloorDiv", "And", "Or", "Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"};

SUITE("C36", "scripts")
{
    Grammar g;
    g.leaves = {name("a"), string_("s"), number(Number())}; g.targets = {name("a"), make('[', "", {name("a"), name("b")})};
    g.operations = {{'f', "f", {0, 1, 2}}, {'o', "UnarySub", {1}}, {'o', "Sub", {2}}};
    g.subscript = g.attribute = g.if_ = g.while_ = true;
    for(unsigned size = 0; size <= (ctx.thorough() ? 5u : 4u); ++size) g.scripts(size, [&](L const& l) { if(ctx.begin()) check(ctx, l); });
}

SUITE("C36", "blocks")
{
    Grammar g;
    g.leaves = {name("a")}; g.targets = {};
    g.if_ = g.while_ = true;
    for(unsigned size = 1; size <= (ctx.thorough() ? 10u : 8u); ++size) g.scripts(size, [&](L const& l) { if(ctx.begin()) check(ctx, l, {1, 2, 3, 4, 8}); });
}

// Each operator and other expression in each place of each other one.
SUITE("C36", "operators")
{
    P const a = name("a"), b = name("b"), c = name("c"), d = name("d");
    using Make = std::function<P(P const&)>;
    std::vector<Make> all;
    for(auto const& o: unary_names) all.push_back([=](P const& p) { return make('o', o, {p}); });
    for(auto const& o: binary_names) { all.push_back([=](P const& p) { return make('o', o, {p, b}); }); all.push_back([=](P const& p) { return make('o', o, {b, p}); }); }
    all.push_back([=](P const& p) { return make('f', "f", {p}); });
    all.push_back([=](P const& p) { return make('f', "f", {c, p}); });
    all.push_back([=](P const& p) { return make('f', "f", {p, c, d}); });
    all.push_back([=](P const& p) { return make('[', "", {p, c}); });
    all.push_back([=](P const& p) { return make('[', "", {c, p}); });
    all.push_back([=](P const& p) { return make('.', "m", {p}); });
    Number minus; minus.i = -5; minus.text = "-5";
    Number half; half.kind = 'f'; half.f = .5; half.text = "0.5";
    for(auto const& leaf: L{a, string_("s"), number(Number()), number(minus), number(half), make('f', "f")}) {
        for(auto const& i: all) {
            if(ctx.begin()) check(ctx, {i(leaf)});
            for(auto const& o: all) {
                if(ctx.begin()) check(ctx, {o(i(leaf))}, {4});
                // Three levels for the operators next to each other.
                if(leaf == a) for(auto const& u: all) if(ctx.begin()) check(ctx, {u(o(i(leaf)))}, {4});
            }
        }
        for(auto const& i: all) if(ctx.begin()) check(ctx, {make('=', "", {name("x"), i(leaf)}), make('?', "", {i(leaf)}, {i(leaf)}, {a}), make('w', "", {i(leaf)}, {a}, {i(leaf)})});
    }
}

void number_cases(seq::Context& ctx, Number const& n)
{
    P p = number(n);
    for(auto const& l: std::vector<L>{{p}, {make('=', "", {name("a"), p})}, {make('o', "Sub", {p, p})}, {make('o', "UnarySub", {p})}, {make('f', "f", {p, p})}, {make('[', "", {p, p})}, {make('.', "m", {p})}, {make('?', "", {p}, {p}, {p})}})
        if(ctx.begin()) check(ctx, l, {4});
}

SUITE("C36", "numbers")
{
    for(int size: {8, 16, 32, 64}) {
        std::set<long long> values;
        long long most = size == 64 ? std::numeric_limits<long long>::max() : (1ll << (size - 1)) - 1;
        for(long long v = -130; v <= 130; ++v) if(v >= -most - 1 && v <= most) values.insert(v);
        // Larger ones are beyond what the XML parser takes.
        if(size > 8) for(long long v: {most > 2147483647 ? 2147483647ll : most, most > 2147483647 ? -2147483648ll : -most - 1, 1000ll, -1000ll, 32767ll, 255ll, 256ll, -129ll}) values.insert(v);
        for(auto v: values) { Number n; n.size = size; n.i = v; n.text = cat(v); number_cases(ctx, n); }
        std::set<unsigned long long> us;
        unsigned long long um = size == 64 ? ~0ull : (1ull << size) - 1;
        for(unsigned long long v = 0; v <= 260; ++v) if(v <= um) us.insert(v);
        for(unsigned long long v: {65535ull, 65536ull, 2147483647ull}) if(v <= um) us.insert(v);
        for(auto v: us) { Number n; n.kind = 'u'; n.size = size; n.u = v; n.text = cat(v); number_cases(ctx, n); }
    }
    std::vector<double> values{0., 1., 2., 5., 10., 100., 1000000., 1234567., 12345678., 123456789., 1e15, 1e16, 1e17, 1e21, 1e22, 1e300, .5, .1, .2, .3, 1. / 3, 2. / 3, 5.5, 1e-4, 1e-5, 1.5e-7, 3.14159265358979, 3.141592653589793, 1e-300, 4.9406564584124654e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
        9007199254740991., 9007199254740992., 9007199254740994., 123456.5, 1234567.5, 0.30000000000000004, 16777216., 16777217., 3.4028234663852886e38, 1.1754943508222875e-38, 1.401298464324817e-45};
    for(int k = 0; k < 40; ++k) { values.push_back(std::ldexp(1., k * 7 - 140) * 1.1); values.push_back(std::nextafter(std::pow(10., k - 20), 1e300)); }
    for(double v: values) for(int sign: {1, -1}) for(int size: {32, 64}) {
        double x = v * sign;
        if(size == 32) { if(std::fabs(x) > 3.5e38 || std::fabs(x) < 1.5e-45) { if(x != 0) continue; } x = (float)x; }
        char t[64]; snprintf(t, sizeof t, "%.*g", size == 32 ? 9 : 17, x);
        Number n; n.kind = 'f'; n.size = size; n.f = x; n.text = t;
        number_cases(ctx, n);
    }
}

SUITE("C36", "strings")
{
    std::vector<S> const parts{"a", "\"", "\\", "\n", "'", " ", "#", "n", "\t", "\r", "(", ":", "\xc3\xa9"};
    for(unsigned length = 1; length <= (ctx.thorough() ? 4u : 3u); ++length) seq::tuples(length, parts.size(), [&](std::vector<unsigned> const& d) {
        S s; for(auto i: d) s += parts[i];
        // White space at the ends is the business of the XML parser.
        P p = string_(s);
        for(auto const& l: std::vector<L>{{p}, {make('f', "f", {p, p})}, {make('?', "", {p}, {p}, {p})}}) if(ctx.begin()) check(ctx, l, {4});
    });
    if(ctx.begin()) check(ctx, {string_("")});
    if(ctx.begin()) check(ctx, {make('f', "f", {string_(""), string_("")})});
}

} // namespace
