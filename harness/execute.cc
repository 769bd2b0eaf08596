// Execution of scripts: all scripts up to a size, and all histories of
// scripts, inputs and outputs up to a length, for the same interpreter.
// Operations, inputs and outputs record what happens.
#define SEQ_MAIN
#include "ast.h"
#include "fern/language/feature/core/constant_attribute.h"
#include "fern/language/interpreter/data_sources.h"
#include "fern/language/interpreter/data_syncs.h"
#include "fern/language/interpreter/execute_visitor.h"
#include "fern/language/operation/core/attribute_argument.h"
#include "fern/language/operation/core/operations.h"

using namespace script;

namespace {

using Log = std::vector<S>;
using ArgumentPtr = std::shared_ptr<fl::Argument>;

// What happens, in order. Each result has the number of the event it is from.
struct Recorder { Log log; S event(S const& what) { log.push_back(what); return cat(what, "$", log.size()); } };

Recorder* recorder = nullptr;

ArgumentPtr text_argument(S const& s) { return std::make_shared<fl::AttributeArgument>(std::make_shared<fl::ConstantAttribute<S>>(s)); }

template<class T> bool is(fl::Attribute const* a, S& r, char kind, int size)
{
    auto const* c = dynamic_cast<fl::ConstantAttribute<T> const*>(a);
    if(c) r = cat("#", kind, size, " ", +c->values().value());
    return c;
}

S term(fl::Argument const& argument)
{
    if(argument.argument_type() != fl::ArgumentType::AT_ATTRIBUTE) return "?";
    auto const* a = dynamic_cast<fl::AttributeArgument const&>(argument).attribute().get();
    S r;
    if(auto const* s = dynamic_cast<fl::ConstantAttribute<S> const*>(a)) return s->values().value();
    if(is<int8_t>(a, r, 'i', 8) || is<int16_t>(a, r, 'i', 16) || is<int32_t>(a, r, 'i', 32) || is<int64_t>(a, r, 'i', 64) ||
        is<uint8_t>(a, r, 'u', 8) || is<uint16_t>(a, r, 'u', 16) || is<uint32_t>(a, r, 'u', 32) || is<uint64_t>(a, r, 'u', 64) ||
        is<float>(a, r, 'f', 32) || is<double>(a, r, 'f', 64)) return r;
    return "?";
}

class Op: public fl::Operation
{
public:
    Op(S const& name, unsigned arity) : fl::Operation(name, "an operation", std::vector<fl::Parameter>(arity, fl::Parameter("p", "a parameter", fern::DataTypes::ALL, fern::ValueTypes::ALL)), {fl::Result("r", "a result", fern::ExpressionType(fern::DataTypes::ALL, fern::ValueTypes::ALL))}) {}
    std::vector<ArgumentPtr> execute(std::vector<ArgumentPtr> const& arguments) const override
    {
        S what = name() + "(";
        for(auto const& a: arguments) what += (a ? term(*a) : S("nothing")) + ",";
        return {text_argument(recorder->event(what + ")"))};
    }
};

class Source: public fl::DataSource
{
public:
    explicit Source(S const& name) : name(name), type(fern::DataTypes::CONSTANT, fern::ValueTypes::STRING) {}
    fern::ExpressionType const& expression_type() const override { return type; }
    ArgumentPtr read() const override { return text_argument(recorder->event("read " + name)); }
    S name; fern::ExpressionType type;
};

class Sync: public fl::DataSync
{
public:
    explicit Sync(S const& name) : name(name) {}
    void write(fl::Argument const& argument) override { recorder->event("write " + name + " " + term(argument)); }
    S name;
};

fl::OperationsPtr all_operations()
{
    std::vector<fl::OperationPtr> r;
    for(auto const& x: std::vector<std::pair<S, unsigned>>{{"f0", 0}, {"f1", 1}, {"f2", 2}, {"f3", 3}, {"add", 2}, {"UnarySub", 1}, {"a", 1}}) r.push_back(std::make_shared<Op>(x.first, x.second));
    return std::make_shared<fl::Operations>(r);
}

// What must happen.
struct Model {
    Recorder events;
    std::map<S, S> values; std::map<S, S> sources, syncs; std::vector<S> stack;
    bool undefined = false;

    S evaluate(T const& t)
    {
        auto const& n = *t.n;
        switch(n.kind) {
            case 'n': {
                auto i = values.find(n.name);
                if(i != values.end()) return i->second;
                auto s = sources.find(n.name);
                if(s == sources.end()) { undefined = true; return "?"; }
                return values[n.name] = events.event("read " + s->second);
            }
            case 's': return n.name;
            case '#': return cat("#", n.number.kind, n.number.size, " ", n.number.text);
            default: {
                S what = n.name + "(";
                for(auto const& x: t.e) what += evaluate(x) + ",";
                return events.event(what + ")");
            }
        }
    }
    void run(Script const& s)
    {
        for(size_t i = 0; i < s.statements.size() && !undefined; ++i) {
            auto const& t = s.statements[i];
            if(t.n->kind != '=') { stack.push_back(evaluate(t)); continue; }
            S v = evaluate(t.e[1]); auto const& name = t.e[0].n->name;
            bool last = true;
            for(size_t j = i + 1; j < s.statements.size(); ++j) last = last && !(s.statements[j].n->kind == '=' && s.statements[j].e[0].n->name == name);
            auto o = syncs.find(name);
            if(last && o != syncs.end()) events.event("write " + o->second + " " + v);
            values[name] = v;
        }
    }
};

unsigned const unchanged = 99;
// Before a script runs: the inputs and outputs that are set (bits of names),
// or unchanged, and whether the stack is cleared.
struct Step { unsigned sources, syncs; bool clear; L script; };

std::vector<S> const names{"a", "b", "c"};

S text(Step const& s)
{
    auto set = [](unsigned bits) { S r; for(size_t i = 0; i < names.size(); ++i) if(bits & (1u << i)) r += names[i]; return r.empty() ? S("none") : r; };
    return cat(s.sources == unchanged ? S() : "inputs " + set(s.sources) + ", ", s.syncs == unchanged ? S() : "outputs " + set(s.syncs) + ", ", s.clear ? "stack cleared, " : "", "{", text(instance(s.script)), "}");
}

void execute(seq::Context& ctx, std::vector<Step> const& history)
{
    // Names without a value are outside of the space.
    auto model_step = [](Model& m, Step const& x, Script const& s, size_t k) {
        if(x.sources != unchanged) { m.sources.clear(); for(size_t i = 0; i < names.size(); ++i) if(x.sources & (1u << i)) { m.sources[names[i]] = cat(names[i], k); m.values.erase(names[i]); } }
        if(x.syncs != unchanged) { m.syncs.clear(); for(size_t i = 0; i < names.size(); ++i) if(x.syncs & (1u << i)) m.syncs[names[i]] = cat(names[i], k); }
        if(x.clear) m.stack.clear();
        m.run(s);
    };
    {
        Model m; for(size_t k = 0; k < history.size(); ++k) model_step(m, history[k], instance(history[k].script), k);
        if(m.undefined) return;
    }
    if(!ctx.begin()) return;
    S description; for(auto const& x: history) description += (description.empty() ? "" : "; then ") + text(x);
    ctx.describe(description);
    Model m; Recorder real; recorder = &real;
    static fl::OperationsPtr const operations = all_operations();
    fl::ExecuteVisitor visitor(operations);
    for(size_t k = 0; k < history.size(); ++k) {
        auto const& x = history[k];
        auto s = instance(x.script);
        auto tree = parse(ctx, s);
        if(!tree) return;
        model_step(m, x, s, k);
        if(x.sources != unchanged) {
            fern::SymbolTable<std::shared_ptr<fl::DataSource>> table; if(x.sources) table.push_scope();
            for(size_t i = 0; i < names.size(); ++i) if(x.sources & (1u << i)) table.add_value(names[i], std::shared_ptr<fl::DataSource>(new Source(cat(names[i], k)), [](fl::DataSource* p) { delete static_cast<Source*>(p); }));
            visitor.set_data_source_symbols(table);
        }
        if(x.syncs != unchanged) {
            fern::SymbolTable<std::shared_ptr<fl::DataSync>> table; if(x.syncs) table.push_scope();
            for(size_t i = 0; i < names.size(); ++i) if(x.syncs & (1u << i)) table.add_value(names[i], std::shared_ptr<fl::DataSync>(new Sync(cat(names[i], k)), [](fl::DataSync* p) { delete static_cast<Sync*>(p); }));
            visitor.set_data_sync_symbols(table);
        }
        if(x.clear) visitor.clear_stack();
        tree->Accept(visitor);
        ++ctx.transitions;
        auto joined = [](Log const& l) { S r; for(auto const& e: l) r += e + "; "; return r; };
        ctx.check(real.log == m.events.log, "events", cat("happened: ", joined(real.log), " must be: ", joined(m.events.log)));
        Log stack; for(auto copy = visitor.stack(); !copy.empty(); copy.pop()) stack.insert(stack.begin(), term(*copy.top()));
        ctx.check(stack == m.stack, "results", cat("results: ", joined(stack), " must be: ", joined(m.stack)));
        auto const& table = visitor.symbol_table();
        ctx.check(table.size() == m.values.size() && table.scope_level() == 1, "number of values", cat("is ", table.size(), ", must be ", m.values.size()));
        for(auto const& v: m.values) {
            bool has = table.has_value(v.first);
            ctx.check(has && term(*table.value(v.first)) == v.second, "value", cat(v.first, " is ", has ? term(*table.value(v.first)) : "nothing", ", must be ", v.second));
        }
        for(auto const& n: names) if(!m.values.count(n)) ctx.check(!table.has_value(n), "value of unknown name", n);
    }
    ctx.outcome(cat(m.events.log.size(), " events, ", m.stack.size(), " results"));
    ctx.nontrivial(description);
}

Number num(char kind, int size, long long v) { Number n; n.kind = kind; n.size = size; n.text = cat(v); n.i = v; n.u = v; n.f = v; return n; }

} // namespace

SUITE("C41", "scripts")
{
    Grammar g; g.leaves = {name("a"), name("b"), number(Number())}; g.targets = {name("a"), name("b")};
    g.operations = {{'f', "f0", {0}}, {'f', "f2", {2}}, {'o', "UnarySub", {1}}, {'f', "a", {1}}};
    for(unsigned size = 0; size <= (ctx.thorough() ? 7u : 6u); ++size) g.scripts(size, [&](L const& l) {
        execute(ctx, {{3, 3, false, l}});
        if(size < 6) { execute(ctx, {{unchanged, unchanged, false, l}}); execute(ctx, {{2, 1, false, l}}); }
    });
}

// More assignments.
SUITE("C41", "assignments")
{
    Grammar g; g.leaves = {name("a"), name("b")}; g.targets = {name("a"), name("b"), name("c")}; g.operations = {{'f', "f1", {1}}};
    unsigned const count = ctx.thorough() ? 4u : 3u;
    L statements; for(unsigned size = 1; size <= 4; ++size) for(auto const& p: g.statements(size, false)) if(p->kind == '=' || p->kind == 'n') statements.push_back(p);
    for(unsigned n = 1; n <= count; ++n) seq::tuples(n, statements.size(), [&](auto const& t) {
        L l; for(auto k: t) l.push_back(statements[k]);
        execute(ctx, {{3, 7, false, l}});
    });
}

SUITE("C41", "deep expressions")
{
    Grammar g; g.leaves = {name("a"), string_("s")}; g.operations = {{'o', "add", {2}}, {'f', "f3", {3}}, {'f', "f1", {1}}};
    for(unsigned size = 1; size <= (ctx.thorough() ? 8u : 7u); ++size) for(auto const& e: g.expressions(size)) {
        execute(ctx, {{1, 2, false, {e}}});
        execute(ctx, {{1, 2, false, {make('=', "", {name("b"), e}), name("b")}}});
    }
}

SUITE("C41", "numbers and strings")
{
    for(char kind: {'i', 'u', 'f'}) for(int size: {8, 16, 32, 64}) for(long long v: {0, 1, 5, 100, -3}) {
        if((kind == 'f' && size < 32) || (kind == 'u' && v < 0)) continue;
        execute(ctx, {{0, 1, false, {make('=', "", {name("a"), number(num(kind, size, v))}), make('f', "f1", {number(num(kind, size, v))})}}});
    }
    for(S s: {"", " ", "a", "a\"b", "\n", "f1(,)"}) execute(ctx, {{0, 1, false, {make('=', "", {name("a"), string_(s)}), string_(s), make('f', "f1", {name("a")})}}});
}

// One interpreter after the other script, as in an interactive session.
SUITE("C41", "sessions")
{
    std::vector<L> scripts{
        {make('=', "", {name("a"), number(Number())})}, {make('=', "", {name("b"), name("a")})}, {name("a"), make('f', "f1", {name("b")})},
        {make('=', "", {name("a"), make('f', "f1", {name("a")})}), make('=', "", {name("a"), make('f', "f1", {name("a")})})}, {}};
    std::vector<Step> steps;
    for(unsigned sources: {unchanged, 0u, 1u, 3u}) for(unsigned syncs: {unchanged, 0u, 1u}) for(bool clear: {false, true}) for(auto const& l: scripts) {
        if(clear && l.empty()) continue;
        if(!ctx.thorough() && clear && (sources == 0 || syncs == 0)) continue;
        steps.push_back({sources, syncs, clear, l});
    }
    for(unsigned n = 1; n <= 3; ++n) {
        if(n == 3 && !ctx.thorough()) {
            // The second may only set inputs, the third nothing.
            for(auto const& x: steps) for(auto const& y: steps) for(auto const& l: scripts) if(!y.clear && y.syncs == unchanged) execute(ctx, {x, y, {unchanged, unchanged, false, l}});
            continue;
        }
        seq::tuples(n, steps.size(), [&](auto const& t) { std::vector<Step> h; for(auto k: t) h.push_back(steps[k]); execute(ctx, h); });
    }
}
