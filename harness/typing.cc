// Annotation of scripts with types, and validation: all scripts up to a depth
// of nested operations, with all types of arguments.
#define SEQ_MAIN
#include "ast.h"
#include <boost/exception/all.hpp>
#include "fern/language/ast/visitor/annotate_visitor.h"
#include "fern/language/ast/visitor/validate_visitor.h"
#include "fern/language/operation/core/expression_type_calculation.h"
#include "fern/language/operation/core/operations.h"

using namespace script;
namespace fd = fern::detail;
using fern::DataTypes; using fern::ValueTypes; using fern::ExpressionType;

namespace {

class Op: public fl::Operation
{
public:
    Op(S const& name, std::vector<ExpressionType> const& p, ExpressionType const& r) : fl::Operation(name, "an operation", parameters_(p), {fl::Result("result", "a result", r)}) {}
    ExpressionType expression_type(size_t index, std::vector<ExpressionType> const& types) const override { return fl::standard_expression_type(*this, index, types); }
    std::vector<std::shared_ptr<fl::Argument>> execute(std::vector<std::shared_ptr<fl::Argument>> const&) const override { return {}; }
private:
    static std::vector<fl::Parameter> parameters_(std::vector<ExpressionType> const& types) { std::vector<fl::Parameter> r; for(auto const& t: types) r.emplace_back("parameter", "a parameter", t.data_type(), t.value_type()); return r; }
};

// Types as the model has them: sets of value types, by name, and of data types.
S const value_names[] = {"uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float32", "float64", "string"};
enum { U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, STR, NR_VALUES };
enum { CONSTANT = 1, FIELD = 2 };
unsigned const INTEGERS = (1u << 8) - 1, FLOATS = 1u << F32 | 1u << F64, NUMBERS = INTEGERS | FLOATS;
unsigned bit(int v) { return 1u << v; }
bool one(unsigned s) { return s && !(s & (s - 1)); }

struct Type { unsigned data = 0, value = 0; bool defined() const { return data && value; } bool operator==(Type const& o) const { return data == o.data && value == o.value; } };

ExpressionType real(Type const& t)
{
    if(!t.defined()) return ExpressionType();
    ValueTypes const values[] = {ValueTypes::UINT8, ValueTypes::INT8, ValueTypes::UINT16, ValueTypes::INT16, ValueTypes::UINT32, ValueTypes::INT32, ValueTypes::UINT64, ValueTypes::INT64, ValueTypes::FLOAT32, ValueTypes::FLOAT64, ValueTypes::STRING};
    ValueTypes v; DataTypes d;
    for(int i = 0; i < NR_VALUES; ++i) if(t.value & bit(i)) v |= values[i];
    if(t.data & CONSTANT) d |= DataTypes::CONSTANT;
    if(t.data & FIELD) d |= DataTypes::STATIC_FIELD;
    return ExpressionType(d, v);
}

S describe(Type const& t) { S r = t.data == 1 ? "constant/" : t.data == 2 ? "field/" : t.data ? "any/" : "undefined/"; for(int i = 0; i < NR_VALUES; ++i) if(t.value & bit(i)) r += value_names[i] + " "; return r; }

struct Definition {
    S name; std::vector<Type> parameters; Type result;
    // For arguments that satisfy the parameters, and have one type each.
    Type type(std::vector<Type> const& a) const
    {
        Type r;
        unsigned data = 0, values = 0;
        for(auto const& x: a) { data |= x.data; values |= x.value; }
        r.data = one(result.data) ? result.data : data & FIELD ? FIELD : CONSTANT;
        if(one(result.value)) r.value = result.value;
        // The widest: floating point before integral, more bits before less, unsigned before signed.
        else for(int v: {F64, F32, U64, I64, U32, I32, U16, I16, U8, I8, STR}) if(values & bit(v)) { r.value = bit(v); break; }
        return r;
    }
    static bool satisfied(Type const& p, Type const& a) { return (a.data & ~p.data) == 0 && (a.value & ~p.value) == 0; }
};

std::vector<Definition> const& definitions()
{
    unsigned const any = CONSTANT | FIELD;
    static std::vector<Definition> const r = {
        {"add", {{any, NUMBERS}, {any, NUMBERS}}, {any, NUMBERS}},
        {"abs", {{any, NUMBERS}}, {any, NUMBERS}},
        {"int32", {{any, NUMBERS}}, {any, bit(I32)}},
        {"cover", {{FIELD, NUMBERS}, {CONSTANT, NUMBERS}}, {FIELD, NUMBERS}},
        {"pick", {{any, bit(U8)}, {any, FLOATS}}, {any, bit(U8) | FLOATS}},
        {"read", {{CONSTANT, bit(STR)}}, {FIELD, bit(I16)}},
        {"pi", {}, {CONSTANT, bit(F64)}},
        {"if_then", {{any, bit(U8)}, {any, NUMBERS}, {any, NUMBERS}}, {any, NUMBERS}},
    };
    return r;
}

Definition const* find(S const& name) { for(auto const& d: definitions()) if(d.name == name) return &d; return nullptr; }

std::map<S, fl::OperationPtr> const& real_operations()
{
    static std::map<S, fl::OperationPtr> const r = []{
        std::map<S, fl::OperationPtr> r;
        for(auto const& d: definitions()) { std::vector<ExpressionType> p; for(auto const& x: d.parameters) p.push_back(real(x)); r[d.name] = std::make_shared<Op>(d.name, p, real(d.result)); }
        return r;
    }();
    return r;
}

fl::OperationsPtr operations()
{
    auto const& r = real_operations();
    static fl::OperationsPtr const p = std::make_shared<fl::Operations>(std::initializer_list<fl::OperationPtr>{r.at("add"), r.at("abs"), r.at("int32"), r.at("cover"), r.at("pick"), r.at("read"), r.at("pi"), r.at("if_then")});
    return p;
}

Number a_number(char kind, int size) { Number n; n.kind = kind; n.size = size; n.text = kind == 'f' ? "5.5" : "5"; n.f = 5.5; return n; }

// The global symbols, one of each type.
std::map<S, Type> const& globals()
{
    static std::map<S, Type> const r = []{
        std::map<S, Type> r;
        for(int v = 0; v < NR_VALUES; ++v) { r["c_" + value_names[v]] = {CONSTANT, bit(v)}; r["f_" + value_names[v]] = {FIELD, bit(v)}; }
        return r;
    }();
    return r;
}

struct Error { S kind, name; long line = 0, col = 0; size_t required = 0, provided = 0, argument = 0; S required_types, provided_types; };
S show(Error const& e) { return e.kind.empty() ? S("no error") : cat(e.kind, " ", e.name, " at ", e.line, ":", e.col, " ", e.required, "/", e.provided, " argument ", e.argument, " ", e.required_types, "/", e.provided_types); }
bool operator==(Error const& a, Error const& b) { return a.kind == b.kind && a.name == b.name && a.line == b.line && a.col == b.col && a.required == b.required && a.provided == b.provided && a.argument == b.argument && a.required_types == b.required_types && a.provided_types == b.provided_types; }

template<class Info> typename Info::value_type get(fd::Exception const& e) { auto* p = boost::get_error_info<Info>(e); return p ? *p : typename Info::value_type(); }

template<class F> Error caught(F const& f)
{
    Error r;
    auto common = [&](S const& kind, fd::Exception const& e) { r.kind = kind; r.line = get<fd::ExceptionLineNr>(e); r.col = get<fd::ExceptionColNr>(e); };
    try { f(); }
    catch(fd::UndefinedIdentifier const& e) { common("identifier", e); r.name = get<fd::ExceptionIdentifier>(e); }
    catch(fd::UndefinedOperation const& e) { common("operation", e); r.name = get<fd::ExceptionFunction>(e); }
    catch(fd::WrongNumberOfArguments const& e) { common("number", e); r.name = get<fd::ExceptionFunction>(e); r.required = get<fd::ExceptionRequiredNrArguments>(e); r.provided = get<fd::ExceptionProvidedNrArguments>(e); }
    catch(fd::WrongTypeOfArgument const& e) { common("type", e); r.name = get<fd::ExceptionFunction>(e); r.argument = get<fd::ExceptionArgumentId>(e); r.required_types = get<fd::ExceptionRequiredArgumentTypes>(e); r.provided_types = get<fd::ExceptionProvidedArgumentTypes>(e); }
    catch(std::exception const& e) { r.kind = typeid(e).name(); }
    return r;
}

struct Model {
    std::map<S, Type> symbols = globals();
    Error error;
    // Types of the expressions, as far as these are valid.
    std::map<T*, Type> types;

    S text(Type const& t) { std::ostringstream s; s << real(t); return s.str(); }
    void fail(T& t, S const& kind, S const& name) { if(error.kind.empty()) { error.kind = kind; error.name = name; error.line = t.line; error.col = t.col; } }

    // Whether the expression is valid.
    bool visit(T& t)
    {
        Type r;
        switch(t.n->kind) {
            case 'n': { auto i = symbols.find(t.n->name); if(i != symbols.end()) r = i->second; if(!r.defined()) { fail(t, "identifier", t.n->name); return false; } break; }
            case 's': r = {CONSTANT, bit(STR)}; break;
            case '#': { auto const& n = t.n->number; int k = n.size == 8 ? 0 : n.size == 16 ? 2 : n.size == 32 ? 4 : 6; r = {CONSTANT, bit(n.kind == 'f' ? n.size == 32 ? F32 : F64 : n.kind == 'u' ? k : k + 1)}; break; }
            default: {
                bool valid = true; std::vector<Type> a;
                for(auto& x: t.e) { if(visit(x)) a.push_back(types.at(&x)); else valid = false; }
                if(!valid) return false;
                auto* d = find(t.n->name);
                if(!d) { fail(t, "operation", t.n->name); return false; }
                if(d->parameters.size() != a.size()) { bool first = error.kind.empty(); fail(t, "number", t.n->name); if(first) { error.required = d->parameters.size(); error.provided = a.size(); } return false; }
                for(size_t i = 0; i < a.size(); ++i) if(!Definition::satisfied(d->parameters[i], a[i])) {
                    bool first = error.kind.empty(); fail(t, "type", t.n->name);
                    if(first) { error.argument = i + 1; error.required_types = text(d->parameters[i]); error.provided_types = text(a[i]); }
                    return false;
                }
                r = d->type(a);
            }
        }
        types[&t] = r;
        return true;
    }
};

void check_types(seq::Context& ctx, T& t, Model& m, Script& s)
{
    for(auto& x: t.e) check_types(ctx, x, m, s);
    for(auto& b: t.block) for(auto& x: b) check_types(ctx, x, m, s);
    if(!m.types.count(&t)) return;
    auto* v = dynamic_cast<fl::ExpressionVertex*>(t.v);
    auto const& types = v->expression_types();
    std::ostringstream shown; shown << types;
    ctx.check(types.size() == 1 && types[0] == real(m.types[&t]), t.n->kind == 'n' ? "type of a name" : t.e.empty() && t.n->kind != 'f' ? "type of a constant" : "type of an operation",
        cat("in ", text(s), ": ", text(t), " is ", shown.str(), ", must be ", describe(m.types[&t])));
    if(t.n->kind == 'f' || t.n->kind == 'o') {
        auto* o = dynamic_cast<fl::OperationVertex*>(t.v);
        ctx.check(o->operation() == real_operations().at(t.n->name), "operation", cat("in ", text(s), ": ", t.n->name, " is another operation, or none"));
    }
}

void run(seq::Context& ctx, L const& l)
{
    if(!ctx.begin()) return;
    auto s = instance(l);
    ctx.describe(text(s));
    auto tree = parse(ctx, s);
    if(!tree) return;
    Model m;
    for(auto& t: s.statements) {
        if(t.n->kind == '=') {
            bool valid = m.visit(t.e[1]);
            m.symbols[t.e[0].n->name] = valid ? m.types[&t.e[1]] : Type();
            if(valid) m.types[&t.e[0]] = m.types[&t.e[1]];
        }
        else m.visit(t);
    }
    fl::AnnotateVisitor annotate(operations());
    {
        fern::SymbolTable<ExpressionType> table; table.push_scope();
        for(auto const& g: globals()) table.add_value(g.first, real(g.second));
        annotate.add_global_symbols(table);
        table.pop_scope();
    }
    tree->Accept(annotate);
    for(auto& t: s.statements) check_types(ctx, t, m, s);
    fl::ValidateVisitor validate;
    auto e = caught([&]{ tree->Accept(validate); });
    ctx.check(e == m.error, m.error.kind.empty() ? "valid script" : "error", cat(text(s), ": ", show(e), ", must be ", show(m.error)));
    ctx.outcome(m.error.kind.empty() ? "valid" : m.error.kind);
    ctx.nontrivial(text(s));
}

L leaves(bool all)
{
    L r = {number(a_number('i', 64)), number(a_number('f', 64)), string_("s"), name("undefined")};
    if(all) for(int size: {8, 16, 32, 64}) { if(size != 64) r.push_back(number(a_number('i', size))); r.push_back(number(a_number('u', size))); }
    if(all) r.push_back(number(a_number('f', 32)));
    for(auto const& g: globals()) if(all || g.first == "f_int16" || g.first == "c_uint8" || g.first == "f_float32" || g.first == "f_uint8") r.push_back(name(g.first));
    return r;
}

template<class F> void calls(L const& a, bool three, F const& f)
{
    f(make('f', "pi")); f(make('f', "unknown"));
    for(auto const& x: a) for(S n: {"abs", "int32", "read", "unknown", "add", "pi"}) f(make('f', n, {x}));
    for(auto const& x: a) for(auto const& y: a) { for(S n: {"add", "cover", "pick", "abs", "unknown"}) f(make('f', n, {x, y})); f(make('o', "add", {x, y})); f(make('o', "Sub", {x, y})); }
    if(three) for(auto const& x: a) for(auto const& y: a) for(auto const& z: a) f(make('f', "if_then", {x, y, z}));
}

SUITE("C30", "operations on all types")
{
    for(auto const& x: leaves(true)) run(ctx, {x});
    calls(leaves(true), true, [&](P const& p) { run(ctx, {p}); });
}

SUITE("C30", "nested operations")
{
    auto a = leaves(false);
    L inner(a);
    calls(a, false, [&](P const& p) { inner.push_back(p); });
    auto const& outer = inner;
    for(auto const& x: outer) for(S n: {"abs", "int32", "read"}) run(ctx, {make('f', n, {x})});
    for(auto const& x: outer) for(auto const& y: ctx.thorough() ? outer : a) for(S n: {"add", "cover", "pick"}) { run(ctx, {make('f', n, {x, y})}); if(!ctx.thorough()) run(ctx, {make('f', n, {y, x})}); }
}

SUITE("C30", "assignments")
{
    // What names stand for changes along the way.
    L e = {number(a_number('i', 64)), number(a_number('f', 32)), name("a"), name("b"), name("f_int16"), make('f', "abs", {name("a")}), make('o', "add", {name("a"), name("b")}), make('f', "cover", {name("a"), name("b")}), make('f', "read", {string_("s")})};
    L statements;
    for(S n: {"a", "b", "f_int16"}) for(auto const& x: e) statements.push_back(make('=', "", {name(n), x}));
    for(auto const& x: e) statements.push_back(x);
    for(unsigned n = 1; n <= (ctx.thorough() ? 4u : 3u); ++n) seq::tuples(n, statements.size(), [&](auto const& t) { L l; for(auto k: t) l.push_back(statements[k]); run(ctx, l); });
}

} // namespace
