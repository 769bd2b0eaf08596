// Scopes, symbol tables, stacks and scope exits against models, over all
// sequences of operations.
#define SEQ_MAIN
#include "seq.h"
#include <cassert>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include "fern/core/scope.h"
#include "fern/core/scope_exit.h"
#include "fern/core/stack.h"
#include "fern/language/core/symbol_table.h"

using seq::cat;
using S = std::string;

namespace {

using Map = std::map<S, int>;
S const names[] = {"a", "b", "ab"};

void same_scope(seq::Context& ctx, fern::Scope<int> const& s, Map const& m, char const* what)
{
    ctx.check(s.size() == m.size(), cat(what, " size"), cat("size is ", s.size(), ", must be ", m.size()));
    Map visited; size_t n = 0;
    for(auto const& x: s) { visited[x.first] = x.second; ++n; }
    ctx.check(visited == m && n == m.size(), cat(what, " iteration"), "iteration gives other names or values");
    for(auto const& name: names) {
        auto i = m.find(name);
        ctx.check(s.has_value(name) == (i != m.end()), cat(what, " has value"), name);
        if(i != m.end() && s.has_value(name)) ctx.check(s.value(name) == i->second, cat(what, " value"), cat(name, " is ", s.value(name), ", must be ", i->second));
    }
}

// Every sequence of operations; Real is copied at each step, so that copies
// are seen to be independent as well.
template<class Real, class Model> struct Op { S text; std::function<bool(Model const&)> possible; std::function<void(Real&)> real; std::function<void(Model&)> model; };

template<class Real, class Model, class Same> void explore(seq::Context& ctx, std::vector<Op<Real, Model>> const& ops, unsigned depth, Same const& same, S const& what)
{
    struct Explorer {
        seq::Context& ctx; std::vector<Op<Real, Model>> const& ops; Same const& same; S const& what;
        void go(Real const& real, Model const& model, S const& history, unsigned depth, unsigned left)
        {
            // One case for each history of two operations and all that follow.
            if(depth == 2 && !ctx.begin()) return;
            if(depth >= 2) {
                ctx.describe(cat(what, ": ", history));
                ctx.outcome(same(real, model, true));
            }
            if(left == 0) return;
            for(auto const& op: ops) {
                if(!op.possible(model)) continue;
                ++ctx.transitions;
                Real next(real); Model after(model);
                op.real(next); op.model(after);
                S text = history.empty() ? op.text : history + "; " + op.text;
                // By assignment, move and move assignment.
                Real moved(std::move(next)), assigned, moved_again;
                assigned = moved;
                moved_again = std::move(moved);
                if(depth >= 1 || left == 1) { ctx.describe(cat(what, ": ", text)); same(moved_again, after, false); }
                go(assigned, after, text, depth + 1, left - 1);
            }
            if(depth >= 2) { ctx.describe(cat(what, ": ", history, " (after changing copies)")); same(real, model, false); }
        }
    } explorer{ctx, ops, same, what};
    explorer.go(Real(), Model(), "", 0, depth);
}

SUITE("C24", "scopes")
{
    using R = fern::Scope<int>;
    std::vector<Op<R, Map>> ops;
    for(auto const& name: names) {
        for(int v: {0, 7}) ops.push_back({cat(name, " = ", v), [](Map const&) { return true; }, [=](R& r) { r.set_value(name, v); }, [=](Map& m) { m[name] = v; }});
        ops.push_back({"erase " + name, [=](Map const& m) { return m.count(name) > 0; }, [=](R& r) { r.erase_value(name); }, [=](Map& m) { m.erase(name); }});
    }
    ops.push_back({"clear", [](Map const&) { return true; }, [](R& r) { r.clear(); }, [](Map& m) { m.clear(); }});
    explore<R, Map>(ctx, ops, ctx.thorough() ? 6 : 5, [&](R const& r, Map const& m, bool count) {
        same_scope(ctx, r, m, "scope");
        if(count) { uint64_t h = 1; for(auto const& x: m) h = seq::mix(seq::mix(h, seq::hash(x.first)), x.second); ctx.nontrivial(h); }
        return cat(m.size());
    }, "scope");
}

SUITE("C24", "symbol tables")
{
    using R = fern::SymbolTable<int>;
    using M = std::vector<Map>;
    std::vector<Op<R, M>> ops;
    auto any = [](M const&) { return true; };
    auto some = [](M const& m) { return !m.empty(); };
    ops.push_back({"push", any, [](R& r) { r.push_scope(); }, [](M& m) { m.emplace_back(); }});
    ops.push_back({"pop", some, [](R& r) { r.pop_scope(); }, [](M& m) { m.pop_back(); }});
    ops.push_back({"clear", some, [](R& r) { r.clear_scope(); }, [](M& m) { m.back().clear(); }});
    for(auto const& name: {names[0], names[2]}) {
        for(int v: {0, 7}) ops.push_back({cat(name, " = ", v), some, [=](R& r) { r.add_value(name, v); }, [=](M& m) { m.back()[name] = v; }});
        ops.push_back({"erase " + name, [=](M const& m) { return !m.empty() && m.back().count(name); }, [=](R& r) { r.erase_value(name); }, [=](M& m) { m.back().erase(name); }});
    }
    explore<R, M>(ctx, ops, ctx.thorough() ? 8 : 6, [&](R const& r, M const& m, bool count) {
        size_t total = 0;
        for(auto const& s: m) total += s.size();
        ctx.check(r.size() == total && r.empty() == (total == 0), "size", cat("size is ", r.size(), ", must be ", total));
        ctx.check(r.scope_level() == m.size(), "level", cat("level is ", r.scope_level(), ", must be ", m.size()));
        for(size_t i = 0; i < m.size() && i < r.scope_level(); ++i) same_scope(ctx, r.scope(i + 1), m[i], "scope of the table");
        for(auto const& name: names) {
            size_t level = m.size();
            while(level > 0 && !m[level - 1].count(name)) --level;
            ctx.check(r.has_value(name) == (level > 0), "has value", name);
            if(level > 0 && r.has_value(name)) {
                ctx.check(r.value(name) == m[level - 1].at(name), "value", cat(name, " is ", r.value(name), ", must be ", m[level - 1].at(name)));
                ctx.check(r.scope_level(name) == level, "level of a name", cat(name, " is at ", r.scope_level(name), ", must be ", level));
            }
        }
        if(count) { uint64_t h = m.size(); for(auto const& s: m) { h = seq::mix(h, 99); for(auto const& x: s) h = seq::mix(seq::mix(h, seq::hash(x.first)), x.second); } ctx.nontrivial(h); }
        return cat(m.size(), " scopes");
    }, "symbol table");
}

SUITE("C24", "stacks")
{
    struct V { int kind, value; };
    using R = fern::Stack;
    using M = std::vector<V>;
    std::vector<Op<R, M>> ops;
    auto any = [](M const&) { return true; };
    for(int v: {1, 2}) {
        ops.push_back({cat("push ", v), any, [=](R& r) { r.push(v); }, [=](M& m) { m.push_back({0, v}); }});
        ops.push_back({cat("push \"", v, "\""), any, [=](R& r) { r.push(std::to_string(v)); }, [=](M& m) { m.push_back({1, v}); }});
    }
    ops.push_back({"push 1.0", any, [](R& r) { r.push(1.0); }, [](M& m) { m.push_back({2, 1}); }});
    ops.push_back({"pop", [](M const& m) { return !m.empty(); }, [](R& r) { r.pop(); }, [](M& m) { m.pop_back(); }});
    explore<R, M>(ctx, ops, ctx.thorough() ? 8 : 6, [&](R const& real, M m, bool count) {
        if(count) { uint64_t h = 1; for(auto const& v: m) h = seq::mix(h, v.kind * 10 + v.value); ctx.nontrivial(h); }
        auto result = cat(m.size(), " values");
        R r(real);
        ctx.check(r.size() == m.size() && r.empty() == m.empty(), "stack size", cat("size is ", r.size(), ", must be ", m.size()));
        while(!m.empty() && !r.empty()) {
            auto const& v = m.back();
            auto get = [&](auto const& type) -> std::optional<double> {
                using T = std::decay_t<decltype(type)>;
                try {
                    T const& t = r.template top<T>();
                    if constexpr(std::is_same<T, S>::value) return std::stod(t); else return (double)t;
                } catch(boost::bad_any_cast const&) { return {}; }
            };
            std::optional<double> top[] = {get(int()), get(S()), get(double())};
            for(int k = 0; k < 3; ++k)
                ctx.check(k == v.kind ? top[k] && *top[k] == v.value : !top[k], "top of the stack", cat("as kind ", k, top[k] ? cat(" it is ", *top[k]) : S(" it is refused"), ", pushed was ", v.value, " of kind ", v.kind));
            r.pop(); m.pop_back();
        }
        ctx.check(r.empty() == m.empty(), "stack size", "popping all values does not leave the stack empty");
        return result;
    }, "stack");
}

// Scope exits -----------------------------------------------------------------

template<class F> using Exit = fern::ScopeExit<F>;

// All ways to nest two instances, move them on, release them or not, before
// or after the move, and leave normally or by an exception.
struct Thrown {};

SUITE("C26", "scope exits")
{
    // Actions on a set of instances: make one, move one to a new one, release one, destroy one.
    struct Live { bool armed; int id; };
    unsigned const depth = ctx.thorough() ? 7 : 6;
    std::vector<int> history;
    auto run = [&](bool functions) {
        S text = functions ? "std::function:" : "lambda:";
        std::vector<int> calls, want;
        auto make = [&](int id) { return [&calls, id]() { calls.push_back(id); }; };
        using L = decltype(make(0));
        std::vector<std::unique_ptr<Exit<L>>> l; std::vector<std::unique_ptr<Exit<std::function<void()>>>> f;
        std::vector<std::optional<Live>> model;
        int made = 0;
        for(int h: history) {
            unsigned action = h % 4, i = h / 4;
            switch(action) {
                case 0:
                    text += cat(" make ", made, ";");
                    if(functions) f.push_back(std::make_unique<Exit<std::function<void()>>>(fern::makeScopeExit(std::function<void()>(make(made)))));
                    else l.push_back(std::make_unique<Exit<L>>(fern::makeScopeExit(make(made))));
                    model.push_back(Live{true, made++});
                    break;
                case 1:
                    text += cat(" move instance ", i, ";");
                    if(functions) f.push_back(std::make_unique<Exit<std::function<void()>>>(std::move(*f[i])));
                    else l.push_back(std::make_unique<Exit<L>>(std::move(*l[i])));
                    model.push_back(Live{model[i]->armed, model[i]->id});
                    model[i]->armed = false;
                    break;
                case 2:
                    text += cat(" release instance ", i, ";");
                    if(functions) f[i]->release(); else l[i]->release();
                    model[i]->armed = false;
                    break;
                case 3:
                    text += cat(" destroy instance ", i, ";");
                    if(model[i]->armed) want.push_back(model[i]->id);
                    if(functions) f[i].reset(); else l[i].reset();
                    model[i].reset();
                    break;
            }
            ++ctx.transitions;
            ctx.describe(text);
            auto list = [](std::vector<int> const& v) { S r; for(int i: v) r += cat(" ", i); return r; };
            ctx.check(calls == want, "calls", cat("called are", list(calls), ", must be", list(want)));
        }
        for(size_t i = 0; i < model.size(); ++i) if(model[i]) {
            if(model[i]->armed) want.push_back(model[i]->id);
            if(functions) f[i].reset(); else l[i].reset();
        }
        ctx.check(calls == want, "calls at the end", cat("called ", calls.size(), " functions, must be ", want.size()));
        std::vector<int> sorted(calls); std::sort(sorted.begin(), sorted.end());
        ctx.check(std::unique(sorted.begin(), sorted.end()) == sorted.end(), "called once", "a function is called more than once");
        ctx.outcome(cat(calls.size(), " calls"));
        ctx.nontrivial(text);
    };
    std::function<void(std::vector<bool> const&)> go = [&](std::vector<bool> const& alive) {
        if(!history.empty() && ctx.begin()) { run(false); run(true); }
        if(history.size() == depth) return;
        auto next = [&](int h, std::vector<bool> const& a) { history.push_back(h); go(a); history.pop_back(); };
        std::vector<bool> more(alive); more.push_back(true);
        next(0, more);
        for(unsigned i = 0; i < alive.size(); ++i) if(alive[i]) {
            next(4 * i + 1, more);
            next(4 * i + 2, alive);
            std::vector<bool> fewer(alive); fewer[i] = false;
            next(4 * i + 3, fewer);
        }
    };
    go({});
}

SUITE("C26", "scope exits and exceptions")
{
    // Three nested scopes, in each of which an instance is made, possibly
    // moved and possibly released, before or after an exception may be thrown.
    seq::tuples(3, 6, [&](std::vector<unsigned> const& t) {
        for(int thrown = -1; thrown < 9; ++thrown) {
            if(!ctx.begin()) continue;
            S text; for(unsigned i = 0; i < 3; ++i) text += cat(" scope ", i, t[i] % 2 ? " moved" : "", t[i] / 2 == 1 ? " released at once" : t[i] / 2 == 2 ? " released at the end" : "", ";");
            ctx.describe(cat(text, " exception at point ", thrown));
            std::vector<int> calls;
            int point = 0;
            auto maybe = [&]() { if(point++ == thrown) throw Thrown(); };
            std::vector<int> entered, released;
            std::function<void(unsigned)> scope = [&](unsigned i) {
                if(i == 3) return;
                maybe();
                auto exit = fern::makeScopeExit([&calls, i]() { calls.push_back(i); });
                entered.push_back(i);
                auto body = [&](auto& e) {
                    if(t[i] / 2 == 1) { e.release(); released.push_back(i); }
                    maybe();
                    scope(i + 1);
                    maybe();
                    if(t[i] / 2 == 2) { e.release(); released.push_back(i); }
                };
                if(t[i] % 2) { auto other(std::move(exit)); body(other); }
                else body(exit);
            };
            bool caught = false;
            try { scope(0); } catch(Thrown const&) { caught = true; }
            ctx.check(caught == (thrown >= 0), "exception", "the exception does not get through");
            std::vector<int> want;
            for(auto i = entered.rbegin(); i != entered.rend(); ++i) if(std::find(released.begin(), released.end(), *i) == released.end()) want.push_back(*i);
            ctx.check(calls == want, "calls", cat(calls.size(), " functions are called, must be ", want.size()));
            ctx.transitions += 3;
            ctx.outcome(cat(want.size()));
            ctx.nontrivial(seq::mix(seq::mix(t[0] * 36 + t[1] * 6 + t[2], thrown + 1), 5));
        }
    });
}

} // namespace
