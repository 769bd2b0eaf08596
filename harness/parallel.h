// Parallel execution against sequential execution, under the schedule
// explorer: what an operation leaves in its results and masks must not depend
// on the execution policy, the number of threads or the schedule.
#pragma once
#include <functional>
#include "engine.h"
#include "conc_main.h"
#include "alg.h"

namespace par {

using namespace alg;
using Parallel = fa::ParallelExecutionPolicy;
using Any = fa::ExecutionPolicy;

std::vector<mc::Config>& configs();

inline std::vector<unsigned> masks() { return {0u, 0x55555555u, 0xfffffffeu, 0xffffffffu, 0x10842108u}; }

inline std::vector<Shape> shapes(int rank)
{
    if(rank == 1) return {{1, 1, 0}, {1, 1, 1}, {1, 1, 2}, {1, 1, 3}, {1, 1, 4}, {1, 1, 5}, {1, 1, 7}, {1, 1, 8}, {1, 1, 11}};
    if(rank == 2) return {{2, 0, 0}, {2, 1, 1}, {2, 1, 3}, {2, 2, 1}, {2, 2, 2}, {2, 3, 2}, {2, 4, 1}, {2, 5, 2}, {2, 7, 3}, {2, 9, 1}};
    // Rasters for focal operations.
    return {{2, 3, 3}, {2, 4, 3}, {2, 3, 5}, {2, 5, 4}, {2, 6, 3}, {2, 8, 3}, {2, 7, 6}, {2, 11, 5}};
}

template<class C> void put(C& c, int seed, unsigned mask)
{
    for(size_t i = 0; i < count_of(c); ++i) {
        at(c, i) = (typename KindOf<C>::value)((i * 7 + seed) % 11 + 1);
        mask_at(c, i) = (mask >> (i % 32)) & 1;
    }
}

template<class C> void put_bool(C& c, int seed, unsigned mask)
{
    for(size_t i = 0; i < count_of(c); ++i) {
        at(c, i) = (i * 7 + seed) % 3 == 0;
        mask_at(c, i) = (mask >> (i % 32)) & 1;
    }
}

template<class T, int rank> typename ByRank<T, rank>::type make(Shape const& s, int seed, unsigned mask)
{
    auto c = ByRank<T, rank>::make(s);
    if constexpr(std::is_same<T, bool>::value) put_bool(c, seed, mask); else put(c, seed, mask);
    return c;
}

template<class T, int rank> typename ByRank<T, rank>::type blank(Shape const& s) { return ByRank<T, rank>::make(s, (T)77); }

// Values and masks; the value under a no-data mark means nothing.
template<class C> std::string raw(C& c)
{
    std::ostringstream s; s.precision(17);
    for(size_t i = 0; i < count_of(c); ++i) { if(mask_at(c, i)) s << "x "; else s << +at(c, i) << ' '; }
    return s.str();
}

// f(policy, shape, mask) -> text of everything it wrote.
template<class F, class P> void compare_all(F f, P& parallel, std::vector<Shape> const& shapes_, std::vector<unsigned> const& masks_)
{
    Sequential sequential;
    for(auto const& s: shapes_) for(unsigned m: masks_) {
        if(s.size() <= 1 && m != masks_.front() && m != 0xffffffffu) continue;
        std::string want = f(sequential, s, m), got = f(parallel, s, m);
        if(want != got) mc::fail("parallel execution differs from sequential execution for " + s.name() + ", no-data pattern " + std::to_string(m & 0xfff) + ": " + got + ", must be " + want);
    }
}

// Which shapes: 1, 2, or 3 (rasters of at least 3x3).
template<bool with_any = true, class F> void add(std::string const& name, int which, F f, bool deep = true)
{
    std::string base = name + "/" + std::to_string(which);
    auto push = [&](std::string const& what, int quick, int thorough, std::function<void()> body, bool delay) {
        mc::Config c{"C05", base + what, quick, thorough, body};
        c.delay_bounded = delay; c.max_steps = 400000;
        configs().push_back(c);
    };
    // Many shapes, one schedule (thorough: all single deviations from it);
    // races are found whatever the schedule.
    for(size_t workers: {1, 2, 3, 4, 6})
        push("/all-shapes/w" + std::to_string(workers), 0, 0, [=]() { Parallel p(workers); compare_all(f, p, shapes(which), masks()); }, true);
    if constexpr(with_any)
        push("/any-policy", 0, 0, [=]() {
            Any p{Parallel(2)}; Any s{Sequential()};
            compare_all(f, p, shapes(which), {0x55555555u}); compare_all(f, s, shapes(which), {0x55555555u});
        }, true);
    // A small shape, many schedules.
    Shape small = which == 1 ? Shape{1, 1, 3} : which == 2 ? Shape{2, 3, 1} : Shape{2, 5, 3};
    push("/schedules/w2", deep ? 2 : 1, deep ? 3 : 2, [=]() { Parallel p(2); compare_all(f, p, {small}, {0x2u}); }, true);
    push("/schedules/w3", 1, 2, [=]() { Parallel p(3); compare_all(f, p, {small}, {0x2u}); }, true);
    if(deep) push("/preemptions/w2", -1, 1, [=]() { Parallel p(2); compare_all(f, p, {small}, {0x2u}); }, false);
}

} // namespace par
