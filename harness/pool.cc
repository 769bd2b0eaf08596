// Scenarios for the thread pool and the thread safe queue, explored by the
// engine: every schedule within the deviation bound, of the real code.
#include <cassert>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <string.h>
#include "engine.h"
#include "conc_main.h"
#include "fern/core/thread_pool.h"
#include "fern/core/thread_safe_queue.h"

using fern::ThreadPool;
using mc::check;

namespace {

struct TaskError: std::runtime_error
{
    int id;
    explicit TaskError(int i): std::runtime_error("task"), id(i) {}
};

struct Counter { int n = 0; };

int task(Counter* c, int value)
{
    ++c->n;
    return value;
}

template<class F>
char ready(F& f)
{
    return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready ? 'r' : 'n';
}

// ------------------------------------------------------------------ C01
void wait_in_order(size_t nr_workers, size_t nr_tasks, bool reverse)
{
    std::vector<Counter> counters(nr_tasks);
    {
        ThreadPool pool(nr_workers);
        check(pool.size() == nr_workers, "pool does not have the number of threads asked for");
        std::vector<std::future<int>> futures;
        for(size_t i = 0; i < nr_tasks; ++i) {
            Counter* c = &counters[i];
            futures.push_back(pool.submit([c, i]() { return task(c, 10 + (int)i); }));
        }
        for(size_t k = 0; k < nr_tasks; ++k) {
            size_t i = reverse ? nr_tasks - 1 - k : k;
            check(futures[i].get() == 10 + (int)i, "future delivers the result of another task");
            check(counters[i].n == 1, "task was not run exactly once when its future is ready");
        }
    }
    for(auto& c: counters) check(c.n == 1, "task was not run exactly once");
}

void exceptions(size_t nr_workers)
{
    Counter a, b;
    {
        ThreadPool pool(nr_workers);
        auto f1 = pool.submit([&a]() -> int { ++a.n; throw TaskError(7); });
        auto f2 = pool.submit([&b]() { ++b.n; });
        bool caught = false;
        try { f1.get(); }
        catch(TaskError const& e) { caught = e.id == 7; }
        check(caught, "exception of a task is not delivered to the submitter");
        f2.get();
        check(a.n == 1 && b.n == 1, "task was not run exactly once");
        // The pool is still usable.
        auto f3 = pool.submit([&b]() { return ++b.n; });
        check(f3.get() == 2, "pool unusable after a task threw");
    }
}

void two_clients(size_t nr_workers, size_t per_client)
{
    std::vector<Counter> counters(2 * per_client);
    {
        ThreadPool pool(nr_workers);
        auto client = [&](size_t which) {
            std::vector<std::future<int>> futures;
            for(size_t i = 0; i < per_client; ++i) {
                int id = (int)(which * per_client + i);
                Counter* c = &counters[id];
                futures.push_back(pool.submit([c, id]() { return task(c, id); }));
            }
            for(size_t i = 0; i < per_client; ++i)
                check(futures[i].get() == (int)(which * per_client + i), "client received the result of another client");
        };
        std::thread other(client, 1);
        client(0);
        other.join();
    }
    for(auto& c: counters) check(c.n == 1, "task was not run exactly once");
}

void nested(size_t nr_workers, bool wait_inside)
{
    Counter inner, outer;
    {
        ThreadPool pool(nr_workers);
        std::future<int> inner_future;
        auto f = pool.submit([&]() {
            ++outer.n;
            auto g = pool.submit([&inner]() { return task(&inner, 5); });
            if(wait_inside) check(g.get() == 5, "nested task's result is wrong");
            else inner_future = std::move(g);
            return 6;
        });
        check(f.get() == 6, "outer task's result is wrong");
        if(!wait_inside) check(inner_future.get() == 5, "nested task's result is wrong");
        check(inner.n == 1 && outer.n == 1, "task was not run exactly once");
    }
}

struct Functor
{
    std::unique_ptr<int> value;     // Move-only callable.
    int operator()() { return *value + 1; }
};

void kinds_of_results(size_t nr_workers)
{
    int target = 3;
    {
        ThreadPool pool(nr_workers);
        auto f1 = pool.submit([]() { return std::make_unique<int>(4); });
        auto f2 = pool.submit([&target]() -> int& { return target; });
        auto f3 = pool.submit(Functor{std::make_unique<int>(8)});
        check(*f1.get() == 4, "move-only result lost");
        check(&f2.get() == &target, "reference result lost");
        check(f3.get() == 9, "result of move-only callable lost");
    }
}

void sequence(size_t nr_workers, int n)
{
    Counter c;
    {
        ThreadPool pool(nr_workers);
        for(int i = 0; i < n; ++i) {
            auto f = pool.submit([&c]() { return ++c.n; });
            check(f.get() == i + 1, "task not run exactly once");
        }
    }
    check(c.n == n, "task not run exactly once");
}

// A single worker runs the tasks in the order of submission.
void fifo(size_t nr_tasks)
{
    std::vector<int> order;
    {
        ThreadPool pool(1);
        std::vector<std::future<void>> futures;
        for(size_t i = 0; i < nr_tasks; ++i)
            futures.push_back(pool.submit([&order, i]() { order.push_back((int)i); }));
        for(size_t k = nr_tasks; k-- > 0;) futures[k].get();
    }
    for(size_t i = 0; i < nr_tasks; ++i)
        check(order.size() == nr_tasks && order[i] == (int)i, "tasks of a single client ran out of order on a single worker");
}

// All workers take part: nr_workers tasks that wait for each other.
void all_workers_run(size_t nr_workers)
{
    ThreadPool pool(nr_workers);
    std::vector<std::promise<void>> arrived(nr_workers);
    std::vector<std::shared_future<void>> gates;
    for(auto& p: arrived) gates.push_back(p.get_future().share());
    std::vector<std::future<void>> futures;
    for(size_t i = 0; i < nr_workers; ++i)
        futures.push_back(pool.submit([&arrived, gates, i]() {
            arrived[i].set_value();
            for(auto g: gates) g.wait();
        }));
    for(auto& f: futures) f.get();
}

// ------------------------------------------------------------------ C02
void construct_destruct(size_t nr_workers)
{
    auto pool = std::make_unique<ThreadPool>(nr_workers);
    pool.reset();
}

void destruct_pending(size_t nr_workers, size_t nr_tasks, bool on_heap)
{
    std::vector<Counter> counters(nr_tasks);
    std::vector<std::future<int>> futures;
    auto submit = [&](ThreadPool& pool) {
        for(size_t i = 0; i < nr_tasks; ++i) {
            Counter* c = &counters[i];
            futures.push_back(pool.submit([c, i]() { return task(c, (int)i); }));
        }
    };
    if(on_heap) {
        auto pool = std::make_unique<ThreadPool>(nr_workers);
        submit(*pool);
        pool.reset();
    }
    else {
        ThreadPool pool(nr_workers);
        submit(pool);
    }
    for(size_t i = 0; i < nr_tasks; ++i) {
        check(ready(futures[i]) == 'r', "future still pending after destruction of the pool");
        try {
            check(futures[i].get() == (int)i, "wrong result");
            check(counters[i].n == 1, "task with a result did not run exactly once");
            mc::outcome("1");
        }
        catch(std::future_error const& e) {
            check(e.code() == std::make_error_code(std::future_errc::broken_promise), "unexpected future error");
            check(counters[i].n == 0, "task ran but its future is broken");
            mc::outcome("0");
        }
    }
}

// The task that is running when the destructor starts is completed.
void destruct_running(size_t nr_workers)
{
    Counter c;
    std::promise<void> started, release;
    auto started_future = started.get_future();
    auto release_future = release.get_future();
    std::future<int> f;
    {
        auto pool = std::make_unique<ThreadPool>(nr_workers);
        f = pool->submit([&]() { started.set_value(); release_future.get(); return task(&c, 3); });
        started_future.get();
        std::thread releaser([&]() { release.set_value(); });
        pool.reset();
        check(ready(f) == 'r', "future of a running task pending after destruction of the pool");
        check(f.get() == 3, "running task was abandoned");
        releaser.join();
    }
    check(c.n == 1, "task did not run exactly once");
}

void discarded_futures(size_t nr_workers)
{
    Counter a, b;
    {
        ThreadPool pool(nr_workers);
        pool.submit([&a]() -> int { ++a.n; throw TaskError(1); });
        auto f = pool.submit([&b]() { ++b.n; });
        f.get();
        check(b.n == 1, "task did not run exactly once");
    }
    check(a.n <= 1, "task ran more than once");
    mc::outcome(std::to_string(a.n));
}

void create_fails(size_t nr_workers, bool on_heap)
{
    bool thrown = false;
    try {
        if(on_heap) { auto pool = std::make_unique<ThreadPool>(nr_workers); pool.reset(); }
        else { ThreadPool pool(nr_workers); }
    }
    catch(std::system_error const&) { thrown = true; }
    check(thrown, "failure to start a worker is not reported");
}

// Client destroys the pool right after having received a result.
void use_then_destruct(size_t nr_workers)
{
    Counter c;
    auto pool = std::make_unique<ThreadPool>(nr_workers);
    auto f = pool->submit([&c]() { return task(&c, 1); });
    check(f.get() == 1, "wrong result");
    pool.reset();
    check(c.n == 1, "task did not run exactly once");
}

void two_pools()
{
    Counter a, b;
    auto p1 = std::make_unique<ThreadPool>(1);
    auto p2 = std::make_unique<ThreadPool>(1);
    auto f1 = p1->submit([&]() { return task(&a, 1); });
    auto f2 = p2->submit([&]() { return task(&b, 2); });
    p1.reset();
    check(ready(f1) == 'r', "future still pending after destruction of the pool");
    check(f2.get() == 2, "task of the other pool was lost");
    p2.reset();
}

// ------------------------------------------------------------------ C03: queue
template<class T> struct Value;
template<> struct Value<int> { static int make(int i) { return i; } static int get(int const& v) { return v; } };
template<> struct Value<std::unique_ptr<int>>
{
    static std::unique_ptr<int> make(int i) { return std::make_unique<int>(i); }
    static int get(std::unique_ptr<int> const& v) { return v ? *v : -1; }
};

struct Call { int thread; char op; int value; int result; long begin, end; };

bool linearizable(std::vector<Call> const& calls, std::vector<int> done, std::vector<int> queue)
{
    bool all = true;
    for(size_t i = 0; i < calls.size(); ++i) if(!done[i]) {
        all = false;
        // Minimal: no other pending call ended before this one began.
        bool minimal = true;
        for(size_t j = 0; j < calls.size(); ++j) if(!done[j] && j != i && calls[j].end < calls[i].begin) minimal = false;
        if(!minimal) continue;
        auto q = queue; bool ok = false;
        auto const& c = calls[i];
        if(c.op == 'P') { q.push_back(c.value); ok = true; }
        else if(c.op == 'E') ok = c.result == (q.empty() ? 1 : 0);
        else if(q.empty()) ok = c.result == -2;
        else { ok = c.result == q.front(); q.erase(q.begin()); }
        if(ok) { auto d = done; d[i] = 1; if(linearizable(calls, d, q)) return true; }
    }
    return all;
}

// programs: one string per thread; 'P' push, 'O' try_pop, 'E' empty
template<class T>
void queue_history(std::vector<std::string> const& programs, int nr_initial)
{
    fern::ThreadSafeQueue<T> queue;
    std::vector<int> initial;
    for(int i = 0; i < nr_initial; ++i) { queue.push(Value<T>::make(100 + i)); initial.push_back(100 + i); }
    long clock = 0;
    std::mutex clock_mutex;
    std::vector<std::vector<Call>> histories(programs.size());
    auto tick = [&]() { std::lock_guard<std::mutex> l(clock_mutex); return ++clock; };
    auto run = [&](int t) {
        int n = 0;
        for(char op: programs[t]) {
            Call c{t, op, 0, 0, 0, 0};
            c.begin = tick();
            if(op == 'P') { c.value = 10 * (t + 1) + n++; queue.push(Value<T>::make(c.value)); }
            else if(op == 'E') c.result = queue.empty() ? 1 : 0;
            else { T v = T(); c.result = queue.try_pop(v) ? Value<T>::get(v) : -2; }
            c.end = tick();
            histories[t].push_back(c);
        }
    };
    std::vector<std::thread> threads;
    for(size_t t = 1; t < programs.size(); ++t) threads.emplace_back(run, (int)t);
    run(0);
    for(auto& t: threads) t.join();
    std::vector<Call> calls;
    for(auto& h: histories) calls.insert(calls.end(), h.begin(), h.end());
    // Drain.
    for(;;) {
        T v = T(); Call c{0, 'O', 0, 0, 0, 0};
        c.begin = ++clock; c.result = queue.try_pop(v) ? Value<T>::get(v) : -2; c.end = ++clock;
        calls.push_back(c);
        if(c.result == -2) break;
        check(calls.size() < 50, "queue never becomes empty");
    }
    for(auto& c: calls) mc::outcome(std::string(1, c.op) + std::to_string(c.result) + " ");
    check(queue.empty(), "drained queue is not empty");
    check(linearizable(calls, std::vector<int>(calls.size(), 0), initial), "history of the queue is not linearizable");
}

} // namespace

int main(int argc, char** argv)
{
    using namespace mc;
    std::vector<Config> configs;
    auto add = [&](char const* p, std::string const& name, int q, int t, std::function<void()> body, int fail_at = -1, int nr_shards = 1) {
        configs.push_back({p, name, q, t, body, fail_at, nr_shards});
    };
    // Quick bound, thorough bound.
    for(size_t w = 1; w <= 3; ++w) for(size_t n = 1; n <= 3; ++n) for(int r = 0; r < 2; ++r) {
        if(n == 1 && r) continue;
        add("C01", "wait/w" + std::to_string(w) + "/n" + std::to_string(n) + (r ? "/reverse" : ""), 2, w + n <= 3 ? 5 : 3, [=]() { wait_in_order(w, n, r); });
    }
    for(size_t w = 1; w <= 2; ++w) {
        add("C01", "exceptions/w" + std::to_string(w), 2, 3, [=]() { exceptions(w); });
        add("C01", "clients/w" + std::to_string(w) + "/1", 2, 3, [=]() { two_clients(w, 1); });
        add("C01", "clients/w" + std::to_string(w) + "/2", 1, 2, [=]() { two_clients(w, 2); });
        add("C01", "nested/w" + std::to_string(w), 2, 3, [=]() { nested(w, false); });
        add("C01", "results/w" + std::to_string(w), 1, 2, [=]() { kinds_of_results(w); });
        add("C01", "sequence/w" + std::to_string(w), 2, 3, [=]() { sequence(w, 3); });
        add("C01", "all_workers/w" + std::to_string(w), 2, 3, [=]() { all_workers_run(w); });
    }
    add("C01", "all_workers/w3", 1, 2, [=]() { all_workers_run(3); });
    add("C01", "nested_wait/w2", 2, 3, [=]() { nested(2, true); });
    add("C01", "fifo/n2", 2, 4, [=]() { fifo(2); });
    add("C01", "fifo/n3", 2, 3, [=]() { fifo(3); });

    for(size_t w = 1; w <= 3; ++w) {
        add("C02", "construct_destruct/w" + std::to_string(w), 2, w == 1 ? 6 : 4, [=]() { construct_destruct(w); });
        for(size_t n = 1; n <= 3; ++n) {
            add("C02", "pending/w" + std::to_string(w) + "/n" + std::to_string(n), 2, w + n <= 3 ? 5 : 3, [=]() { destruct_pending(w, n, n % 2); });
        }
        for(size_t k = 0; k < w; ++k) for(int h = 0; h < 2; ++h)
            add("C02", "create_fails/w" + std::to_string(w) + "/k" + std::to_string(k) + (h ? "/heap" : ""), 3, 5, [=]() { create_fails(w, h); }, (int)k);
    }
    for(size_t w = 1; w <= 2; ++w) {
        add("C02", "running/w" + std::to_string(w), 2, 3, [=]() { destruct_running(w); });
        add("C02", "discarded/w" + std::to_string(w), 2, 3, [=]() { discarded_futures(w); });
        add("C02", "use/w" + std::to_string(w), 2, 4, [=]() { use_then_destruct(w); });
    }
    add("C02", "two_pools", 1, 2, [=]() { two_pools(); });

    // All pairs of programs of length <= 2, some triples.
    {
        std::vector<std::string> progs = {"P", "O", "E", "PP", "PO", "OP", "OO", "PE", "OE", "EP", "EO"};
        for(size_t i = 0; i < progs.size(); ++i) for(size_t j = i; j < progs.size(); ++j) for(int init = 0; init < 3; ++init) {
            auto a = progs[i], b = progs[j];
            add("C03", "queue/" + a + "-" + b + "/" + std::to_string(init), 2, 4, [=]() { queue_history<int>({a, b}, init); });
        }
        for(auto a: {"P", "O", "E"}) for(auto b: {"P", "O", "E"}) for(auto c: {"P", "O", "E"}) {
            if(std::string(a) > b || std::string(b) > c) continue;
            for(int init = 0; init < 3; ++init)
                add("C03", std::string("queue3/") + a + b + c + "/" + std::to_string(init), 2, 3, [=]() { queue_history<int>({a, b, c}, init); });
        }
        for(auto a: {"PO", "OO"}) for(auto b: {"PO", "OP", "OO", "PP"})
            add("C03", std::string("queue_move_only/") + a + "-" + b, 2, 3, [=]() { queue_history<std::unique_ptr<int>>({a, b}, 1); });
        add("C03", "queue_3x2", 1, 2, [=]() { queue_history<int>({"PO", "PO", "OP"}, 1); });
    }
    return mc::conc_main(argc, argv, configs);
}
