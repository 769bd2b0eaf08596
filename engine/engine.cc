// Stateless model checker runtime. See engine.h.
//
// Compiled WITHOUT -fsanitize=thread.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <stdexcept>
#include <unordered_map>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern "C" char __libc_single_threaded;
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace {

constexpr int MAXT = 10;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uintptr_t uptr;

// ---------------------------------------------------------------- raw syscalls
inline long raw6(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret)
        : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
        : "rcx", "r11", "memory");
    return ret;
}

inline u64 mix(u64 a, u64 b)
{
    u64 x = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C159E3779B9ull;
    x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull;
    x ^= x >> 32; x *= 0x94D049BB133111EBull;
    x ^= x >> 31;
    return x;
}

struct VC
{
    u32 c[MAXT];
    VC() { for(auto& x: c) x = 0; }
    void join(VC const& o) { for(int i = 0; i < MAXT; ++i) if(o.c[i] > c[i]) c[i] = o.c[i]; }
    void clear() { for(auto& x: c) x = 0; }
};

// ---------------------------------------------------------------- operations
enum Kind { START, LOCK, TRYLOCK, UNLOCK, CONDWAIT, CONDBLOCK, SIGNAL, BROADCAST,
    CREATE, JOIN, ATOMIC, ONCE, ONCEDONE, FUTEXWAIT, FUTEXBLOCK, FUTEXWAKE, SLEEP,
    SLEEPBLOCK, EXIT, RDLOCK, WRLOCK, RWUNLOCK, DESTROY, GUARD, DETACH, LOAD };
char const* kind_name[] = { "start", "lock", "trylock", "unlock", "cond_wait", "blocked(cond)",
    "signal", "broadcast", "create", "join", "atomic", "once", "once_done", "futex_wait",
    "blocked(futex)", "futex_wake", "sleep", "blocked(sleep)", "exit", "rdlock", "wrlock",
    "rwunlock", "destroy", "guard", "detach", "atomic_load" };

struct Thread;

struct Obj
{
    VC vc;
    u64 h = 0;
    Thread* owner = nullptr;     // mutex / once / guard / write lock owner
    int recursion = 0;
    int readers = 0;
    int id = 0;
    std::vector<Thread*> waiters;
};

struct Thread
{
    int id = 0;
    int sem = 0;                 // raw futex word
    Kind kind = START;           // pending operation
    Obj* obj = nullptr;          // object of the pending operation
    uptr addr = 0;
    Thread* target = nullptr;    // of join
    bool timed = false;
    bool spurious_ok = false;
    u64 deadline = 0;
    bool timed_out = false;
    bool woken = false;
    Obj* mutex = nullptr;        // to re-acquire
    bool finished = false;
    bool detached = false;
    bool joined = false;
    bool yielded = false;
    VC vc;
    u64 h = 0;
    pthread_t real = 0;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    uptr stack_lo = 0, stack_hi = 0;
    int nr_created = 0;
};

// ---------------------------------------------------------------- state
bool g_active = false;             // an execution is in progress
thread_local Thread* tl_self __attribute__((tls_model("initial-exec"))) = nullptr;
thread_local int tl_in __attribute__((tls_model("initial-exec"))) = 0;

struct Guard { Guard() { ++tl_in; } ~Guard() { --tl_in; } };

inline bool managed() { return g_active && tl_self != nullptr && tl_in == 0; }

struct Option { int tid; char what; int cost; };   // what: 'r'un, 't'imeout, 's'purious, 'w'aiter

struct Decision
{
    std::vector<Option> options;
    int chosen = 0;
    bool frozen = false;
    int dev_before = 0;
};

struct Step { int tid; Kind kind; int obj; uptr pc; };

struct Engine
{
    mc::Options opt;
    int bound = 0;
    std::vector<Decision> path;
    size_t cursor = 0;
    size_t replay_len = 0;
    int dev = 0;
    int spurious = 0;
    bool frozen = false;
    bool cut_by_bound = false;
    std::unordered_map<u64, int> visited;
    std::vector<Thread*> threads;
    std::map<uptr, Obj*> objs;
    std::vector<Obj*> graveyard;
    int next_obj = 0;
    int nr_creates = 0;
    int idle_timeouts = 0;
    u64 now_ns = 1000000000ull;
    long steps = 0;
    std::vector<Step> log;
    mc::Stats stats;
    std::set<std::string> outcomes;
    std::string outcome;
    bool replaying = false;
    std::vector<int> replay_choices;
    u32 exec = 0;
    Obj fence;
    VC exceptions;
} * E = nullptr;

std::string g_replay_path, g_report_path;

// ---------------------------------------------------------------- parking
void park(Thread* t)
{
    while(__atomic_load_n(&t->sem, __ATOMIC_ACQUIRE) == 0) {
        raw6(SYS_futex, (long)&t->sem, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    }
    __atomic_store_n(&t->sem, 0, __ATOMIC_RELAXED);
}

void unpark(Thread* t)
{
    __atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)&t->sem, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

// ---------------------------------------------------------------- failing
std::string resolve(uptr pc)
{
    if(!pc) return "?";
    Dl_info info;
    char buf[512];
    if(!dladdr((void*)pc, &info) || !info.dli_fname) return "?";
    uptr base = (uptr)info.dli_fbase;
    char exe[400];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    std::string file = info.dli_fname;
    if(n > 0) {
        exe[n] = 0;
        // Main programme.
        if(file.find(".so") == std::string::npos) file = exe;
    }
    snprintf(buf, sizeof buf, "addr2line -C -i -e '%s' 0x%lx 2>/dev/null", file.c_str(), (unsigned long)(pc - base - 1));
    std::string result;
    FILE* f = popen(buf, "r");
    if(f) {
        char line[512];
        while(fgets(line, sizeof line, f)) {
            std::string l(line);
            while(!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
            auto p = l.find(" (disc");
            if(p != std::string::npos) l.resize(p);
            // Prefer the first location outside of the system headers.
            if(l.find("/usr/include") == std::string::npos && l[0] != '?') { result = l; break; }
            if(result.empty()) result = l;
        }
        pclose(f);
    }
    return result.empty() ? "?" : result;
}

std::string json_escape(std::string const& s)
{
    std::string r;
    for(char c: s) {
        if(c == '"' || c == '\\') { r += '\\'; r += c; }
        else if(c == '\n') r += "\\n";
        else if((unsigned char)c < 32) r += ' ';
        else r += c;
    }
    return r;
}

bool g_failing = false;

[[noreturn]] void do_fail(std::string const& message)
{
    ++tl_in;
    g_active = false;
    if(g_failing) _exit(4);
    g_failing = true;
    signal(SIGABRT, SIG_DFL);
    std::string choices;
    if(E) for(size_t i = 0; i < E->cursor && i < E->path.size(); ++i)
        choices += (choices.empty() ? "" : ",") + std::to_string(E->path[i].chosen);
    std::string name = E ? E->stats.name : "?";
    FILE* f = g_report_path.empty() ? stdout : fopen(g_report_path.c_str(), "w");
    if(!f) f = stdout;
    fprintf(f, "{\n \"config\": \"%s\",\n \"message\": \"%s\",\n \"deviations\": %d,\n \"fail_create_at\": %d,\n \"choices\": [%s],\n \"steps\": [\n",
        name.c_str(), json_escape(message).c_str(), E ? E->dev : 0, E ? E->opt.fail_create_at : -1, choices.c_str());
    if(E) {
        std::map<uptr, std::string> cache;
        size_t first = E->log.size() > 400 ? E->log.size() - 400 : 0;
        for(size_t i = first; i < E->log.size(); ++i) {
            auto& s = E->log[i];
            if(!cache.count(s.pc)) cache[s.pc] = resolve(s.pc);
            fprintf(f, "  \"t%d %s obj%d @ %s\"%s\n", s.tid, kind_name[s.kind], s.obj,
                json_escape(cache[s.pc]).c_str(), i + 1 < E->log.size() ? "," : "");
        }
    }
    fprintf(f, " ]\n}\n");
    fflush(f);
    fprintf(stderr, "MC-FAIL %s: %s\n", name.c_str(), message.c_str());
    fflush(stderr);
    _exit(3);
}

void on_signal(int sig)
{
    if(tl_in > 20) _exit(5);
    char const* what = sig == SIGABRT ? "abort (assertion failure, uncaught exception or terminate)" :
        sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic fault" : "fatal signal";
    do_fail(std::string("crash: ") + what);
}

// An execution takes milliseconds. This much processor time within one is a
// loop without scheduling points, which the step limit does not see.
constexpr int hang_seconds = 30;

void on_hang(int)
{
    // Should reporting not be possible here.
    signal(SIGALRM, SIG_DFL);
    alarm(10);
    do_fail("hang: no termination, without any synchronisation:" + std::string(" one execution used ") + std::to_string(hang_seconds) + " s of processor time");
}

void set_hang_timer(int seconds)
{
    struct itimerval v{};
    v.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &v, nullptr);
}

// ---------------------------------------------------------------- shadow memory
struct Rec { u32 clk; unsigned char tid, kind, mask, pad; uptr pc; };  // kind 0 R, 1 W, 2 AR, 3 AW
constexpr int NREC = 10;
struct Gran
{
    u32 exec = 0;
    unsigned char n = 0;
    unsigned char next = 0;
    unsigned char freed = 0;   // mask of bytes freed
    unsigned char multi = 0;   // 0: only one thread so far
    unsigned char only = 0;
    Rec rec[NREC];
};
struct ShadowPage { u32 exec; uptr base; Gran g[512]; };

std::unordered_map<uptr, ShadowPage*>* g_pages = nullptr;
uptr g_last_page = 0; ShadowPage* g_last = nullptr;

ShadowPage* page_of(uptr a, bool create)
{
    uptr b = a >> 12;
    if(g_last && g_last_page == b) return g_last;
    if(!g_pages) g_pages = new std::unordered_map<uptr, ShadowPage*>;
    auto it = g_pages->find(b);
    ShadowPage* p;
    if(it == g_pages->end()) {
        if(!create) return nullptr;
        p = new ShadowPage();
        p->base = b;
        (*g_pages)[b] = p;
    }
    else p = it->second;
    g_last_page = b; g_last = p;
    return p;
}

inline bool conflict(unsigned char a, unsigned char b)
{
    // 0 R, 1 W, 2 AR, 3 AW
    if(a == 1 || b == 1) return true;
    if((a == 0 && b == 3) || (a == 3 && b == 0)) return true;
    return false;
}

void race(Thread* t, uptr addr, int kind, uptr pc, Rec const& r)
{
    static char const* nm[] = { "read", "write", "atomic read", "atomic write" };
    do_fail("data race: thread " + std::to_string(t->id) + " " + nm[kind] + " at " + resolve(pc) +
        " is unordered with thread " + std::to_string(r.tid) + " " + nm[r.kind] + " at " + resolve(r.pc));
    (void)addr;
}

inline void access_gran(Thread* t, uptr gaddr, unsigned char mask, unsigned char kind, uptr pc)
{
    ShadowPage* p = page_of(gaddr, true);
    Gran& g = p->g[(gaddr >> 3) & 511];
    if(g.exec != E->exec) {
        g.exec = E->exec; g.n = 0; g.next = 0; g.freed = 0; g.multi = 0; g.only = t->id;
    }
    if(g.freed & mask) {
        do_fail("use after free: thread " + std::to_string(t->id) + " at " + resolve(pc));
    }
    if(!g.multi && g.only != t->id) g.multi = 1;
    u32 clk = t->vc.c[t->id];
    if(g.multi) {
        for(int i = 0; i < g.n; ++i) {
            Rec& r = g.rec[i];
            if(r.tid != t->id && (r.mask & mask) && conflict(r.kind, kind) && r.clk > t->vc.c[r.tid]) {
                race(t, gaddr, kind, pc, r);
            }
        }
    }
    for(int i = 0; i < g.n; ++i) {
        Rec& r = g.rec[i];
        if(r.tid == t->id && r.kind == kind && (r.mask & ~mask) == 0) {
            r.clk = clk; r.mask = mask; r.pc = pc; return;
        }
    }
    int slot;
    if(g.n < NREC) slot = g.n++;
    else { slot = g.next; g.next = (g.next + 1) % NREC; }
    Rec& r = g.rec[slot];
    r.clk = clk; r.tid = t->id; r.kind = kind; r.mask = mask; r.pc = pc;
}

void access_range(uptr a, size_t n, unsigned char kind, uptr pc)
{
    if(!managed() || n == 0) return;
    Guard guard;
    Thread* t = tl_self;
    uptr end = a + n;
    for(uptr g = a & ~7ul; g < end; g += 8) {
        unsigned lo = a > g ? a - g : 0;
        unsigned hi = end < g + 8 ? end - g : 8;
        unsigned char mask = (unsigned char)(((1u << (hi - lo)) - 1) << lo);
        access_gran(t, g, mask, kind, pc);
    }
}

void clear_range(uptr a, size_t n, bool freed)
{
    if(!E) return;
    uptr end = a + n;
    for(uptr pg = a & ~4095ul; pg < end; pg += 4096) {
        ShadowPage* p = page_of(pg, freed);
        if(!p) continue;
        uptr lo = std::max(pg, a & ~7ul), hi = std::min(pg + 4096, end);
        for(uptr g = lo; g < hi; g += 8) {
            Gran& gr = p->g[(g >> 3) & 511];
            unsigned l = a > g ? a - g : 0;
            unsigned h = end < g + 8 ? end - g : 8;
            unsigned char mask = (unsigned char)(((1u << (h - l)) - 1) << l);
            if(gr.exec != E->exec) {
                if(!freed) continue;
                gr.exec = E->exec; gr.n = 0; gr.next = 0; gr.freed = 0; gr.multi = 0; gr.only = 0;
            }
            if(mask == 255) { gr.n = 0; gr.next = 0; gr.multi = 1; gr.freed = freed ? 255 : 0; }
            else {
                for(int i = 0; i < gr.n; ++i) gr.rec[i].mask &= ~mask;
                gr.multi = 1;
                if(freed) gr.freed |= mask; else gr.freed &= ~mask;
            }
        }
    }
    // Synchronisation objects living there are gone.
    auto it = E->objs.lower_bound(a);
    while(it != E->objs.end() && it->first < end) {
        E->graveyard.push_back(it->second);
        it = E->objs.erase(it);
    }
}

// ---------------------------------------------------------------- objects
Obj* obj_of(uptr a)
{
    auto it = E->objs.find(a);
    if(it != E->objs.end()) return it->second;
    Obj* o = new Obj;
    o->id = E->next_obj++;
    o->h = mix(tl_self ? tl_self->h : 1, 77);
    E->objs[a] = o;
    return o;
}

void touch(Thread* t, Obj* o, int k)
{
    t->h = mix(mix(t->h, k), o->h);
    o->h = t->h;
}

void check_alive(uptr a, uptr pc, char const* what)
{
    ShadowPage* p = page_of(a, false);
    if(!p) return;
    Gran& g = p->g[(a >> 3) & 511];
    if(g.exec == E->exec && (g.freed & (1 << (a & 7)))) {
        do_fail(std::string("use after free of a synchronisation object: ") + what + " at " + resolve(pc));
    }
}

// ---------------------------------------------------------------- deciding
u64 state_key(int current)
{
    u64 k = mix(current, E->spurious);
    for(auto t: E->threads) {
        k = mix(k, t->h);
        k = mix(k, t->yielded);
    }
    return k;
}

int decide(std::vector<Option> options, int current)
{
    if(options.size() == 1) return 0;
    if(E->opt.delay_bounded) for(size_t k = 1; k < options.size(); ++k) options[k].cost = std::max(options[k].cost, 1);
    if(E->replaying) {
        size_t i = E->cursor++;
        Decision d; d.options = options;
        d.chosen = i < E->replay_choices.size() ? E->replay_choices[i] : 0;
        if(d.chosen < 0 || d.chosen >= (int)options.size()) {
            fprintf(stderr, "MC-ERROR replay diverged\n"); _exit(6);
        }
        E->path.push_back(d);
        E->dev += options[d.chosen].cost;
        if(options[d.chosen].what == 's') ++E->spurious;
        return d.chosen;
    }
    size_t i = E->cursor++;
    if(i < E->replay_len) {
        Decision& d = E->path[i];
        bool same = d.options.size() == options.size();
        for(size_t k = 0; same && k < options.size(); ++k)
            same = d.options[k].tid == options[k].tid && d.options[k].what == options[k].what &&
                d.options[k].cost == options[k].cost;
        if(!same) {
            fprintf(stderr, "MC-ERROR nondeterminism: replayed prefix diverged at decision %zu (%s)\n", i, E->stats.name.c_str());
            _exit(6);
        }
        E->dev += options[d.chosen].cost;
        if(options[d.chosen].what == 's') ++E->spurious;
        return d.chosen;
    }
    Decision d;
    d.options = options;
    d.dev_before = E->dev;
    ++E->stats.decisions;
    if(!E->frozen) {
        u64 key = state_key(current);
        auto it = E->visited.find(key);
        if(it != E->visited.end() && it->second <= E->dev) {
            E->frozen = true;
            ++E->stats.pruned;
        }
        else {
            if(it == E->visited.end()) E->visited.emplace(key, E->dev);
            else it->second = E->dev;
        }
    }
    d.frozen = E->frozen;
    E->path.push_back(d);
    return 0;
}

bool runnable(Thread* t)
{
    switch(t->kind) {
        case LOCK: return !t->obj->owner || (t->obj->owner == t && t->obj->recursion > 0);
        case JOIN: return t->target->finished;
        case CONDBLOCK: case FUTEXBLOCK: case SLEEPBLOCK: return false;
        case ONCE: case GUARD: return !t->obj->owner || t->obj->owner == t;
        case RDLOCK: return !t->obj->owner;
        case WRLOCK: return !t->obj->owner && t->obj->readers == 0;
        default: return true;
    }
}

std::string describe_blocked()
{
    std::string s;
    for(auto t: E->threads) if(!t->finished)
        s += " t" + std::to_string(t->id) + ":" + kind_name[t->kind];
    return s;
}

void wake_from_block(Thread* t, bool timed_out)
{
    // t is CONDBLOCK / FUTEXBLOCK / SLEEPBLOCK
    if(t->kind == CONDBLOCK || t->kind == FUTEXBLOCK) {
        auto& w = t->obj->waiters;
        w.erase(std::remove(w.begin(), w.end(), t), w.end());
    }
    t->timed_out = timed_out;
    if(timed_out) {
        t->h = mix(t->h, 991);
        if(t->deadline > E->now_ns) E->now_ns = t->deadline;
    }
    if(t->kind == CONDBLOCK) { t->kind = LOCK; t->obj = t->mutex; }
    else { t->kind = START; t->obj = nullptr; }
}

// Called by the thread holding the token. Returns the thread that runs next.
Thread* choose(Thread* me)
{
    for(;;) {
        std::vector<Option> options;
        bool me_ok = !me->finished && runnable(me) && !me->yielded;
        int others = 0;
        if(me_ok) options.push_back({me->id, 'r', 0});
        bool any = me_ok;
        for(auto t: E->threads) if(t != me && !t->finished && runnable(t) && !t->yielded) {
            options.push_back({t->id, 'r', me_ok ? 1 : 0}); any = true; ++others;
        }
        if(!any) {
            // Only threads that yielded can run. Let time pass first, if
            // somebody waits for that.
            bool timed = false;
            for(auto t: E->threads) if(!t->finished && t->timed &&
                (t->kind == CONDBLOCK || t->kind == FUTEXBLOCK || t->kind == SLEEPBLOCK)) timed = true;
            bool unyielded = false;
            if(!timed) for(auto t: E->threads) if(t->yielded) { t->yielded = false; unyielded = true; }
            if(unyielded) continue;
        }
        for(auto t: E->threads) if(!t->finished && !runnable(t)) {
            bool blocked = t->kind == CONDBLOCK || t->kind == FUTEXBLOCK || t->kind == SLEEPBLOCK;
            if(blocked && t->timed) options.push_back({t->id, 't', any ? 1 : 0});
            if(t->kind == CONDBLOCK && any && E->spurious < E->opt.max_spurious)
                options.push_back({t->id, 's', 1});
        }
        if(options.empty()) {
            bool alive = false;
            for(auto t: E->threads) if(!t->finished) alive = true;
            if(!alive) return nullptr;
            do_fail("deadlock:" + describe_blocked());
        }
        int c = decide(options, me_ok ? me->id : -1);
        Option o = options[c];
        Thread* t = E->threads[o.tid];
        if(o.what == 'r') {
            return t;
        }
        if(o.what == 't') {
            if(!any) {
                if(++E->idle_timeouts > E->opt.max_idle_timeouts)
                    do_fail("livelock: only timed waits make progress:" + describe_blocked());
            }
            wake_from_block(t, true);
        }
        else {
            t->h = mix(t->h, 992);
            wake_from_block(t, false);
        }
    }
}

void switch_to(Thread* me, Thread* next)
{
    if(next == me) return;
    unpark(next);
    park(me);
}

void note(Thread* t, Kind k, Obj* o, uptr pc)
{
    ++E->steps; ++E->stats.transitions;
    if(E->steps > E->opt.max_steps) do_fail("step limit: no termination:" + describe_blocked());
    E->log.push_back({t->id, k, o ? o->id : -1, pc});
    for(auto u: E->threads) if(u != t) u->yielded = false;
}

// Scheduling point before operation k on o.
void point(Kind k, Obj* o, uptr pc)
{
    Thread* t = tl_self;
    t->kind = k; t->obj = o; t->timed = false;
    Thread* next = choose(t);
    switch_to(t, next);
    note(t, k, o, pc);
    if(o) touch(t, o, k);
}

// Block until woken.
void block(Kind k, Obj* o)
{
    Thread* t = tl_self;
    t->kind = k; t->obj = o;
    t->timed_out = false;
    Thread* next = choose(t);
    switch_to(t, next);
}

void release(Thread* t, VC& vc) { vc.join(t->vc); ++t->vc.c[t->id]; }
void acquire(Thread* t, VC const& vc) { t->vc.join(vc); }

// ---------------------------------------------------------------- real functions
template<class F> F real_fn(char const* name)
{
    F f = (F)dlsym(RTLD_NEXT, name);
    if(!f) { fprintf(stderr, "MC-ERROR no %s\n", name); _exit(6); }
    return f;
}
template<class F> struct RealFn { F f = nullptr; F get(char const* name) { if(!f) f = real_fn<F>(name); return f; } };
#define REAL(name) (real_##name.get(#name))
RealFn<decltype(&pthread_create)> real_pthread_create;
RealFn<decltype(&pthread_join)> real_pthread_join;
RealFn<decltype(&pthread_detach)> real_pthread_detach;
RealFn<decltype(&pthread_mutex_lock)> real_pthread_mutex_lock;
RealFn<decltype(&pthread_mutex_trylock)> real_pthread_mutex_trylock;
RealFn<decltype(&pthread_mutex_unlock)> real_pthread_mutex_unlock;
RealFn<decltype(&pthread_cond_wait)> real_pthread_cond_wait;
RealFn<decltype(&pthread_cond_timedwait)> real_pthread_cond_timedwait;

#define PC ((uptr)__builtin_return_address(0))

u64 to_ns(timespec const* ts) { return (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec; }

// ---------------------------------------------------------------- threads
void* trampoline(void* p)
{
    Thread* t = (Thread*)p;
    tl_self = t; ++tl_in;
    park(t);
    note(t, START, nullptr, (uptr)t->fn);
    --tl_in;
    void* ret = t->fn(t->arg);
    ++tl_in;
    t->ret = ret;
    // Exit
    t->kind = EXIT; t->obj = nullptr;
    {
        Thread* next = choose(t);
        switch_to(t, next);
    }
    note(t, EXIT, nullptr, 0);
    t->finished = true;
    t->h = mix(t->h, EXIT);
    Thread* next = choose(t);
    tl_self = nullptr;
    --tl_in;
    if(next) unpark(next);
    return ret;
}

} // namespace

// ==================================================================== interposed
extern "C" {

int pthread_create(pthread_t* out, pthread_attr_t const* attr, void* (*fn)(void*), void* arg) noexcept
{
    if(!managed()) return REAL(pthread_create)(out, attr, fn, arg);
    Guard g;
    Thread* me = tl_self;
    point(CREATE, nullptr, PC);
    if(E->nr_creates++ == E->opt.fail_create_at) {
        me->h = mix(me->h, 555);
        return EAGAIN;
    }
    if((int)E->threads.size() >= MAXT) do_fail("too many threads for the engine");
    Thread* t = new Thread;
    t->id = E->threads.size();
    t->fn = fn; t->arg = arg;
    t->h = mix(mix(me->h, 4242), t->id);
    t->vc = me->vc; t->vc.c[t->id] = 1;
    ++me->vc.c[me->id];
    me->h = mix(me->h, t->h);
    t->kind = START;
    E->threads.push_back(t);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 512 * 1024);
    if(attr) { int ds; pthread_attr_getdetachstate(attr, &ds); if(ds == PTHREAD_CREATE_DETACHED) { t->detached = true; pthread_attr_setdetachstate(&a, ds); } }
    int rc = REAL(pthread_create)(&t->real, &a, &trampoline, t);
    pthread_attr_destroy(&a);
    if(rc) { fprintf(stderr, "MC-ERROR real pthread_create: %d\n", rc); _exit(6); }
    if(!t->detached) {
        pthread_attr_t ra;
        void* sa; size_t ss;
        if(pthread_getattr_np(t->real, &ra) == 0) {
            pthread_attr_getstack(&ra, &sa, &ss);
            t->stack_lo = (uptr)sa; t->stack_hi = (uptr)sa + ss;
            // Only pages known to the shadow are visited.
            if(g_pages) {
                for(uptr pg = t->stack_lo & ~4095ul; pg < t->stack_hi + 8192; pg += 4096) {
                    auto it = g_pages->find(pg >> 12);
                    if(it != g_pages->end()) for(auto& gr: it->second->g) gr.exec = 0;
                }
                auto it = E->objs.lower_bound(t->stack_lo);
                while(it != E->objs.end() && it->first < t->stack_hi) {
                    E->graveyard.push_back(it->second); it = E->objs.erase(it);
                }
            }
            pthread_attr_destroy(&ra);
        }
    }
    *out = t->real;
    E->stats.max_threads = std::max<long>(E->stats.max_threads, E->threads.size());
    return 0;
}

static Thread* find_thread(pthread_t p)
{
    for(size_t i = E->threads.size(); i-- > 0;)
        if(E->threads[i]->real == p && !E->threads[i]->joined) return E->threads[i];
    return nullptr;
}

int pthread_join(pthread_t p, void** ret)
{
    if(!managed()) return REAL(pthread_join)(p, ret);
    Guard g;
    Thread* me = tl_self;
    Thread* t = find_thread(p);
    if(!t || t->joined || t->detached) do_fail("pthread_join of an unknown, joined or detached thread");
    if(t == me) return EDEADLK;
    me->target = t;
    point(JOIN, nullptr, PC);
    me->vc.join(t->vc);
    me->h = mix(me->h, t->h);
    t->joined = true;
    int rc = REAL(pthread_join)(p, nullptr);
    if(ret) *ret = t->ret;
    return rc;
}

int pthread_detach(pthread_t p) noexcept
{
    if(!managed()) return REAL(pthread_detach)(p);
    Guard g;
    Thread* t = find_thread(p);
    if(!t) do_fail("pthread_detach of an unknown thread");
    point(DETACH, nullptr, PC);
    t->detached = true;
    t->joined = true;
    return REAL(pthread_detach)(p);
}

static int lock_common(pthread_mutex_t* m, uptr pc)
{
    Thread* t = tl_self;
    check_alive((uptr)m, pc, "mutex lock");
    Obj* o = obj_of((uptr)m);
    int kind = m->__data.__kind & 3;
    if(o->owner == t && kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++o->recursion; return 0; }
    point(LOCK, o, pc);
    o->owner = t;
    if(kind == PTHREAD_MUTEX_RECURSIVE_NP) o->recursion = 1;
    acquire(t, o->vc);
    return 0;
}

int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if(!managed()) { if(g_active || tl_self) return 0; return REAL(pthread_mutex_lock)(m); }
    Guard g;
    return lock_common(m, PC);
}

int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if(!managed()) { if(g_active || tl_self) return 0; return REAL(pthread_mutex_trylock)(m); }
    Guard g;
    Thread* t = tl_self;
    check_alive((uptr)m, PC, "mutex trylock");
    Obj* o = obj_of((uptr)m);
    int kind = m->__data.__kind & 3;
    if(o->owner == t && kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++o->recursion; return 0; }
    point(TRYLOCK, o, PC);
    if(o->owner) { t->h = mix(t->h, 3); return EBUSY; }
    o->owner = t;
    if(kind == PTHREAD_MUTEX_RECURSIVE_NP) o->recursion = 1;
    acquire(t, o->vc);
    return 0;
}

int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if(!managed()) { if(g_active || tl_self) return 0; return REAL(pthread_mutex_unlock)(m); }
    Guard g;
    Thread* t = tl_self;
    check_alive((uptr)m, PC, "mutex unlock");
    Obj* o = obj_of((uptr)m);
    if(o->owner != t) do_fail("unlock of a mutex not owned by the thread at " + resolve(PC));
    int kind = m->__data.__kind & 3;
    if(kind == PTHREAD_MUTEX_RECURSIVE_NP && --o->recursion > 0) return 0;
    point(UNLOCK, o, PC);
    o->owner = nullptr;
    o->recursion = 0;
    release(t, o->vc);
    return 0;
}

int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
    if(!managed()) return 0;
    Guard g;
    Obj* o = obj_of((uptr)m);
    if(o->owner) do_fail("destruction of a locked mutex");
    E->objs.erase((uptr)m);
    E->graveyard.push_back(o);
    return 0;
}

static int wait_common(pthread_cond_t* c, pthread_mutex_t* m, timespec const* ts, uptr pc)
{
    Thread* t = tl_self;
    check_alive((uptr)c, pc, "condition wait");
    Obj* co = obj_of((uptr)c);
    Obj* mo = obj_of((uptr)m);
    if(mo->owner != t) do_fail("condition wait without holding the mutex");
    point(CONDWAIT, co, pc);
    touch(t, mo, UNLOCK);
    mo->owner = nullptr;
    release(t, mo->vc);
    co->waiters.push_back(t);
    t->mutex = mo;
    t->timed = ts != nullptr;
    t->deadline = ts ? to_ns(ts) : 0;
    block(CONDBLOCK, co);
    // Woken and scheduled with the mutex free: t->kind == LOCK
    note(t, LOCK, mo, pc);
    touch(t, mo, LOCK);
    mo->owner = t;
    acquire(t, mo->vc);
    t->timed = false;
    return t->timed_out ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if(!managed()) return REAL(pthread_cond_wait)(c, m);
    Guard g;
    return wait_common(c, m, nullptr, PC);
}

int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* ts)
{
    if(!managed()) return REAL(pthread_cond_timedwait)(c, m, ts);
    Guard g;
    return wait_common(c, m, ts, PC);
}

int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, timespec const* ts)
{
    if(!managed()) { fprintf(stderr, "MC-ERROR unmanaged clockwait\n"); _exit(6); }
    Guard g;
    return wait_common(c, m, ts, PC);
}

static int notify_common(pthread_cond_t* c, bool all, uptr pc)
{
    Thread* t = tl_self;
    check_alive((uptr)c, pc, "notification");
    Obj* o = obj_of((uptr)c);
    point(all ? BROADCAST : SIGNAL, o, pc);
    if(all) {
        auto w = o->waiters;
        for(auto u: w) { u->h = mix(u->h, t->h); wake_from_block(u, false); }
    }
    else if(!o->waiters.empty()) {
        std::vector<Option> options;
        for(auto u: o->waiters) options.push_back({u->id, 'w', 0});
        int k = decide(options, 1000 + t->id);
        Thread* u = o->waiters[k];
        u->h = mix(u->h, t->h);
        wake_from_block(u, false);
    }
    return 0;
}

int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    if(!managed()) return 0;
    Guard g;
    return notify_common(c, false, PC);
}

int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    if(!managed()) return 0;
    Guard g;
    return notify_common(c, true, PC);
}

int pthread_cond_init(pthread_cond_t* c, pthread_condattr_t const*) noexcept
{
    memset((void*)c, 0, sizeof *c);
    if(managed()) {
        Guard g;
        auto it = E->objs.find((uptr)c);
        if(it != E->objs.end()) { E->graveyard.push_back(it->second); E->objs.erase(it); }
    }
    return 0;
}

int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
    if(!managed()) return 0;
    Guard g;
    Obj* o = obj_of((uptr)c);
    if(!o->waiters.empty()) do_fail("destruction of a condition variable a thread is waiting on");
    E->objs.erase((uptr)c);
    E->graveyard.push_back(o);
    return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept
{
    if(!managed()) return 0;
    Guard g; Thread* t = tl_self; check_alive((uptr)l, PC, "rdlock");
    Obj* o = obj_of((uptr)l);
    if(o->owner == t) return EDEADLK;
    point(RDLOCK, o, PC); ++o->readers; acquire(t, o->vc);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept
{
    if(!managed()) return 0;
    Guard g; Thread* t = tl_self; check_alive((uptr)l, PC, "wrlock");
    Obj* o = obj_of((uptr)l);
    if(o->owner == t) return EDEADLK;
    point(WRLOCK, o, PC); o->owner = t; acquire(t, o->vc);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
    if(!managed()) return 0;
    Guard g; Thread* t = tl_self; check_alive((uptr)l, PC, "rwunlock");
    Obj* o = obj_of((uptr)l);
    point(RWUNLOCK, o, PC);
    if(o->owner == t) o->owner = nullptr;
    else if(o->readers > 0) --o->readers;
    else do_fail("unlock of an unlocked rwlock");
    release(t, o->vc);
    return 0;
}

// std::call_once: run the routine under the object's ownership.
int pthread_once(pthread_once_t* o_, void (*fn)(void))
{
    if(!managed()) {
        if(*o_ == 2) return 0;
        fn(); *o_ = 2; return 0;
    }
    Thread* t = tl_self;
    Obj* o;
    {
        Guard g;
        check_alive((uptr)o_, PC, "once");
        o = obj_of((uptr)o_);
        point(ONCE, o, PC);
        acquire(t, o->vc);
        if(*o_ == 2) return 0;
        o->owner = t;
    }
    try { fn(); }
    catch(...) {
        Guard g;
        o->owner = nullptr; release(t, o->vc); touch(t, o, ONCE);
        throw;
    }
    {
        Guard g;
        point(ONCEDONE, o, PC);
        *o_ = 2;
        o->owner = nullptr;
        release(t, o->vc);
    }
    return 0;
}

int __cxa_guard_acquire(long long* gv)
{
    unsigned char* b = (unsigned char*)gv;
    if(!managed()) { if(*b) return 0; return 1; }
    Guard g;
    Thread* t = tl_self;
    Obj* o = obj_of((uptr)gv);
    point(GUARD, o, PC);
    acquire(t, o->vc);
    if(*b) return 0;
    o->owner = t;
    return 1;
}
void __cxa_guard_release(long long* gv)
{
    unsigned char* b = (unsigned char*)gv;
    *b = 1;
    if(!managed()) return;
    Guard g;
    Thread* t = tl_self;
    Obj* o = obj_of((uptr)gv);
    o->owner = nullptr; release(t, o->vc); touch(t, o, GUARD);
}
void __cxa_guard_abort(long long* gv)
{
    if(!managed()) return;
    Guard g;
    Obj* o = obj_of((uptr)gv);
    o->owner = nullptr; touch(tl_self, o, GUARD);
}

// The reference count of exception objects lives in libstdc++, which is not
// instrumented: give the race detector its edges.
static void exception_edge()
{
    if(!managed()) return;
    Guard g;
    acquire(tl_self, E->exceptions);
    release(tl_self, E->exceptions);
}

void __cxa_end_catch()
{
    exception_edge();
    static void (*f)() = nullptr;
    if(!f) { Guard g; f = (void (*)())dlsym(RTLD_NEXT, "__cxa_end_catch"); }
    f();
}

void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void* self)
{
    exception_edge();
    static void (*f)(void*) = nullptr;
    if(!f) { Guard g; f = (void (*)(void*))dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"); }
    f(self);
}

// Time.
int clock_gettime(clockid_t id, timespec* ts) noexcept
{
    if(!managed()) return (int)raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
    ts->tv_sec = E->now_ns / 1000000000ull; ts->tv_nsec = E->now_ns % 1000000000ull;
    return 0;
}

static void sleep_common(u64 deadline, uptr pc)
{
    Thread* t = tl_self;
    point(SLEEP, nullptr, pc);
    t->timed = true; t->deadline = deadline;
    block(SLEEPBLOCK, nullptr);
    t->timed = false;
}

int nanosleep(timespec const* ts, timespec*)
{
    if(!managed()) return (int)raw6(SYS_nanosleep, (long)ts, 0, 0, 0, 0, 0);
    Guard g; sleep_common(E->now_ns + to_ns(ts), PC); return 0;
}
int clock_nanosleep(clockid_t, int flags, timespec const* ts, timespec*)
{
    if(!managed()) return (int)raw6(SYS_nanosleep, (long)ts, 0, 0, 0, 0, 0);
    Guard g; sleep_common((flags & TIMER_ABSTIME) ? to_ns(ts) : E->now_ns + to_ns(ts), PC); return 0;
}
int usleep(useconds_t us)
{
    if(!managed()) return 0;
    Guard g; sleep_common(E->now_ns + us * 1000ull, PC); return 0;
}
int sched_yield() noexcept
{
    if(!managed()) return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    Guard g;
    point(SLEEP, nullptr, PC);
    tl_self->yielded = true;
    Thread* t = tl_self;
    t->kind = START; t->obj = nullptr;
    Thread* next = choose(t);
    switch_to(t, next);
    t->yielded = false;
    return 0;
}

long syscall(long n, ...) noexcept
{
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
        e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if(n == SYS_futex && managed()) {
        Guard g;
        Thread* t = tl_self;
        int op = (int)b & 127;
        check_alive((uptr)a, PC, "futex");
        Obj* o = obj_of((uptr)a);
        if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            point(FUTEXWAIT, o, PC);
            if(*(volatile u32*)a != (u32)c) { errno = EAGAIN; return -1; }
            timespec const* ts = (timespec const*)d;
            t->timed = ts != nullptr;
            t->deadline = ts ? (op == FUTEX_WAIT ? E->now_ns + to_ns(ts) : to_ns(ts)) : 0;
            o->waiters.push_back(t);
            block(FUTEXBLOCK, o);
            t->timed = false;
            if(t->timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            point(FUTEXWAKE, o, PC);
            int k = 0;
            while(!o->waiters.empty() && k < (int)c) {
                Thread* u = o->waiters.front();
                u->h = mix(u->h, t->h);
                wake_from_block(u, false);
                ++k;
            }
            return k;
        }
        fprintf(stderr, "MC-ERROR futex op %d\n", op); _exit(6);
    }
    long r = raw6(n, a, b, c, d, e, f);
    if(r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ---------------------------------------------------------------- memory
static inline void raw_copy(void* d, void const* s, size_t n)
{
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory");
}

void* memcpy(void* d, void const* s, size_t n)
{
    if(managed() && n) { access_range((uptr)s, n, 0, PC); access_range((uptr)d, n, 1, PC); }
    raw_copy(d, s, n);
    return d;
}

void* memmove(void* d, void const* s, size_t n)
{
    if(managed() && n) { access_range((uptr)s, n, 0, PC); access_range((uptr)d, n, 1, PC); }
    if((uptr)d <= (uptr)s || (uptr)d >= (uptr)s + n) { raw_copy(d, s, n); }
    else {
        void* dd = (char*)d + n - 1; void const* ss = (char const*)s + n - 1; size_t k = n;
        __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(ss), "+c"(k) :: "memory");
    }
    return d;
}

void* memset(void* d, int c, size_t n)
{
    if(managed() && n) access_range((uptr)d, n, 1, PC);
    void* dd = d;
    __asm__ volatile("rep stosb" : "+D"(dd), "+c"(n) : "a"(c) : "memory");
    return d;
}

void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    if(p && managed()) { Guard g; clear_range((uptr)p, malloc_usable_size(p), false); }
    return p;
}
void* calloc(size_t a, size_t b)
{
    void* p = __libc_calloc(a, b);
    if(p && managed()) { Guard g; clear_range((uptr)p, malloc_usable_size(p), false); }
    return p;
}
void free(void* p)
{
    if(!p) return;
    if(managed()) {
        size_t n = malloc_usable_size(p);
        { Guard g; acquire(tl_self, E->exceptions); }
        access_range((uptr)p, n, 1, PC);
        Guard g; clear_range((uptr)p, n, true);
    }
    __libc_free(p);
}
void* realloc(void* p, size_t n)
{
    if(!managed()) return __libc_realloc(p, n);
    if(!p) return malloc(n);
    if(!n) { free(p); return nullptr; }
    void* q = malloc(n);
    size_t k = malloc_usable_size(p);
    memcpy(q, p, k < n ? k : n);
    free(p);
    return q;
}
void* memalign(size_t a, size_t n)
{
    void* p = __libc_memalign(a, n);
    if(p && managed()) { Guard g; clear_range((uptr)p, malloc_usable_size(p), false); }
    return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** out, size_t a, size_t n) { *out = memalign(a, n); return *out ? 0 : ENOMEM; }

// ---------------------------------------------------------------- tsan hooks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* a) { access_range((uptr)a, n, 0, PC); } \
    void __tsan_write##n(void* a) { access_range((uptr)a, n, 1, PC); } \
    void __tsan_unaligned_read##n(void* a) { access_range((uptr)a, n, 0, PC); } \
    void __tsan_unaligned_write##n(void* a) { access_range((uptr)a, n, 1, PC); } \
    void __tsan_volatile_read##n(void* a) { access_range((uptr)a, n, 0, PC); } \
    void __tsan_volatile_write##n(void* a) { access_range((uptr)a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, uptr n) { access_range((uptr)a, n, 0, PC); }
void __tsan_write_range(void* a, uptr n) { access_range((uptr)a, n, 1, PC); }
void __tsan_vptr_update(void** p, void* v) { if(*p != v) access_range((uptr)p, 8, 1, PC); }
void __tsan_vptr_read(void** p) { access_range((uptr)p, 8, 0, PC); }

} // extern "C"

namespace {

// kind: 0 load, 1 store, 2 rmw. mo: memory_order
void atomic_op(uptr a, int size, int kind, int mo, uptr pc)
{
    Thread* t = tl_self;
    check_alive(a, pc, "atomic");
    Obj* o = obj_of(a);
    if(kind == 0) {
        t->kind = LOAD; t->obj = o; t->timed = false;
        Thread* next = choose(t);
        switch_to(t, next);
        note(t, LOAD, o, pc);
        t->h = mix(mix(t->h, LOAD), o->h);
    }
    else point(ATOMIC, o, pc);
    {
        // tl_in is 1 here: call the granule code directly.
        uptr end = a + size;
        for(uptr g = a & ~7ul; g < end; g += 8) {
            unsigned lo = a > g ? a - g : 0, hi = end < g + 8 ? end - g : 8;
            access_gran(t, g, (unsigned char)(((1u << (hi - lo)) - 1) << lo), kind == 0 ? 2 : 3, pc);
        }
    }
    mo &= 0xff;
    bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    if(kind != 1 && acq) acquire(t, o->vc);
    if(kind == 1) { o->vc.clear(); }
    if(kind != 0 && rel) release(t, o->vc);
}

} // namespace

extern "C" {
#define ATOMICS(bits, T) \
T __tsan_atomic##bits##_load(T const volatile* a, int mo) { \
    if(!managed()) return *a; Guard g; atomic_op((uptr)a, sizeof(T), 0, mo, PC); return *a; } \
void __tsan_atomic##bits##_store(T volatile* a, T v, int mo) { \
    if(!managed()) { *a = v; return; } Guard g; atomic_op((uptr)a, sizeof(T), 1, mo, PC); *a = v; } \
T __tsan_atomic##bits##_exchange(T volatile* a, T v, int mo) { \
    if(!managed()) { T o = *a; *a = v; return o; } Guard g; atomic_op((uptr)a, sizeof(T), 2, mo, PC); T o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(T volatile* a, T v, int mo) { \
    if(!managed()) { T o = *a; *a = o + v; return o; } Guard g; atomic_op((uptr)a, sizeof(T), 2, mo, PC); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(T volatile* a, T v, int mo) { \
    if(!managed()) { T o = *a; *a = o - v; return o; } Guard g; atomic_op((uptr)a, sizeof(T), 2, mo, PC); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(T volatile* a, T v, int mo) { \
    if(!managed()) { T o = *a; *a = o & v; return o; } Guard g; atomic_op((uptr)a, sizeof(T), 2, mo, PC); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(T volatile* a, T v, int mo) { \
    if(!managed()) { T o = *a; *a = o | v; return o; } Guard g; atomic_op((uptr)a, sizeof(T), 2, mo, PC); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(T volatile* a, T v, int mo) { \
    if(!managed()) { T o = *a; *a = o ^ v; return o; } Guard g; atomic_op((uptr)a, sizeof(T), 2, mo, PC); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(T volatile* a, T v, int mo) { \
    if(!managed()) { T o = *a; *a = ~(o & v); return o; } Guard g; atomic_op((uptr)a, sizeof(T), 2, mo, PC); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(T volatile* a, T* e, T v, int mo, int) { \
    if(managed()) { Guard g; atomic_op((uptr)a, sizeof(T), 2, mo, PC); } \
    if(*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(T volatile* a, T* e, T v, int mo, int) { \
    if(managed()) { Guard g; atomic_op((uptr)a, sizeof(T), 2, mo, PC); } \
    if(*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(T volatile* a, T e, T v, int mo, int) { \
    if(managed()) { Guard g; atomic_op((uptr)a, sizeof(T), 2, mo, PC); } \
    T o = *a; if(o == e) *a = v; return o; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, u32)
ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int)
{
    if(!managed()) return;
    Guard g; point(ATOMIC, &E->fence, PC); acquire(tl_self, E->fence.vc); release(tl_self, E->fence.vc);
}
void __tsan_atomic_signal_fence(int) {}
}

// ==================================================================== explorer
namespace mc {

void fail(std::string const& message) { do_fail(message); }
void outcome(std::string const& text) { if(E) { ++tl_in; E->outcome += text; --tl_in; } }
bool active() { return g_active; }
int self() { return tl_self ? tl_self->id : -1; }
void set_replay(std::string const& path) { g_replay_path = path; }
void set_report(std::string const& path) { g_report_path = path; }

static void run_once(std::function<void()> const& body)
{
    for(auto t: E->threads) delete t;
    E->threads.clear();
    for(auto& o: E->objs) delete o.second;
    E->objs.clear();
    for(auto o: E->graveyard) delete o;
    E->graveyard.clear();
    E->fence = Obj();
    E->exceptions.clear();
    E->next_obj = 0; E->nr_creates = 0; E->idle_timeouts = 0; E->steps = 0;
    E->now_ns = 1000000000ull;
    E->log.clear(); E->outcome.clear();
    E->cursor = 0; E->dev = 0; E->spurious = 0; E->frozen = false;
    ++E->exec;
    Thread* t = new Thread;
    t->id = 0; t->real = pthread_self(); t->vc.c[0] = 1; t->h = 1;
    E->threads.push_back(t);
    tl_self = t;
    __libc_single_threaded = 0;
    signal(SIGPROF, on_hang);
    set_hang_timer(hang_seconds);
    g_active = true;
    try { body(); }
    catch(std::exception const& e) { do_fail(std::string("exception escapes the driver: ") + e.what()); }
    catch(...) { do_fail("exception escapes the driver"); }
    ++tl_in;
    for(auto u: E->threads) if(u != t && !u->finished)
        do_fail("a thread is still running after the end of the scenario:" + describe_blocked());
    for(auto u: E->threads) if(u != t && !u->joined)
        do_fail("a thread was never joined");
    g_active = false;
    set_hang_timer(0);
    tl_self = nullptr;
    --tl_in;
    E->outcomes.insert(E->outcome);
}

static double now()
{
    timespec ts; raw6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

Stats explore(std::string const& name, std::function<void()> const& body, Options const& options)
{
    signal(SIGABRT, on_signal); signal(SIGSEGV, on_signal); signal(SIGFPE, on_signal);
    signal(SIGILL, on_signal); signal(SIGBUS, on_signal);
    {
        // One core: hand-offs between threads are cheapest there.
        cpu_set_t set; CPU_ZERO(&set);
        int cpu = sched_getcpu();
        CPU_SET(cpu < 0 ? 0 : cpu, &set);
        if(!getenv("MC_NOPIN")) sched_setaffinity(0, sizeof set, &set);
    }
    delete E; E = new Engine;
    E->opt = options;
    E->stats.name = name;
    double t0 = now();

    // Warm up: lazily initialised globals are initialised.
    E->replaying = true;
    E->replay_choices.clear();
    run_once(body);
    if(!g_replay_path.empty()) {
        FILE* f = fopen(g_replay_path.c_str(), "r");
        if(!f) { fprintf(stderr, "MC-ERROR cannot read replay\n"); _exit(6); }
        std::string text; char buf[4096]; size_t n;
        while((n = fread(buf, 1, sizeof buf, f)) > 0) text.append(buf, n);
        fclose(f);
        auto p = text.find("\"choices\": [");
        if(p != std::string::npos) {
            char const* s = text.c_str() + p + 12;
            while(*s && *s != ']') {
                char* e; long v = strtol(s, &e, 10);
                if(e == s) break;
                E->replay_choices.push_back((int)v);
                s = e; while(*s == ',' || *s == ' ') ++s;
            }
        }
        E->path.clear();
        run_once(body);
        fprintf(stderr, "MC-REPLAY no failure (%s) outcome %s\n", name.c_str(), E->outcome.c_str());
        E->stats.executions = 1;
        return E->stats;
    }
    E->replaying = false;
    E->outcomes.clear();

    for(int bound = 0; bound <= options.max_dev; ++bound) {
        E->bound = bound;
        E->visited.clear();
        E->path.clear();
        E->cut_by_bound = false;
        bool done = false;
        E->replay_len = 0;
        while(!done) {
            run_once(body);
            ++E->stats.executions;
            if(E->path.size() > E->cursor) { fprintf(stderr, "MC-ERROR nondeterminism: shorter execution\n"); _exit(6); }
            // Backtrack.
            for(;;) {
                if(E->path.empty()) { done = true; break; }
                Decision& d = E->path.back();
                bool found = false;
                if(!d.frozen) {
                    bool prefix_default = true;
                    if(options.nr_shards > 1) {
                        for(size_t i = 0; i + 1 < E->path.size() && prefix_default; ++i)
                            if(E->path[i].chosen != 0) prefix_default = false;
                        if(prefix_default && (int)((E->path.size() - 1) % options.nr_shards) != options.shard) {
                            E->path.pop_back();
                            continue;
                        }
                    }
                    for(int k = d.chosen + 1; k < (int)d.options.size(); ++k) {
                        if(d.dev_before + d.options[k].cost > bound) { E->cut_by_bound = true; continue; }
                        d.chosen = k; found = true; break;
                    }
                }
                if(found) break;
                E->path.pop_back();
            }
            E->replay_len = E->path.size();
            if(!done && now() - t0 > options.max_seconds) { E->stats.capped = true; break; }
        }
        E->stats.states = std::max<long>(E->stats.states, (long)E->visited.size());
        if(E->stats.capped) break;
        E->stats.bound_completed = bound;
        if(!E->cut_by_bound) { E->stats.exhausted = true; break; }
    }
    E->stats.outcomes.assign(E->outcomes.begin(), E->outcomes.end());
    E->stats.wall = now() - t0;
    return E->stats;
}

} // namespace mc
