// Exhaustive bounded enumeration against the real code: shared driver.
//
// A harness registers suites. A suite enumerates cases; ctx.begin() is called
// at the start of each one and tells whether this process runs it (cases are
// dealt out to shards by index). The description of the running case lives in
// a shared mapping, so that a crash is attributed to a case.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace seq {

inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t x = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C159E3779B9ull;
    x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; x *= 0x94D049BB133111EBull; x ^= x >> 31;
    return x;
}

inline uint64_t hash(std::string const& s)
{
    uint64_t h = 1469598103934665603ull;
    for(unsigned char c: s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

inline std::string escape(std::string const& s)
{
    std::string r;
    for(unsigned char c: s) {
        if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if(c == '\n') r += "\\n";
        else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

struct Slot { char suite[128]; uint64_t index; char text[4096]; };

class Context
{
public:
    std::string    property, tier = "quick", suite;
    int            shard = 0, nr_shards = 1;
    bool           only = false;
    std::string    only_suite;
    uint64_t       only_index = 0;
    uint64_t       skip_to = 0;

    uint64_t       index = 0;            // of the case, within the suite
    uint64_t       evaluations = 0;      // comparisons of the real code with the model
    uint64_t       cases = 0;            // cases run by this process
    std::unordered_set<uint64_t> states; // distinct non-trivial cases / states
    uint64_t       transitions = 0;
    std::map<std::string, uint64_t> outcomes;
    std::map<std::string, std::pair<uint64_t, std::string>> violations;
    std::vector<std::string> samples;
    Slot*          slot = nullptr;

    bool           thorough() const { return tier == "thorough"; }

    // Start of a case.
    bool begin()
    {
        uint64_t i = index++;
        if(only) { if(suite != only_suite || i != only_index) return false; }
        else if(i % nr_shards != (uint64_t)shard) return false;
        ++cases;
        slot->index = i;
        slot->text[0] = 0;
        current.clear();
        return true;
    }

    // Describe the running case (cheap: call it before running the real code,
    // when a crash is conceivable).
    void describe(std::string const& text)
    {
        current = text;
        size_t n = std::min(text.size(), sizeof(slot->text) - 1);
        memcpy(slot->text, text.data(), n); slot->text[n] = 0;
        if(only) std::cerr << "CASE " << suite << ':' << slot->index << ' ' << text << '\n';
    }

    void nontrivial(uint64_t h) { states.insert(mix(hash(suite), h)); }
    void nontrivial(std::string const& s) { nontrivial(hash(s)); }
    void outcome(std::string const& s) { ++outcomes[suite + "/" + s]; }

    void sample(std::string const& text)
    {
        if(samples.size() < 6 && (cases < 3 || (cases & (cases - 1)) == 0)) samples.push_back(suite + ": " + text);
    }

    // key: identifies what fails, stable across cases that fail in the same way
    void violation(std::string const& key, std::string const& text)
    {
        if(only) std::cerr << "FAILS " << key << ": " << text << '\n';
        auto full = suite + "/" + key;
        auto it = violations.find(full);
        if(it == violations.end()) {
            if(violations.size() < 40) violations[full] = {slot->index, (current.empty() ? "" : current + ": ") + text};
        }
    }

    bool check(bool ok, std::string const& key, std::string const& text)
    {
        ++evaluations;
        if(!ok) violation(key, text);
        return ok;
    }

private:
    std::string    current;
};

struct Suite
{
    std::string    property, name;
    std::function<void(Context&)> run;
};

inline std::vector<Suite>& suites() { static std::vector<Suite> s; return s; }

struct Register
{
    Register(char const* property, char const* name, std::function<void(Context&)> run)
    { suites().push_back({property, name, run}); }
};

#define SEQ_CAT2(a, b) a##b
#define SEQ_CAT(a, b) SEQ_CAT2(a, b)
#define SUITE_IMPL(property, name, id) \
    static void id(seq::Context&); \
    static seq::Register SEQ_CAT(id, _register)(property, name, id); \
    static void id(seq::Context& ctx)
#define SUITE(property, name) SUITE_IMPL(property, name, SEQ_CAT(suite_, __COUNTER__))

template<class T> std::string str(T const& v) { std::ostringstream s; s.precision(17); s << v; return s.str(); }
inline std::string str(signed char v) { return std::to_string((int)v); }
inline std::string str(unsigned char v) { return std::to_string((int)v); }
inline std::string str(bool v) { return v ? "true" : "false"; }
template<class T> std::string str(std::vector<T> const& v)
{
    std::string r = "[";
    for(size_t i = 0; i < v.size(); ++i) { if(i) r += ' '; T x = v[i]; r += str(x); }
    return r + "]";
}
template<class... T> std::string cat(T const&... v) { std::string r; ((r += str(v)), ...); return r; }

// Calls f with every digits[i] in [0, radix).
template<class F> void tuples(size_t n, unsigned radix, F f)
{
    std::vector<unsigned> d(n, 0);
    for(;;) {
        f(static_cast<std::vector<unsigned> const&>(d));
        size_t i = 0;
        while(i < n && ++d[i] == radix) { d[i] = 0; ++i; }
        if(i == n) break;
    }
}

inline int main_(int argc, char** argv)
{
    Context ctx;
    std::string report, slot_path;
    for(int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], b = argv[i + 1];
        if(a == "--property") ctx.property = b;
        else if(a == "--tier") ctx.tier = b;
        else if(a == "--shard") { ctx.shard = atoi(b.c_str()); ctx.nr_shards = atoi(b.substr(b.find('/') + 1).c_str()); }
        else if(a == "--report") report = b;
        else if(a == "--slot") slot_path = b;
        else if(a == "--case") {
            ctx.only = true;
            auto p = b.rfind(':');
            ctx.only_suite = b.substr(0, p); ctx.only_index = strtoull(b.c_str() + p + 1, nullptr, 10);
        }
    }
    static Slot local;
    ctx.slot = &local;
    if(!slot_path.empty()) {
        int fd = open(slot_path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if(fd < 0 || ftruncate(fd, sizeof(Slot)) != 0) { perror("slot"); return 2; }
        void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if(p == MAP_FAILED) { perror("mmap"); return 2; }
        ctx.slot = (Slot*)p;
        close(fd);
    }
    std::map<std::string, uint64_t> per_suite;
    for(auto const& s: suites()) {
        if(s.property != ctx.property) continue;
        ctx.suite = s.name; ctx.index = 0;
        if(ctx.only && ctx.only_suite != s.name) continue;
        strncpy(ctx.slot->suite, s.name.c_str(), sizeof(ctx.slot->suite) - 1);
        ctx.slot->text[0] = 0;
        try { s.run(ctx); }
        catch(std::exception const& e) { ctx.violation("exception", std::string("unexpected exception: ") + e.what()); }
        catch(...) { ctx.violation("exception", "unexpected exception"); }
        per_suite[s.name] = ctx.index;
    }
    FILE* f = report.empty() ? stdout : fopen(report.c_str(), "w");
    if(!f) { perror("report"); return 2; }
    fprintf(f, "{\"evaluations\":%llu,\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\n\"violations\":[",
        (unsigned long long)ctx.evaluations, (unsigned long long)ctx.cases,
        (unsigned long long)ctx.states.size(), (unsigned long long)ctx.transitions);
    bool first = true;
    for(auto const& v: ctx.violations) {
        fprintf(f, "%s{\"key\":\"%s\",\"suite\":\"%s\",\"index\":%llu,\"text\":\"%s\"}", first ? "" : ",\n",
            escape(v.first).c_str(), escape(v.first.substr(0, v.first.find('/'))).c_str(),
            (unsigned long long)v.second.first, escape(v.second.second).c_str());
        first = false;
    }
    fprintf(f, "],\n\"suites\":{");
    first = true;
    for(auto const& s: per_suite) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", escape(s.first).c_str(), (unsigned long long)s.second); first = false; }
    fprintf(f, "},\n\"outcomes\":{");
    first = true; int n = 0;
    for(auto const& s: ctx.outcomes) { if(++n > 400) break; fprintf(f, "%s\"%s\":%llu", first ? "" : ",", escape(s.first).c_str(), (unsigned long long)s.second); first = false; }
    fprintf(f, "},\n\"samples\":[");
    first = true;
    for(auto const& s: ctx.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", escape(s).c_str()); first = false; }
    fprintf(f, "]}\n");
    if(f != stdout) fclose(f);
    return ctx.violations.empty() ? 0 : 3;
}

} // namespace seq

#ifdef SEQ_MAIN
int main(int argc, char** argv) { return seq::main_(argc, argv); }
#endif
