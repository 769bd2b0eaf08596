// String functions, paths and data names against character-by-character
// definitions, over all short strings of small alphabets.
#define SEQ_MAIN
#include "seq.h"
#include <cassert>
#include <cmath>
#include <sstream>
#include "fern/core/data_name.h"
#include "fern/core/path.h"
#include "fern/core/string.h"

using seq::cat;
using S = std::string;
using Words = std::vector<S>;

namespace {

S quote(S const& s) { S r; for(char c: s) r += c == '\n' ? S("\\n") : c == '\t' ? S("\\t") : S(1, c); return "\"" + r + "\""; }
S listed(Words const& w) { S r; for(auto const& x: w) r += quote(x) + " "; return r; }

// All strings over an alphabet, shortest first.
template<class F> void strings(S const& alphabet, unsigned longest, F const& f)
{
    for(unsigned n = 0; n <= longest; ++n)
        seq::tuples(n, alphabet.size(), [&](std::vector<unsigned> const& t) { S s; for(auto i: t) s += alphabet[i]; f(s); });
}

Words split(S const& s, S const& characters)
{
    Words r; S word;
    for(char c: s + characters[0])
        if(characters.find(c) != S::npos) { if(!word.empty()) r.push_back(word); word.clear(); }
        else word += c;
    return r;
}

S const whitespace(" \t\n\v\f\r");

SUITE("C22", "splitting")
{
    strings("ab, ;", ctx.thorough() ? 8 : 6, [&](S const& s) {
        if(!ctx.begin()) return;
        ctx.describe(cat("split ", quote(s)));
        for(S characters: {",", ";", " ", "a", ",;", ", ", ";, ", "ab", "b;", "x", "x,"}) {
            auto r = fern::split(s, characters), want = split(s, characters);
            ctx.check(r == want, "split", cat("by ", quote(characters), ": ", listed(r), " must be ", listed(want)));
            ++ctx.transitions;
            ctx.outcome(cat(want.size()));
            // Joining the words again with one separator and splitting gives the same words.
            auto again = fern::split(fern::join(r, S(1, characters[0])), characters);
            ctx.check(again == r, "split after join", cat("by ", quote(characters), ": ", listed(again)));
        }
        auto r = fern::split(s), want = split(s, whitespace);
        ctx.check(r == want, "split by whitespace", cat(listed(r), " must be ", listed(want)));
        ctx.nontrivial(s);
        ctx.sample(s);
    });
    strings("a \t\n\v\f\r", ctx.thorough() ? 6 : 4, [&](S const& s) {
        if(!ctx.begin()) return;
        ctx.describe(cat("split by whitespace ", quote(s)));
        auto r = fern::split(s), want = split(s, whitespace), explicitly = fern::split(s, "");
        ctx.check(r == want && explicitly == want, "split by whitespace", cat(listed(r), " must be ", listed(want)));
        ++ctx.transitions;
        ctx.nontrivial("w" + s);
    });
}

SUITE("C22", "stripping")
{
    auto one = [&](S const& s, S const& characters) {
        S const& c = characters.empty() ? whitespace : characters;
        size_t first = 0, last = s.size();
        while(first < s.size() && c.find(s[first]) != S::npos) ++first;
        while(last > first && c.find(s[last - 1]) != S::npos) --last;
        S t(s);
        S& r = fern::strip(t, characters);
        ctx.check(&r == &t && t == s.substr(first, last - first), "strip", cat("of ", quote(characters), ": ", quote(t)));
        if(characters.empty()) { S u(s); fern::strip(u); ctx.check(u == t, "strip", quote(u)); }
        if(!characters.empty()) {
            S b(s), e(s);
            ctx.check(&fern::strip_begin(b, characters) == &b && b == s.substr(first), "strip begin", cat("of ", quote(characters), ": ", quote(b)));
            size_t end = s.size();
            while(end > 0 && c.find(s[end - 1]) != S::npos) --end;
            ctx.check(&fern::strip_end(e, characters) == &e && e == s.substr(0, end), "strip end", cat("of ", quote(characters), ": ", quote(e)));
        }
        ctx.outcome(t == s ? "nothing stripped" : t.empty() ? "all stripped" : "some stripped");
        ++ctx.transitions;
    };
    strings("ab/ ", ctx.thorough() ? 9 : 7, [&](S const& s) {
        if(!ctx.begin()) return;
        ctx.describe(cat("strip ", quote(s)));
        for(S characters: {"", "a", "b", "/", " ", "ab", "ba/", "x", "x/", "ab/ "}) one(s, characters);
        ctx.nontrivial(s);
        ctx.sample(s);
    });
    strings("a \t\n\v\f\r", ctx.thorough() ? 6 : 4, [&](S const& s) {
        if(!ctx.begin()) return;
        ctx.describe(cat("strip ", quote(s)));
        one(s, ""); one(s, "\n\t"); one(s, "a ");
        ctx.nontrivial("w" + s);
    });
}

SUITE("C22", "joining")
{
    Words const words{"", "a", "b", ",", "ab", "a,b"};
    for(unsigned n = 0; n <= (ctx.thorough() ? 6u : 5u); ++n)
        seq::tuples(n, words.size(), [&](std::vector<unsigned> const& t) {
            if(!ctx.begin()) return;
            Words w; for(auto i: t) w.push_back(words[i]);
            ctx.describe(cat("join ", listed(w)));
            for(S separator: {"", ",", ", ", "a"}) {
                S want; for(unsigned i = 0; i < n; ++i) want += (i ? separator : "") + w[i];
                S r = fern::join(w, separator);
                ctx.check(r == want, "join", cat("with ", quote(separator), ": ", quote(r)));
                ++ctx.transitions;
            }
            ctx.outcome(cat(n));
            ctx.nontrivial(cat(n, fern::join(w, "|")));
        });
}

bool at(S const& s, size_t i, S const& what) { for(size_t k = 0; k < what.size(); ++k) if(i + k >= s.size() || s[i + k] != what[k]) return false; return true; }

SUITE("C22", "searching and replacing")
{
    unsigned const longest = ctx.thorough() ? 9 : 7;
    Words parts; strings("ab", 3, [&](S const& p) { parts.push_back(p); });
    parts.push_back("A"); parts.push_back("abab"); parts.push_back("abaab");
    strings("ab", longest, [&](S const& s) {
        if(!ctx.begin()) return;
        ctx.describe(cat("search and replace in ", quote(s)));
        for(auto const& p: parts) {
            bool has = p.empty();
            for(size_t i = 0; i < s.size(); ++i) has |= at(s, i, p);
            ctx.check(fern::contains(s, p) == has, "contains", cat(quote(p), ": ", fern::contains(s, p)));
            ctx.check(fern::starts_with(s, p) == at(s, 0, p), "starts with", cat(quote(p), ": ", fern::starts_with(s, p)));
            ctx.check(fern::ends_with(s, p) == (p.size() <= s.size() && at(s, s.size() - p.size(), p)), "ends with", cat(quote(p), ": ", fern::ends_with(s, p)));
            ctx.outcome(has ? "found" : "not found");
            if(p.empty()) continue;
            for(auto const& q: parts) {
                S want;
                for(size_t i = 0; i < s.size(); ) if(at(s, i, p)) { want += q; i += p.size(); } else want += s[i++];
                S t(s);
                S& r = fern::replace(t, p, q);
                ctx.check(&r == &t && t == want, "replace", cat(quote(p), " by ", quote(q), ": ", quote(t), " must be ", quote(want)));
                ++ctx.transitions;
            }
        }
        ctx.nontrivial(s);
        ctx.sample(s);
    });
}

// A decimal number: the value of a string, if it is one.
bool decimal(S const& s, bool whole, long double& value)
{
    size_t i = 0; long double sign = 1;
    if(i < s.size() && (s[i] == '-' || s[i] == '+')) sign = s[i++] == '-' ? -1 : 1;
    long double v = 0; size_t digits = 0; int exponent = 0;
    for(; i < s.size() && isdigit(s[i]); ++i, ++digits) v = v * 10 + (s[i] - '0');
    if(!whole && i < s.size() && s[i] == '.') for(++i; i < s.size() && isdigit(s[i]); ++i, ++digits) { v = v * 10 + (s[i] - '0'); --exponent; }
    if(!digits) return false;
    if(!whole && i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        int es = 1, e = 0; size_t ed = 0; ++i;
        if(i < s.size() && (s[i] == '-' || s[i] == '+')) es = s[i++] == '-' ? -1 : 1;
        for(; i < s.size() && isdigit(s[i]); ++i, ++ed) e = e * 10 + (s[i] - '0');
        if(!ed) return false;
        exponent += es * e;
    }
    if(i != s.size()) return false;
    value = sign * v * std::pow(10.0L, (long double)exponent);
    return true;
}

void number(seq::Context& ctx, S const& s, bool floating)
{
    long double v = 0;
    bool whole = decimal(s, true, v);
    if(whole && (v > 9223372036854775807.0L || v < -9223372036854775808.0L)) whole = false;
    bool is = fern::is_convertable_to<int64_t>(s);
    ctx.check(is == whole, "is an integer", cat(is));
    int64_t i = fern::as<int64_t>(s);
    ctx.check(i == (whole ? (int64_t)v : 0), "as integer", cat(i));
    ctx.outcome(whole ? "integer" : "no integer");
    ++ctx.transitions;
    if(!floating) return;
    long double d = 0;
    bool number = decimal(s, false, d);
    bool isd = fern::is_convertable_to<double>(s);
    ctx.check(isd == number, "is a number", cat(isd));
    double got = fern::as<double>(s);
    double want = number ? (double)d : 0.;
    ctx.check(got == want || (number && std::abs(got - want) <= std::abs(want) * 1e-15), "as number", cat(got, ", must be ", want));
    ctx.outcome(number ? "number" : "no number");
}

SUITE("C22", "numbers")
{
    strings("019-+.e a", ctx.thorough() ? 6 : 5, [&](S const& s) {
        if(!ctx.begin()) return;
        ctx.describe(cat("number ", quote(s)));
        // Exponents that do not fit are not at issue here.
        size_t e = s.find('e');
        number(ctx, s, e == S::npos || s.size() - e <= 3);
        ctx.nontrivial(s);
        ctx.sample(s);
    });
    for(S sign: {"", "-", "+"}) for(S prefix: {"922337203685477580", "92233720368547758", "999999999999999999", "1844674407370955161", "0009223372036854775"})
        strings("056789", 2, [&](S const& tail) {
            if(!ctx.begin()) return;
            ctx.describe(cat("number ", quote(sign + prefix + tail)));
            number(ctx, sign + prefix + tail, true);
            ctx.nontrivial(sign + prefix + tail);
        });
}

// Paths -----------------------------------------------------------------------

// The generic format has single separators. (How many of several leading
// separators remain differs between implementations.)
S generic(S const& p) { S r; for(char c: p) if(c != '/' || r.empty() || r.back() != '/') r += c; return r; }

// What the generic path conventions say.
S filename(S const& p) { size_t i = p.rfind('/'); return i == S::npos ? p : p.substr(i + 1); }

size_t extension_at(S const& name)
{
    size_t i = name.rfind('.');
    return name == "." || name == ".." || i == S::npos || i == 0 ? name.size() : i;
}

S parent(S const& p)
{
    size_t i = p.rfind('/');
    if(i == S::npos) return "";
    size_t root = 0; while(root < p.size() && p[root] == '/') ++root;
    if(root == p.size()) return p;                           // Only a root.
    while(i > 0 && p[i - 1] == '/') --i;
    return i == 0 ? p.substr(0, root) : p.substr(0, i);
}

S joined(S const& a, S const& b)
{
    if(!b.empty() && b[0] == '/') return b;
    if(a.empty()) return b;
    return a.back() == '/' ? a + b : a + "/" + b;
}

SUITE("C23", "parts of paths")
{
    strings("ab./", ctx.thorough() ? 8 : 6, [&](S const& p) {
        if(!ctx.begin()) return;
        ctx.describe(cat("path ", quote(p)));
        fern::Path path(p), other(p.c_str());
        auto g = [](fern::Path const& x) { return generic(x.generic_string()); };
        ctx.check(g(path) == generic(p) && path.native_string() == p && g(other) == generic(p) && path == other, "text", quote(g(path)));
        std::ostringstream stream; stream << path;
        ctx.check(generic(stream.str()) == generic(p), "stream", quote(stream.str()));
        ctx.check(path.is_empty() == p.empty(), "is empty", cat(path.is_empty()));
        ctx.check(path.is_absolute() == (!p.empty() && p[0] == '/'), "is absolute", cat(path.is_absolute()));
        S f = filename(p);
        ctx.check(g(path.filename()) == f, "filename", cat(quote(g(path.filename())), ", must be ", quote(f)));
        S stem = f.substr(0, extension_at(f));
        ctx.check(g(path.stem()) == stem, "stem", cat(quote(g(path.stem())), ", must be ", quote(stem)));
        ctx.check(g(path.parent_path()) == generic(parent(p)), "parent", cat(quote(g(path.parent_path())), ", must be ", quote(parent(p))));
        Words names = path.names(), want = split(p, "/");
        ctx.check(names == want, "names", cat(listed(names), ", must be ", listed(want)));
        for(S e: {"", "x", ".x", ".", "x.y"}) {
            fern::Path copy(path);
            S w = p.substr(0, p.size() - f.size()) + stem + (e.empty() || e[0] == '.' ? "" : ".") + e;
            fern::Path& r = copy.replace_extension(e);
            ctx.check(&r == &copy && g(copy) == generic(w), "replace extension", cat("by ", quote(e), ": ", quote(g(copy)), ", must be ", quote(w)));
            ctx.check(g(path) == generic(p), "original", "the original changed");
            ++ctx.transitions;
        }
        fern::Path moved(std::move(other)), assigned;
        ctx.check(assigned.is_empty() && g(assigned).empty(), "default", quote(g(assigned)));
        assigned = moved;
        ctx.check(g(moved) == generic(p) && assigned == path, "move", quote(g(moved)));
        ctx.outcome(cat(want.size()));
        ctx.nontrivial(p);
        ctx.sample(p);
    });
}

SUITE("C23", "joining of paths")
{
    Words all; strings("ab./", ctx.thorough() ? 4 : 3, [&](S const& p) { all.push_back(p); });
    for(auto const& p: all) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("join path ", quote(p), " with others"));
        for(auto const& q: all) {
            fern::Path a(p), b(q);
            fern::Path r = a / b;
            ctx.check(r.native_string() == joined(p, q) && generic(r.generic_string()) == generic(joined(p, q)), "join", cat("with ", quote(q), ": ", quote(r.generic_string()), ", must be ", quote(joined(p, q))));
            ctx.check(a.native_string() == p && b.native_string() == q, "arguments", "an argument changed");
            fern::Path& s = a /= b;
            ctx.check(&s == &a && a.native_string() == joined(p, q), "join in place", cat("with ", quote(q), ": ", quote(a.generic_string())));
            ++ctx.transitions;
            // Equal paths have the same names.
            fern::Path x(p), y(q);
            bool equal = x == y;
            ctx.check(!(p == q) || equal, "equality", cat("with ", quote(q)));
            if(equal && p != q) ctx.check(x.names() == y.names() && x.is_absolute() == y.is_absolute(), "equality", cat("with ", quote(q)));
            if(split(p, "/") != split(q, "/")) ctx.check(!equal, "equality", cat("with ", quote(q)));
            ctx.outcome(equal ? "equal" : "different");
        }
        ctx.nontrivial(p);
    }
}

SUITE("C23", "data names")
{
    strings("ab:/.", ctx.thorough() ? 8 : 7, [&](S const& s) {
        // A data name needs a database name.
        if(s.empty() || s[0] == ':') return;
        if(!ctx.begin()) return;
        ctx.describe(cat("data name ", quote(s)));
        size_t colon = s.find(':');
        S database = s.substr(0, colon), data = "/";
        bool slash = true;
        if(colon != S::npos) for(char c: s.substr(colon + 1)) {
            if(c == '/' && slash) continue;
            slash = c == '/';
            data += c;
        }
        if(data.size() > 1 && data.back() == '/') data.pop_back();
        fern::DataName name(s), other(s.c_str());
        ctx.check(name.database_pathname().native_string() == database && other.database_pathname().native_string() == database, "database", cat(quote(name.database_pathname().native_string()), ", must be ", quote(database)));
        ctx.check(name.data_pathname().native_string() == data && other.data_pathname().native_string() == data, "data", cat(quote(name.data_pathname().native_string()), ", must be ", quote(data)));
        ctx.check(name.data_pathname().is_absolute(), "absolute", "the data pathname is not absolute");
        // Naming the same data by its parts gives the same name.
        fern::DataName again(database + ":" + data);
        ctx.check(again.database_pathname() == name.database_pathname() && again.data_pathname() == name.data_pathname(), "round trip", "naming by the parts gives another name");
        fern::DataName copy(name), moved(std::move(other)); copy = moved;
        ctx.check(copy.data_pathname() == name.data_pathname() && copy.database_pathname() == name.database_pathname(), "copy", "the copy differs");
        ++ctx.transitions;
        ctx.outcome(data == "/" ? "root" : cat(split(data, "/").size()));
        ctx.nontrivial(s);
        ctx.sample(s);
    });
}

} // namespace
