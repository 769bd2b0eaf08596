// GPX documents and distributions in UncertML: all small documents, read back;
// documents that are spoiled.
#define SEQ_MAIN
#include "seq.h"
#include "io_scratch.h"
#include <cassert>
#include <fstream>
#include <limits>
#include <memory>
#include <optional>
#include "fern/core/exception.h"
#include "fern/core/io_error.h"
#include "fern/core/parse_error.h"
#include "fern/io/gpx/parse.h"
#include "fern/language/io/uncertml2/uncertml2_parser.h"
#include "fern/language/uncertainty/normal_distribution.h"

using seq::cat;
using scratch::path;
using S = std::string;
namespace fs = std::filesystem;

namespace {

struct Point { S lat, lon; std::optional<S> ele, time, name; };
struct Route { std::optional<S> name, number; std::vector<Point> points; };
struct Track { std::optional<S> name, number; std::vector<std::vector<Point>> segments; };
struct Document { std::vector<Point> waypoints; std::vector<Route> routes; std::vector<Track> tracks; };

struct One
{
    static constexpr char const* version = "1.0";
    static constexpr char const* name_space = "http://www.topografix.com/GPX/1/0";
    static constexpr char const* schema = "gpx-1.0.xsd";
    static auto parse(S const& p) { return fern::io::gpx_1_0::parse(p); }
};

struct OneOne
{
    static constexpr char const* version = "1.1";
    static constexpr char const* name_space = "http://www.topografix.com/GPX/1/1";
    static constexpr char const* schema = "gpx-1.1.xsd";
    static auto parse(S const& p) { return fern::io::gpx_1_1::parse(p); }
};

// The lines of a document; each element has its own.
struct Lines
{
    std::vector<S> lines;
    void add(S const& s) { lines.push_back(s); }
    void optional(S const& name, std::optional<S> const& v)
    {
        if(!v) return;
        S t;
        for(char c: *v) t += c == '&' ? S("&amp;") : c == '<' ? S("&lt;") : S(1, c);
        add("<" + name + ">" + t + "</" + name + ">");
    }
    void point(S const& tag, Point const& p)
    {
        add("<" + tag + " lat=\"" + p.lat + "\" lon=\"" + p.lon + "\">");
        optional("ele", p.ele); optional("time", p.time); optional("name", p.name);
        add("</" + tag + ">");
    }
    S text() const { S r; for(auto const& l: lines) r += l + "\n"; return r; }
};

S schema(char const* name)
{
    char const* repo = getenv("FERN_REPO");
    return cat("file://", repo ? repo : "/repo", "/source/fern/io/gpx/", name);
}

template<class V> Lines document(Document const& d)
{
    Lines l;
    l.add("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
    l.add(cat("<gpx version=\"", V::version, "\" creator=\"a check\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xmlns=\"", V::name_space, "\" xsi:schemaLocation=\"", V::name_space, " ", schema(V::schema), "\">"));
    for(auto const& p: d.waypoints) l.point("wpt", p);
    for(auto const& r: d.routes) {
        l.add("<rte>");
        l.optional("name", r.name); l.optional("number", r.number);
        for(auto const& p: r.points) l.point("rtept", p);
        l.add("</rte>");
    }
    for(auto const& t: d.tracks) {
        l.add("<trk>");
        l.optional("name", t.name); l.optional("number", t.number);
        for(auto const& s: t.segments) {
            l.add("<trkseg>");
            for(auto const& p: s) l.point("trkpt", p);
            l.add("</trkseg>");
        }
        l.add("</trk>");
    }
    l.add("</gpx>");
    return l;
}

void write(S const& name, S const& text) { std::ofstream f(name, std::ios::binary | std::ios::trunc); f << text; }

template<class T> bool same_text(T const& real, std::optional<S> const& model) { return real.present() == model.has_value() && (!model || S(real.get()) == *model); }

template<class P> bool same_points(P const& real, std::vector<Point> const& model)
{
    if(real.size() != model.size()) return false;
    for(size_t i = 0; i < model.size(); ++i) {
        auto const& p = real[i];
        auto const& m = model[i];
        if(double(p.lat()) != std::stod(m.lat) || double(p.lon()) != std::stod(m.lon)) return false;
        if(p.ele().present() != m.ele.has_value() || (m.ele && double(p.ele().get()) != std::stod(*m.ele))) return false;
        if(!same_text(p.name(), m.name)) return false;
        if(p.time().present() != m.time.has_value()) return false;
        if(m.time) {
            auto const& t = p.time().get();
            char text[64];
            snprintf(text, sizeof text, "%04d-%02d-%02dT%02d:%02d:%02dZ", (int)t.year(), (int)t.month(), (int)t.day(), (int)t.hours(), (int)t.minutes(), (int)t.seconds());
            if(text != *m.time || !t.zone_present() || t.zone_hours() || t.zone_minutes()) return false;
        }
    }
    return true;
}

template<class G> S differs(G const& g, Document const& d)
{
    if(S(g.creator()) != "a check") return "creator";
    if(!same_points(g.wpt(), d.waypoints)) return "waypoints";
    if(g.rte().size() != d.routes.size()) return "number of routes";
    for(size_t i = 0; i < d.routes.size(); ++i) {
        auto const& r = g.rte()[i];
        if(!same_text(r.name(), d.routes[i].name)) return "name of route";
        if(r.number().present() != d.routes[i].number.has_value() || (d.routes[i].number && (long long)r.number().get() != std::stoll(*d.routes[i].number))) return "number of route";
        if(!same_points(r.rtept(), d.routes[i].points)) return "points of route";
    }
    if(g.trk().size() != d.tracks.size()) return "number of tracks";
    for(size_t i = 0; i < d.tracks.size(); ++i) {
        auto const& t = g.trk()[i];
        if(!same_text(t.name(), d.tracks[i].name)) return "name of track";
        if(t.number().present() != d.tracks[i].number.has_value() || (d.tracks[i].number && (long long)t.number().get() != std::stoll(*d.tracks[i].number))) return "number of track";
        if(t.trkseg().size() != d.tracks[i].segments.size()) return "number of segments";
        for(size_t j = 0; j < d.tracks[i].segments.size(); ++j) if(!same_points(t.trkseg()[j].trkpt(), d.tracks[i].segments[j])) return "points of track";
    }
    return "";
}

// What parsing does: the message of the exception.
struct Outcome { S kind, message; };

template<class V, class F> Outcome parse(S const& name, F const& use)
{
    try {
        auto g = V::parse(name);
        if(!g) return {"nothing", ""};
        use(*g);
        return {"document", ""};
    }
    catch(fern::IOError const& e) { return {"I/O error", e.message()}; }
    catch(fern::ParseError const& e) { return {"parse error", e.message()}; }
}

std::vector<Point> points(unsigned n, unsigned seed)
{
    static char const* const lats[] = {"-90", "90.0", "0", "46.57638889", "-0.000001", "89.999999999999"};
    static char const* const lons[] = {"-180", "179.9", "0", "8.89263889", "-0.5", "179.99999999"};
    static char const* const eles[] = {"2372", "-11000.5", "0", "8848.86"};
    static char const* const times[] = {"2007-10-14T10:09:57Z", "1999-12-31T23:59:59Z", "2000-02-29T00:00:00Z"};
    static char const* const names[] = {"LAGORETICO", "", "a & b < c", "x y"};
    std::vector<Point> r;
    for(unsigned i = 0; i < n; ++i, seed = seed * 5 + 3) {
        Point p{lats[seed % 6], lons[(seed / 2 + i) % 6], {}, {}, {}};
        if(seed & 1) p.ele = eles[seed / 3 % 4];
        if(seed & 2) p.time = times[seed / 5 % 3];
        if(seed & 4) p.name = names[seed / 7 % 4];
        r.push_back(p);
    }
    return r;
}

template<class V> void read(seq::Context& ctx, Document const& d)
{
    S file = path("document.gpx");
    write(file, document<V>(d).text());
    S difference = "not compared";
    auto o = parse<V>(file, [&](auto const& g) { difference = differs(g, d); });
    if(!ctx.check(o.kind == "document", "refused", o.message)) return;
    ctx.check(difference.empty(), "tree", difference);
}

template<class V> void structures(seq::Context& ctx)
{
    S const version = V::version;
    unsigned const most = ctx.thorough() ? 3 : 2;
    // Numbers of everything.
    seq::tuples(6, most + 1, [&](std::vector<unsigned> const& d) {
        if((d[1] == 0 && d[2]) || (d[3] == 0 && (d[4] || d[5])) || (d[4] == 0 && d[5])) return;
        if(!ctx.begin()) return;
        ctx.describe(cat("GPX ", version, ": ", d[0], " waypoints, ", d[1], " routes of ", d[2], " points, ", d[3], " tracks of ", d[4], " segments of ", d[5], " points"));
        ctx.nontrivial(cat(version, d));
        Document x;
        unsigned seed = d[0] + 3 * d[5] + 7;
        x.waypoints = points(d[0], seed);
        for(unsigned i = 0; i < d[1]; ++i) {
            Route r; r.points = points((d[2] + i) % (most + 1), ++seed);
            if(i % 2) r.name = "route";
            if(seed % 2) r.number = cat(seed);
            x.routes.push_back(r);
        }
        for(unsigned i = 0; i < d[3]; ++i) {
            Track t;
            if(i % 2 == 0) t.name = cat("track ", i);
            if(seed % 3) t.number = cat(seed);
            for(unsigned j = 0; j < d[4]; ++j) t.segments.push_back(points((d[5] + i + j) % (most + 2), ++seed));
            x.tracks.push_back(t);
        }
        read<V>(ctx, x);
        ctx.outcome("read");
    });
    // A point with all combinations of contents.
    for(unsigned seed = 0; seed < (ctx.thorough() ? 840 : 210); ++seed) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("GPX ", version, ": points ", seed));
        ctx.nontrivial(cat(version, "point", seed));
        Document x;
        x.waypoints = points(1, seed);
        x.routes.push_back({{}, {}, points(1, seed + 1)});
        x.tracks.push_back({{}, {}, {points(1, seed + 2)}});
        read<V>(ctx, x);
        ctx.outcome("read");
    }
}

SUITE("C35", "GPX documents") { structures<One>(ctx); structures<OneOne>(ctx); }

Document sample()
{
    Document x;
    Point full{"1", "2", "3", "2007-10-14T10:09:57Z", "a"};
    x.waypoints = {full, {"1", "2"}};
    x.routes = {{"r", "1", {full}}};
    x.tracks = {{"t", "2", {{full, {"5", "6", "7"}}, {}}}};
    return x;
}

// "Error parsing <name>:<line>:<column>: <message>"
bool position(S const& message, S const& file, unsigned long& line, unsigned long& column, S& what)
{
    S start = cat("Error parsing ", file, ":");
    if(message.compare(0, start.size(), start) != 0) return false;
    char* end;
    char const* p = message.c_str() + start.size();
    line = strtoul(p, &end, 10);
    if(end == p || *end != ':') return false;
    p = end + 1;
    column = strtoul(p, &end, 10);
    if(end == p || S(end, 2) != ": ") return false;
    what = end + 2;
    return !what.empty();
}

template<class V> void parse_error(seq::Context& ctx, S const& text, unsigned long line, S const& word)
{
    S file = path("spoiled.gpx");
    write(file, text);
    auto o = parse<V>(file, [](auto const&) {});
    if(!ctx.check(o.kind == "parse error", "not refused", cat(o.kind, " ", o.message))) return;
    unsigned long l, c; S what;
    if(!ctx.check(position(o.message, file, l, c, what), "message", o.message)) return;
    if(line) {
        ctx.check(l == line, "line", cat(o.message, ": the line must be ", line));
        size_t begin = 0;
        for(unsigned long i = 1; i < line; ++i) begin = text.find('\n', begin) + 1;
        size_t end = text.find('\n', begin);
        ctx.check(c >= 1 && c <= end - begin + 1, "column", cat(o.message, ": the line has ", end - begin, " columns"));
    }
    ctx.check(word.empty() || what.find(word) != S::npos, "what", cat(o.message, ": must be about ", word));
    ctx.outcome(word.empty() ? "refused" : "refused because of " + word);
}

template<class V> void spoiled(seq::Context& ctx)
{
    S const version = V::version;
    auto lines = document<V>(sample());
    S const text = lines.text();
    size_t const root = text.find("<gpx");
    // Cut off anywhere before the end of the root element.
    for(size_t n = 0; n + 2 < text.size(); ++n) {
        if(n > root && n < root + 300 && n % 16 && !ctx.thorough()) continue;
        if(!ctx.begin()) continue;
        ctx.describe(cat("GPX ", version, " cut off after ", n, " characters"));
        ctx.nontrivial(cat(version, "cut", n));
        parse_error<V>(ctx, text.substr(0, n), 0, "");
    }
    // One or two elements that do not belong, at any place.
    for(size_t i = 2; i < lines.lines.size(); ++i) for(size_t j = i; j < lines.lines.size(); ++j) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("GPX ", version, " with an unknown element before lines ", i, " and ", j));
        ctx.nontrivial(cat(version, "unknown", i, j));
        auto l = lines;
        if(j > i) l.lines.insert(l.lines.begin() + j, "<second/>");
        l.lines.insert(l.lines.begin() + i, "<first/>");
        parse_error<V>(ctx, l.text(), i + 1, "first");
    }
    // An element of the schema in the wrong place: twice, or after others.
    for(size_t i = 2; i + 1 < lines.lines.size(); ++i) {
        if(!ctx.begin()) continue;
        auto const& line = lines.lines[i];
        if(line.find("</") == S::npos || line[1] == '/') { ctx.outcome("not a leaf"); continue; }
        ctx.describe(cat("GPX ", version, " with line ", i, " twice: ", line));
        ctx.nontrivial(cat(version, "twice", i));
        auto l = lines;
        l.lines.insert(l.lines.begin() + i, line);
        // The content of an element is judged at its end.
        size_t end = i + 1;
        for(int depth = 1; ; ++end) {
            auto const& x = l.lines[end];
            if(x[1] == '/') { if(--depth == 0) break; }
            else if(x.find("</") == S::npos) ++depth;
        }
        parse_error<V>(ctx, l.text(), end + 1, line.substr(1, line.find('>') - 1));
    }
    // Values out of range or of another type, and missing attributes.
    struct Change { S from, to, word; };
    std::vector<Change> const changes{
        {"lat=\"5\"", "lat=\"90.1\"", "90.1"}, {"lat=\"5\"", "lat=\"-91\"", "-91"}, {"lon=\"6\"", "lon=\"180.5\"", "180.5"}, {"lon=\"6\"", "lon=\"-181\"", "-181"},
        {"lat=\"5\"", "lat=\"x\"", ""}, {"lon=\"6\"", "lon=\"\"", ""}, {"lat=\"5\"", "", "lat"}, {"lon=\"6\"", "", "lon"}, {"lat=\"5\"", "lat=\"5\" more=\"1\"", "more"},
        {"<ele>7</ele>", "<ele>x</ele>", ""}, {"<ele>7</ele>", "<ele></ele>", ""}, {"<ele>7</ele>", "<time>yesterday</time>", ""}, {"<ele>7</ele>", "<time>2007-13-14T10:09:57Z</time>", "2007-13-14"},
        {"<number>2</number>", "<number>-2</number>", "-2"}, {"<number>2</number>", "<number>two</number>", ""}, {"<ele>7</ele>", "<ele>7</elf>", ""}, {"<ele>7</ele>", "<fix>4d</fix>", "4d"}, {"<ele>7</ele>", "<sat>-1</sat>", "-1"},
        {"creator=\"a check\"", "", "creator"}, {cat("version=\"", version, "\""), "", "version"},
    };
    for(size_t i = 0; i < changes.size(); ++i) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("GPX ", version, " with ", changes[i].to, " for ", changes[i].from));
        ctx.nontrivial(cat(version, "change", i));
        S t = text;
        auto p = t.find(changes[i].from);
        if(!ctx.check(p != S::npos, "harness", "nothing to change")) continue;
        t.replace(p, changes[i].from.size(), changes[i].to);
        parse_error<V>(ctx, t, 1 + std::count(text.begin(), text.begin() + p, '\n'), changes[i].word);
    }
    // Two errors: the first is reported.
    for(size_t i = 0; i < 2; ++i) if(ctx.begin()) {
        ctx.describe(cat("GPX ", version, " with two wrong values ", i));
        ctx.nontrivial(cat(version, "two", i));
        S t = text;
        t.replace(t.find(i ? "<ele>7</ele>" : "lat=\"5\""), i ? 12 : 7, i ? "<ele>first</ele>" : "lat=\"first\"");
        unsigned long line = 1 + std::count(t.begin(), t.begin() + t.find("first"), '\n');
        t.insert(t.find("</trk>"), "<trkseg>\n<trkpt lat=\"second\" lon=\"1\"/>\n</trkseg>\n");
        parse_error<V>(ctx, t, line, "");
    }
    // Not this kind of document at all, or followed by more.
    for(auto t: {S(""), S("\n"), S("abc"), S("<gpx/>"), S("<a></a>"), text + "<x/>", text + "x", S("x") + text, text + text}) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("GPX ", version, " of ", t.size(), " characters starting with ", t.substr(0, 8)));
        ctx.nontrivial(cat(version, "other", t.size(), t.substr(0, 3)));
        parse_error<V>(ctx, t, 0, "");
    }
    // A correct document afterwards.
    if(ctx.begin()) { ctx.describe("a correct document after all"); read<V>(ctx, sample()); }
    // Files that are not there.
    for(auto name: {path("none.gpx"), path("none/none.gpx"), path(S(300, 'x')), S("")}) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("GPX ", version, " from a file that does not exist, ", name.substr(0, 80)));
        ctx.nontrivial(cat(version, "none", name.size()));
        auto o = parse<V>(name, [](auto const&) {});
        ctx.check(o.kind == "I/O error" && o.message == cat("I/O error handling ", name, ": Does not exist"), "I/O error", cat(o.kind, " ", o.message));
        ctx.outcome("does not exist");
    }
}

SUITE("C35", "GPX documents spoiled") { spoiled<One>(ctx); spoiled<OneOne>(ctx); }

// --- UncertML ------------------------------------------------------------------

S distribution(S const& mean, S const& variance, S const& prefix = "un", S const& attributes = "")
{
    S p = prefix.empty() ? "" : prefix + ":", x = prefix.empty() ? "xmlns" : "xmlns:" + prefix;
    return cat("<?xml version=\"1.0\"?>\n<", p, "NormalDistribution ", x, "=\"http://www.uncertml.org/2.0\">\n<", p, "mean", attributes, ">", mean, "</", p, "mean>\n<", p, "variance", attributes, ">", variance, "</", p, "variance>\n</", p, "NormalDistribution>\n");
}

// The parser reports progress on the standard output.
struct Quiet
{
    std::ostringstream stream; std::streambuf* previous;
    Quiet(): previous(std::cout.rdbuf(stream.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(previous); }
};

struct Parsed { std::shared_ptr<fern::NormalDistribution<double>> distribution; bool error = false; long line = 0, column = 0; S message, source; };

Parsed parse_distribution(fern::UncertML2Parser const& parser, S const& xml)
{
    Parsed r;
    Quiet quiet;
    try { r.distribution = std::dynamic_pointer_cast<fern::NormalDistribution<double>>(parser.parse(xml)); }
    catch(fern::detail::ParseError const& e) {
        r.error = true;
        if(auto p = boost::get_error_info<fern::detail::ExceptionLineNr>(e)) r.line = *p;
        if(auto p = boost::get_error_info<fern::detail::ExceptionColNr>(e)) r.column = *p;
        if(auto p = boost::get_error_info<fern::detail::ExceptionMessage>(e)) r.message = *p;
        if(auto p = boost::get_error_info<fern::detail::ExceptionSourceName>(e)) r.source = *p;
    }
    return r;
}

SUITE("C35", "distributions")
{
    fern::UncertML2Parser const parser;
    std::vector<S> const means{"3.14", "0", "-0.0", "-1e300", "1e-300", "17", " 2.5 ", "\n2.5\n", "+4", "1E5", ".5", "5.", "123456789.123456789", "-7"};
    std::vector<S> const variances{"3.14", "1", "4", "1e-10", "1e300", " 9 ", "\n0.25\n", "+16", "1E4", ".5", "2.", "123456789.123456789"};
    for(auto const& mean: means) for(auto const& variance: variances) for(int style = 0; style < 4; ++style) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("mean '", mean, "', variance '", variance, "', style ", style));
        ctx.nontrivial(cat(mean, "/", variance, "/", style));
        S xml = distribution(mean, variance, style == 1 ? "" : style == 2 ? "u" : "un", style == 3 ? " href=\"http://x\" mimeType=\"a\"" : "");
        // Twice, and with an error in between.
        for(int i = 0; i < 2; ++i) {
            auto r = parse_distribution(parser, xml);
            if(!ctx.check(!r.error && r.distribution, "refused", r.message)) break;
            ctx.check(r.distribution->mean() == std::stod(mean), "mean", cat(r.distribution->mean()));
            ctx.check(r.distribution->standard_deviation() == std::sqrt(std::stod(variance)), "standard deviation", cat(r.distribution->standard_deviation()));
            if(i == 0) ctx.check(parse_distribution(parser, xml.substr(0, xml.size() / 2)).error, "not refused", "half a document");
        }
        ctx.outcome("read");
    }
}

SUITE("C35", "distributions spoiled")
{
    fern::UncertML2Parser const parser;
    auto refused = [&](S const& xml, long line) {
        auto r = parse_distribution(parser, xml);
        if(!ctx.check(r.error, "not refused", r.distribution ? "there is a distribution" : "there is nothing")) return;
        ctx.check(!r.message.empty() && r.source == "<string>", "message", cat(r.source, ": ", r.message));
        ctx.check(r.line >= 1 && (line == 0 || r.line == line), "line", cat("line ", r.line, ", must be ", line, ": ", r.message));
        ctx.outcome("refused");
    };
    S const xml = distribution("3.14", "2.5");
    for(size_t n = 0; n + 1 < xml.size(); ++n) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("cut off after ", n, " characters"));
        ctx.nontrivial(cat("cut", n));
        refused(xml.substr(0, n), 0);
    }
    std::vector<S> lines;
    { std::istringstream s(xml); S l; while(std::getline(s, l)) lines.push_back(l); }
    auto joined = [](std::vector<S> const& v) { S r; for(auto const& l: v) r += l + "\n"; return r; };
    // Elements left out, twice, in the other order, added.
    for(size_t i = 2; i < 4; ++i) {
        if(ctx.begin()) { auto v = lines; v.erase(v.begin() + i); ctx.describe("without " + lines[i]); ctx.nontrivial(cat("without", i)); refused(joined(v), i == 2 ? 3 : 4); }
        if(ctx.begin()) { auto v = lines; v.insert(v.begin() + i, lines[i]); ctx.describe("twice " + lines[i]); ctx.nontrivial(cat("twice", i)); refused(joined(v), i + 2); }
    }
    if(ctx.begin()) { auto v = lines; std::swap(v[2], v[3]); ctx.describe("other order"); ctx.nontrivial("order"); refused(joined(v), 3); }
    for(size_t i = 2; i < 5; ++i) for(auto extra: {"<un:other/>", "<other/>", "<mean>1</mean>", "text"}) {
        if(!ctx.begin()) continue;
        auto v = lines; v.insert(v.begin() + i, extra);
        ctx.describe(cat("with ", extra, " before line ", i));
        ctx.nontrivial(cat("extra", i, extra));
        refused(joined(v), S(extra) == "text" ? 0 : i + 1);
    }
    for(auto value: {"", " ", "x", "1x", "1,5", "--1", "1e", "0x10", "1 2", "1 2 3", "1 x"}) for(size_t i = 2; i < 4; ++i) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("'", value, "' for ", i == 2 ? "mean" : "variance"));
        ctx.nontrivial(cat("value", i, value));
        refused(i == 2 ? distribution(value, "2") : distribution("2", value), 0);
    }
    for(auto value: {"0", "-0", "-1e-300", "-2", "NaN", "-INF"}) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("'", value, "' for variance"));
        ctx.nontrivial(cat("variance", value));
        refused(distribution("2", value), 0);
    }
    for(auto t: {S("<a/>"), S("<NormalDistribution/>"), S("<un:NormalDistribution xmlns:un=\"http://www.uncertml.org/1.0\"><un:mean>1</un:mean><un:variance>1</un:variance></un:NormalDistribution>"), S("<un:StudentTDistribution xmlns:un=\"http://www.uncertml.org/2.0\"><un:mean>1</un:mean><un:variance>1</un:variance></un:StudentTDistribution>"), xml + "<x/>", xml + "x", xml + xml}) {
        if(!ctx.begin()) continue;
        ctx.describe("document " + t.substr(0, 60));
        ctx.nontrivial(t);
        refused(t, 0);
    }
}

} // namespace
