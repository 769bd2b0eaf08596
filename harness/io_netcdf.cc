// NetCDF datasets: conventions, variables and scalars, of every small dataset;
// and handles to datasets, over all sequences of operations on them.
#define SEQ_MAIN
#include "seq.h"
#include "io_scratch.h"
#include <cassert>
#include <cstring>
#include <fstream>
#include <limits>
#include <memory>
#include <netcdf.h>
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "fern/core/data_customization_point/scalar.h"
#include "fern/algorithm/policy/dont_mark_no_data.h"
#include "fern/algorithm/policy/mark_no_data_by_value.h"
#include "fern/io/gdal/dataset.h"
#include "fern/io/gdal/gdal_client.h"
#include "fern/io/gdal/read.h"
#include "fern/io/netcdf/coards/dataset.h"
#include "fern/io/netcdf/coards/read.h"
#include "fern/io/netcdf/core/attribute.h"
#include "fern/io/netcdf/core/dataset.h"
#include "fern/io/netcdf/core/variable.h"

namespace fa = fern::algorithm;
namespace fig = fern::io::gdal;
namespace fin = fern::io::netcdf;
namespace fs = std::filesystem;
using seq::cat;
using scratch::path;
using S = std::string;
using Strings = std::vector<S>;

namespace {

void need(int status) { if(status != NC_NOERR) { fprintf(stderr, "NetCDF: %s\n", nc_strerror(status)); abort(); } }

struct Variable { S name; int rank = 0; nc_type type = NC_DOUBLE; double value = 0; bool has_value = false; };
struct Attribute { S name; nc_type type = NC_CHAR; S text; bool global = true; };

// Define a dataset and leave it open.
int create(S const& name, int mode, std::vector<Attribute> const& attributes, std::vector<Variable> const& variables)
{
    int ncid;
    need(nc_create(name.c_str(), mode, &ncid));
    int dimensions[3] = {0, 0, 0};
    bool dims = false;
    for(auto const& v: variables) dims = dims || v.rank > 0;
    if(dims) for(int i = 0; i < 3; ++i) need(nc_def_dim(ncid, cat("d", i).c_str(), 1 + i, &dimensions[i]));
    for(auto const& v: variables) { int id; need(nc_def_var(ncid, v.name.c_str(), v.type, v.rank, dimensions, &id)); }
    for(auto const& a: attributes) {
        int where = NC_GLOBAL;
        if(!a.global) need(nc_inq_varid(ncid, variables.at(0).name.c_str(), &where));
        char const* text = a.text.c_str();
        double const number = 3.5;
        if(a.type == NC_CHAR) need(nc_put_att_text(ncid, where, a.name.c_str(), a.text.size(), a.text.data()));
        else if(a.type == NC_STRING) {
            // As many strings as there are lines.
            Strings lines(1);
            for(char c: a.text) { if(c == '\n') lines.emplace_back(); else lines.back() += c; }
            std::vector<char const*> p;
            for(auto const& l: lines) p.push_back(l.c_str());
            need(nc_put_att_string(ncid, where, a.name.c_str(), p.size(), p.data()));
        }
        else need(nc_put_att_double(ncid, where, a.name.c_str(), a.type, 1, &number));
    }
    need(nc_enddef(ncid));
    for(auto const& v: variables) if(v.has_value) {
        int id;
        need(nc_inq_varid(ncid, v.name.c_str(), &id));
        if(v.rank == 0) {
            if(v.type == NC_DOUBLE) need(nc_put_var_double(ncid, id, &v.value));
            else { double x = v.value; nc_put_var_double(ncid, id, &x); }
        }
    }
    return ncid;
}

void write(S const& name, std::vector<Attribute> const& attributes, std::vector<Variable> const& variables, int mode = NC_NETCDF4)
{
    need(nc_close(create(name, NC_CLOBBER | mode, attributes, variables)));
}

int const in_memory = NC_DISKLESS | NC_NETCDF4 | NC_CLOBBER;
int const classic_in_memory = NC_DISKLESS | NC_CLOBBER;

bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }

// By the documentation: a list separated by commas if there is a comma, and by
// whitespace otherwise.
Strings expected_conventions(S const& text)
{
    Strings r;
    S word;
    if(text.find(',') != S::npos) {
        for(size_t i = 0; i <= text.size(); ++i) {
            if(i < text.size() && text[i] != ',') { word += text[i]; continue; }
            bool any = !word.empty();
            size_t b = 0, e = word.size();
            while(b < e && space(word[b])) ++b;
            while(b < e && space(word[e - 1])) --e;
            if(any) r.push_back(word.substr(b, e - b));
            word.clear();
        }
    }
    else {
        for(char c: text + " ") {
            if(!space(c)) word += c;
            else if(!word.empty()) { r.push_back(word); word.clear(); }
        }
    }
    return r;
}

void conventions(seq::Context& ctx, S const& text, S const& stored, int mode, nc_type type = NC_CHAR)
{
    fin::DatasetHandle dataset(create("memory", mode, {{"Conventions", type, stored}}, {}));
    auto expected = expected_conventions(text);
    auto real = fin::conventions(dataset);
    ctx.check(real == expected, "conventions", cat(real, ", must be ", expected));
    ctx.check(fin::attribute<S>(dataset, "Conventions") == text, "attribute", "wrong text");
    bool coards = std::find(expected.begin(), expected.end(), "COARDS") != expected.end();
    ctx.check(fin::conforms_to_coards(dataset) == coards, "conforms to COARDS", cat("is ", !coards));
    ctx.outcome(coards ? "COARDS" : expected.empty() ? "no conventions" : "other conventions");
}

SUITE("C34", "conventions")
{
    std::vector<S> const tokens{"COARDS", "CF-1.6", " ", ",", "\t", "\n", "coards", "COARDS2"};
    for(unsigned length = 0; length <= (ctx.thorough() ? 5 : 4); ++length) {
        seq::tuples(length, tokens.size(), [&](std::vector<unsigned> const& d) {
            if(!ctx.begin()) return;
            S text;
            for(auto i: d) text += tokens[i];
            ctx.describe(cat("conventions '", text, "'"));
            ctx.nontrivial(text);
            conventions(ctx, text, text, classic_in_memory);
            ctx.sample(text);
        });
    }
    // All ways of storing.
    for(unsigned length = 0; length <= 3; ++length) {
        seq::tuples(length, 4, [&](std::vector<unsigned> const& d) {
            S text;
            for(auto i: d) text += tokens[i];
            for(int way = 0; way < 5; ++way) {
                if(!ctx.begin()) continue;
                ctx.describe(cat("conventions '", text, "' stored in way ", way));
                ctx.nontrivial(cat(text, way));
                if(way == 0) conventions(ctx, text, text, in_memory);
                else if(way == 1) conventions(ctx, text, text, in_memory, NC_STRING);
                else if(way == 2) conventions(ctx, text, text + S(1, '\0'), classic_in_memory);
                else if(way == 3) conventions(ctx, text, text + S(2, '\0'), in_memory);
                else {
                    // Followed by more attributes.
                    fin::DatasetHandle dataset(create("memory", in_memory, {{"Convention", NC_CHAR, "a b c"}, {"Conventions", NC_CHAR, text}, {"Conventions2", NC_CHAR, "COARDS"}}, {}));
                    ctx.check(fin::conventions(dataset) == expected_conventions(text), "conventions", "wrong");
                    ctx.check(fin::attribute<S>(dataset, "Convention") == "a b c" && fin::attribute<S>(dataset, "Conventions2") == "COARDS", "attribute", "wrong");
                }
            }
        });
    }
    // No text: no conventions.
    for(nc_type type: {NC_BYTE, NC_SHORT, NC_INT, NC_FLOAT, NC_DOUBLE, NC_UBYTE, NC_USHORT, NC_UINT, NC_INT64, NC_UINT64, NC_NAT}) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("conventions of type ", (int)type));
        ctx.nontrivial(cat("type", (int)type));
        std::vector<Attribute> attributes;
        if(type != NC_NAT) attributes.push_back({"Conventions", type, ""});
        fin::DatasetHandle dataset(create("memory", in_memory, attributes, {}));
        ctx.check(fin::conventions(dataset).empty() && !fin::conforms_to_coards(dataset), "conventions", "there are conventions");
    }
}

// All sets of attributes, global or of a variable.
SUITE("C34", "attributes")
{
    Strings const names{"Conventions", "conventions", "title", "titl", "x"};
    seq::tuples(names.size(), 4, [&](std::vector<unsigned> const& d) {
        if(!ctx.begin()) return;
        // 0: none, 1: global, 2: of the variable, 3: both
        S text = "attributes";
        std::vector<Attribute> attributes;
        for(size_t i = 0; i < names.size(); ++i) {
            if(d[i] & 1) attributes.push_back({names[i], NC_CHAR, "global " + names[i]});
            if(d[i] & 2) attributes.push_back({names[i], NC_CHAR, "of variable", false});
            text += cat(" ", d[i]);
        }
        ctx.describe(text);
        ctx.nontrivial(text);
        fin::DatasetHandle dataset(create("memory", classic_in_memory, attributes, {{"x"}}));
        for(size_t i = 0; i < names.size(); ++i) {
            bool has = d[i] & 1;
            ctx.check(fin::has_attribute(dataset, names[i]) == has, "has attribute", cat(names[i], " is ", !has));
            if(has) ctx.check(fin::attribute<S>(dataset, names[i]) == "global " + names[i], "attribute", names[i]);
        }
    });
}

struct Type { nc_type type; fern::ValueType value_type; };
std::vector<Type> const types{{NC_BYTE, fern::VT_INT8}, {NC_CHAR, fern::VT_CHAR}, {NC_SHORT, fern::VT_INT16}, {NC_INT, fern::VT_INT32}, {NC_FLOAT, fern::VT_FLOAT32},
    {NC_DOUBLE, fern::VT_FLOAT64}, {NC_UBYTE, fern::VT_UINT8}, {NC_USHORT, fern::VT_UINT16}, {NC_UINT, fern::VT_UINT32}, {NC_INT64, fern::VT_INT64}, {NC_UINT64, fern::VT_UINT64}, {NC_STRING, fern::VT_STRING}};

// All lists of up to three variables of any rank and type.
SUITE("C34", "variables")
{
    Strings const names{"a", "b", "ab", "A"};
    for(unsigned n = 0; n <= 3; ++n) seq::tuples(n, names.size(), [&](std::vector<unsigned> const& d) {
        for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < i; ++j) if(d[i] == d[j]) return;
        seq::tuples(n, 4, [&](std::vector<unsigned> const& ranks) {
            for(size_t t = 0; t < types.size(); ++t) {
                if(n == 3 && t >= 4 && !ctx.thorough()) break;
                if(!ctx.begin()) continue;
                S text = "variables";
                std::vector<Variable> variables;
                for(size_t i = 0; i < n; ++i) {
                    variables.push_back({names[d[i]], (int)ranks[i], types[(t + 5 * i) % types.size()].type});
                    text += cat(" ", names[d[i]], "/", ranks[i], "/", (int)variables.back().type);
                }
                ctx.describe(text);
                ctx.nontrivial(text);
                fin::DatasetHandle dataset(create("memory", in_memory, {{"a", NC_CHAR, "x"}}, variables));
                for(auto const& name: names) {
                    size_t i = 0;
                    while(i < n && names[d[i]] != name) ++i;
                    ctx.check(fin::contains_variable(dataset, name) == (i < n), "contains variable", name);
                    if(i == n) continue;
                    int id = fin::variable_id(dataset, name);
                    ctx.check(id == (int)i, "variable id", cat(name, " is ", id, ", must be ", i));
                    ctx.check(fin::variable_is_scalar(dataset, i) == (ranks[i] == 0), "scalar", cat(name, " of rank ", ranks[i]));
                    auto expected = types[(t + 5 * i) % types.size()].value_type;
                    ctx.check(fin::value_type_id(dataset, i) == expected, "value type", cat(name, " is ", (int)fin::value_type_id(dataset, i), ", must be ", (int)expected));
                }
                ctx.outcome(cat(n, " variables"));
            }
        });
    });
}

bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }

// What reading does: nothing, or the reason why not.
S read(S const& name, double& value)
{
    fa::DontMarkNoData policy;
    try { fin::read_coards(policy, fern::DataName(name), value); }
    catch(fern::IOError const& e) { return e.message(); }
    return "";
}

// All positions of a scalar among other variables, with all values.
SUITE("C34", "scalars")
{
    using L = std::numeric_limits<double>;
    std::vector<double> const values{0, -0.0, 1, -1, 0.1, L::max(), L::lowest(), L::min(), L::denorm_min(), L::epsilon(), L::infinity(), -L::infinity(), L::quiet_NaN(), NC_FILL_DOUBLE, 1e300, 4.54e9};
    for(int mode: {0, NC_64BIT_OFFSET, NC_CDF5, NC_NETCDF4, NC_NETCDF4 | NC_CLASSIC_MODEL})
    for(unsigned n = 1; n <= 3; ++n) for(unsigned which = 0; which < n; ++which) for(int other = 0; other < 3; ++other) for(size_t v = 0; v < values.size(); ++v) {
        if(n == 1 && other > 0) continue;
        if(!ctx.begin()) continue;
        ctx.describe(cat("scalar ", values[v], " as variable ", which, " of ", n, ", others of kind ", other, ", format ", mode));
        ctx.nontrivial(cat(v, which, n, other, mode));
        std::vector<Variable> variables;
        for(unsigned i = 0; i < n; ++i) {
            Variable x{cat("v", i), 0, NC_DOUBLE, values[(v + i + 1) % values.size()], true};
            if(i == which) x.value = values[v];
            else if(other == 1) x.rank = 2, x.has_value = false;
            else if(other == 2) x.type = NC_INT, x.value = 3;
            variables.push_back(x);
        }
        S file = path("scalar.nc");
        write(file, {{"Conventions", NC_CHAR, "COARDS"}}, variables, mode);
        double value = 77;
        S message = read(cat(file, ":/v", which), value);
        if(!ctx.check(message.empty(), "refused", message)) continue;
        ctx.check(same(value, values[v]), "value", cat(value, ", must be ", values[v]));
        // The same, by the functions for variables.
        auto dataset = fin::open_dataset(file);
        fa::DontMarkNoData policy;
        double again = 78;
        fin::read_variable(policy, dataset, fin::variable_id(dataset, cat("v", which)), again);
        ctx.check(same(again, values[v]), "value of variable", cat(again, ", must be ", values[v]));
        ctx.outcome("read");
    }
}

// All combinations of things that may be wrong: the first one is reported.
SUITE("C34", "refusals")
{
    std::vector<S> const convention_texts{"COARDS", "CF-1.6, COARDS", "COARDS CF-1.6", "", "CF-1.6", "COARDS-2", "coards", "-"};
    std::vector<S> const data{":/v", ":v", ":/w", "", ":/", ":/v/w", ":/w/v", ":/V", ":v/"};
    for(int state = 0; state < 6; ++state) for(size_t c = 0; c < convention_texts.size(); ++c) for(int rank = 0; rank < 3; ++rank) for(size_t t = 0; t <= types.size(); ++t) for(auto const& d: data) {
        if(state > 0 && (c > 0 || rank > 0 || t != 5)) continue;
        if(c > 0 && t != 5 && t != 0 && !ctx.thorough()) continue;
        if(!ctx.begin()) continue;
        ctx.describe(cat("state ", state, ", conventions '", convention_texts[c], "', rank ", rank, ", type ", t, ", data '", d, "'"));
        ctx.nontrivial(cat(state, convention_texts[c], rank, t, d));
        S file = path("refusal.nc"), reason;
        fs::remove_all(file);
        if(state == 0) {
            std::vector<Attribute> attributes;
            if(convention_texts[c] != "-") attributes.push_back({"Conventions", NC_CHAR, convention_texts[c]});
            if(t < types.size()) write(file, attributes, {{"u", 0, NC_DOUBLE, 1, true}, {"v", rank, types[t].type, 2, types[t].type != NC_CHAR && types[t].type != NC_STRING}});
            else {
                // A user-defined type.
                int ncid, type, id, dimensions[2];
                need(nc_create(file.c_str(), NC_CLOBBER | NC_NETCDF4, &ncid));
                for(auto const& a: attributes) need(nc_put_att_text(ncid, NC_GLOBAL, a.name.c_str(), a.text.size(), a.text.data()));
                need(nc_def_opaque(ncid, 8, "eight", &type));
                for(int i = 0; i < 2; ++i) need(nc_def_dim(ncid, cat("d", i).c_str(), 2, &dimensions[i]));
                need(nc_def_var(ncid, "v", type, rank, dimensions, &id));
                need(nc_close(ncid));
            }
        }
        else if(state == 1) reason = "Does not exist";
        else if(state == 2) { std::ofstream f(file); f << "not a dataset"; reason = "Cannot be read"; }
        else if(state == 3) { std::ofstream f(file); reason = "Cannot be read"; }
        else if(state == 4) { fs::create_directory(file); reason = "Cannot be read"; }
        else if(state == 5) { std::ofstream f(file); f << "CDF\001"; reason = "Cannot be read"; }
        bool type_error = false;
        auto expected = expected_conventions(convention_texts[c]);
        if(state == 0) {
            if(std::find(expected.begin(), expected.end(), "COARDS") == expected.end()) reason = "Does not conform to convention: COARDS";
            else if(d == ":/w") reason = "Does not contain variable: w";
            else if(d == ":/V") reason = "Does not contain variable: V";
            else if(d != ":/v" && d != ":v" && d != ":v/") reason = "Does not contain variable: ";
            else if(rank > 0) reason = "Variable is not a scalar: v";
            else if(t != 5) type_error = true;
        }
        double value = 77;
        S message = read(file + d, value), start = cat("I/O error handling ", file, ": ");
        if(reason.empty() && !type_error) { ctx.check(message.empty() && same(value, 2), "refused", cat(message, " ", value)); ctx.outcome("read"); }
        else {
            ctx.check(!message.empty(), "not refused", cat("reading succeeds: ", value));
            bool ok = message.compare(0, start.size(), start) == 0 && message.size() > start.size();
            if(type_error) {}
            else if(reason.back() == ' ') ok = ok && message.compare(0, start.size() + reason.size(), start + reason) == 0 && message.size() > start.size() + reason.size();
            else ok = ok && message == start + reason;
            ctx.check(message.empty() || ok, "message", cat(message, ", must be ", start, reason));
            ctx.check(same(value, 77), "value though refused", cat("the destination is ", value));
            ctx.outcome(type_error ? "type" : reason.substr(0, 30));
        }
    }
}

// --- handles ----------------------------------------------------------------

// Open NetCDF datasets, by id. (Ids are handed out from a table.)
std::vector<int> open_ids()
{
    std::vector<int> r;
    for(int i = 1; i < 40; ++i) { int id = i << 16, n; if(nc_inq_ndims(id, &n) == NC_NOERR) r.push_back(id); }
    return r;
}

struct NetCDF
{
    using Handle = fin::DatasetHandle;
    static S name(int i) { return path(cat("handle-", i, ".nc")); }
    static Handle open(int i) { return fin::open_dataset(name(i)); }
    static Handle open(S const& s) { return fin::open_dataset(s); }
    // The number of the dataset a handle refers to.
    static int file(Handle& h)
    {
        char p[4096]; size_t n = 0;
        if(nc_inq_path(h.ncid(), &n, p) != NC_NOERR) return -1;
        S s(p, n);
        for(int i = 0; i < 8; ++i) if(s == name(i)) return i;
        return -2;
    }
    static std::multiset<int> files()
    {
        std::multiset<int> r;
        for(int id: open_ids()) { Handle* h = nullptr; (void)h; char p[4096]; size_t n = 0; nc_inq_path(id, &n, p); S s(p, n); int k = -2; for(int i = 0; i < 8; ++i) if(s == name(i)) k = i; r.insert(k); }
        return r;
    }
    static void setup() { for(int i = 0; i < 8; ++i) write(name(i), {{"Conventions", NC_CHAR, "COARDS"}}, {{"v", 0, NC_DOUBLE, (double)i, true}, {"w", 1, NC_DOUBLE}, {"i", 0, NC_INT, 1, true}}, 0); }
};

struct GDAL
{
    using Handle = fig::DatasetHandle;
    static S name(int i) { return path(cat("handle-", i, ".tif")); }
    static Handle open(int i) { return fig::open_dataset(name(i), GA_ReadOnly); }
    static Handle open(S const& s) { return fig::open_dataset(s, GA_ReadOnly); }
    static int number(GDALDataset* d) { S s = d->GetDescription(); for(int i = 0; i < 8; ++i) if(s == name(i)) return i; return -2; }
    static int file(Handle& h)
    {
        // Not through the pointer if it does not point to an open dataset.
        GDALDataset** d; int n = 0;
        GDALDataset* p = h.operator->();
        d = GDALDataset::GetOpenDatasets(&n);
        for(int i = 0; i < n; ++i) if(d[i] == p) return number(p);
        return -1;
    }
    static std::multiset<int> files()
    {
        std::multiset<int> r; int n = 0;
        auto d = GDALDataset::GetOpenDatasets(&n);
        for(int i = 0; i < n; ++i) r.insert(number(d[i]));
        return r;
    }
    static void setup()
    {
        for(int i = 0; i < 8; ++i) {
            auto dataset = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(name(i).c_str(), 2, 1, 1, GDT_Int32, nullptr);
            int32_t values[] = {i, 100};
            need(dataset->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, 2, 1, values, 2, 1, GDT_Int32, 0, 0) == CE_None ? NC_NOERR : NC_EIO);
            GDALClose(dataset);
        }
    }
};

S list(std::multiset<int> const& s) { S r; for(int i: s) r += cat(r.empty() ? "" : " ", i); return "{" + r + "}"; }

// Operations: 0 open in the first free slot; 1 a dataset that cannot be
// opened; 2+: per slot destroy; move into the first free slot; assign to slot.
template<class Library> void handles(seq::Context& ctx, unsigned depth)
{
    using Handle = typename Library::Handle;
    unsigned const slots = 3, nothing = 9;
    struct Op { int kind; unsigned a, b; };
    std::vector<Op> history;
    using Model = std::vector<int>; // per slot: -1 no handle, nothing: a handle moved from, otherwise the file
    Library::setup();
    std::function<void(Model, int)> go = [&](Model model, int opened) {
        if(!history.empty() && ctx.begin()) {
            S text;
            for(auto const& o: history) text += o.kind == 0 ? " open" : o.kind == 1 ? " fail" : o.kind == 2 ? cat(" destroy", o.a) : o.kind == 3 ? cat(" move", o.a, "to", o.b) : cat(" assign", o.a, "to", o.b);
            ctx.describe("handles:" + text);
            ctx.nontrivial(text);
            std::unique_ptr<Handle> real[slots];
            int files = 0;
            Model m(slots, -1);
            auto compare = [&](S const& when) {
                std::multiset<int> expected;
                for(int x: m) if(x >= 0 && x != (int)nothing) expected.insert(x);
                auto now = Library::files();
                ctx.check(now == expected, "open datasets", cat("open are ", list(now), ", must be ", list(expected), when));
                for(unsigned i = 0; i < slots; ++i) if(m[i] >= 0 && m[i] != (int)nothing) ctx.check(Library::file(*real[i]) == m[i], "handle", cat("handle ", i, " refers to ", Library::file(*real[i]), ", must be ", m[i], when));
            };
            for(auto const& o: history) {
                ++ctx.transitions;
                if(o.kind == 0) { unsigned i = 0; while(m[i] >= 0) ++i; real[i].reset(new Handle(Library::open(files))); m[i] = files++; }
                else if(o.kind == 1) {
                    bool thrown = false;
                    try { Handle h(Library::open(o.a ? path("none") : scratch::directory())); } catch(fern::IOError const&) { thrown = true; }
                    ctx.check(thrown, "not refused", "a dataset that does not exist is opened");
                }
                else if(o.kind == 2) { real[o.a].reset(); m[o.a] = -1; }
                else if(o.kind == 3) { real[o.b].reset(new Handle(std::move(*real[o.a]))); m[o.b] = m[o.a]; m[o.a] = nothing; }
                else { Handle& from = *real[o.a]; *real[o.b] = std::move(from); if(o.a != o.b) { m[o.b] = m[o.a]; m[o.a] = nothing; } }
                compare("");
            }
            std::multiset<int> left;
            for(int x: m) if(x >= 0 && x != (int)nothing) left.insert(x);
            ctx.outcome(cat(left.size(), " open"));
            // In order, or the other way around.
            for(unsigned i = 0; i < slots; ++i) { unsigned k = history.size() % 2 ? i : slots - 1 - i; real[k].reset(); m[k] = -1; compare(" when destroying"); }
            // Start with nothing open again if it went wrong.
            for(int id: open_ids()) nc_close(id);
        }
        if(history.size() == depth) return;
        auto next = [&](Op o, Model m, int opened) { history.push_back(o); go(m, opened); history.pop_back(); };
        unsigned free = 0;
        while(free < slots && model[free] >= 0) ++free;
        if(free < slots) { Model m(model); m[free] = opened; next({0, free, 0}, m, opened + 1); }
        next({1, (unsigned)history.size() % 2, 0}, model, opened);
        for(unsigned a = 0; a < slots; ++a) {
            if(model[a] < 0) continue;
            { Model m(model); m[a] = -1; next({2, a, 0}, m, opened); }
            if(model[a] == (int)nothing) continue;
            if(free < slots) { Model m(model); m[free] = model[a]; m[a] = nothing; next({3, a, free}, m, opened); }
            for(unsigned b = 0; b < slots; ++b) if(model[b] >= 0) { Model m(model); if(a != b) { m[b] = model[a]; m[a] = nothing; } next({4, a, b}, m, opened); }
        }
    };
    go(Model(slots, -1), 0);
}

SUITE("C33", "NetCDF handles") { handles<NetCDF>(ctx, ctx.thorough() ? 7 : 6); }

SUITE("C33", "GDAL handles")
{
    fig::GDALClient client;
    handles<GDAL>(ctx, ctx.thorough() ? 7 : 6);
}

// Functions that open a dataset close it, however they end: all sequences of
// reads that succeed and fail, with handles of the caller open or not.
SUITE("C33", "reads")
{
    fig::GDALClient client;
    NetCDF::setup();
    GDAL::setup();
    using Raster = fern::MaskedRaster<int32_t, 2>;
    struct Action { S text; std::function<bool()> run; bool succeeds; };
    Raster::Transformation const transformation{{0, 1, 0, 1}};
    auto nc = [](S const& data) { return [=] { double v = 0; return read(NetCDF::name(0) + data, v).empty(); }; };
    auto raster = [=](S const& name, auto zero) { return [=] {
        using T = decltype(zero);
        fern::MaskedRaster<T, 2> r(fern::extents[1][2], transformation);
        fa::MarkNoDataByValue<typename fern::MaskedRaster<T, 2>::Mask> policy(r.mask());
        try { fig::read(policy, fern::DataName(name), r); } catch(fern::IOError const&) { return false; }
        return true;
    }; };
    auto type = [](S const& name) { return [=] { try { fig::gdal_value_type(fern::DataName(name)); } catch(fern::IOError const&) { return false; } return true; }; };
    std::ofstream(path("none.vrt")) << "<VRTDataset rasterXSize=\"2\" rasterYSize=\"1\"></VRTDataset>";
    write(path("other.nc"), {{"Conventions", NC_CHAR, "CF"}}, {{"v"}}, 0);
    std::vector<Action> const actions{
        {"scalar", nc(":/v"), true}, {"no variable", nc(":/none"), false}, {"no scalar", nc(":/w"), false}, {"other type", nc(":/i"), false},
        {"other conventions", [] { double v; return read(path("other.nc") + ":/v", v).empty(); }, false}, {"no dataset", [] { double v; return read(path("none.nc") + ":/v", v).empty(); }, false},
        {"raster", raster(GDAL::name(0), int32_t()), true}, {"raster of other type", raster(GDAL::name(0), float()), false}, {"raster without band", raster(path("none.vrt"), int32_t()), false},
        {"no raster", raster(path("none.tif"), int32_t()), false}, {"value type", type(GDAL::name(0)), true}, {"value type without band", type(path("none.vrt")), false},
    };
    for(int open = 0; open < 2; ++open) for(unsigned n = 1; n <= (ctx.thorough() ? 4 : 3); ++n) seq::tuples(n, actions.size(), [&](std::vector<unsigned> const& d) {
        if(!ctx.begin()) return;
        S text = open ? "while open:" : "reads:";
        for(auto i: d) text += " " + actions[i].text + ";";
        ctx.describe(text);
        ctx.nontrivial(text);
        std::unique_ptr<fin::DatasetHandle> a;
        std::unique_ptr<fig::DatasetHandle> b;
        if(open) { a.reset(new fin::DatasetHandle(NetCDF::open(0))); b.reset(new fig::DatasetHandle(GDAL::open(0))); }
        for(auto i: d) {
            ++ctx.transitions;
            bool ok = actions[i].run();
            ctx.check(ok == actions[i].succeeds, "result", cat(actions[i].text, ok ? " succeeds" : " fails"));
            std::multiset<int> expected;
            if(open) expected.insert(0);
            ctx.check(NetCDF::files() == expected, "NetCDF datasets left", cat(list(NetCDF::files()), " after ", actions[i].text));
            ctx.check(GDAL::files() == expected, "GDAL datasets left", cat(list(GDAL::files()), " after ", actions[i].text));
            ctx.outcome(actions[i].text);
        }
        a.reset(); b.reset();
        for(int id: open_ids()) nc_close(id);
    });
}

} // namespace
