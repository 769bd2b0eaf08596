// Fern datasets (HDF5): what is written to them is in them, over all histories
// of writes, reopens and crashes; all kinds of files that are no dataset; all
// histories of handles to the same dataset.
#define SEQ_MAIN
#include "seq.h"
#include "io_scratch.h"
#include <fstream>
#include <limits>
#include <memory>
#include <hdf5.h>
#include "fern/core/io_error.h"
#include "fern/core/type_traits.h"
#include "fern/language/feature/core/attributes.h"
#include "fern/language/feature/core/constant_attribute.h"
#include "fern/language/io/drivers.h"
#include "fern/language/io/fern/fern_client.h"
#include "fern/language/io/fern/fern_dataset.h"
#include "fern/language/io/fern/fern_driver.h"
#include "fern/language/io/fern/hdf5_client.h"

namespace fl = fern::language;
namespace fs = std::filesystem;
using seq::cat;
using S = std::string;
using Names = std::vector<S>;
using fl::OpenMode;

namespace {

struct Library: fl::HDF5Client {};
struct Driver: fl::FernClient {};

// For as long as this process is there.
void library() { static Library library; }

S joined(Names const& names, bool absolute) { S r; for(auto const& n: names) r += (r.empty() && !absolute ? "" : "/") + n; return r.empty() ? S("/") : r; }

// A number with its type.
struct Value { char kind; int size; S text; bool operator==(Value const& o) const { return kind == o.kind && size == o.size && text == o.text; } };
S text(Value const& v) { return cat(v.kind, v.size, " ", v.text); }

template<class T> char kind() { return std::is_floating_point<T>::value ? 'f' : std::is_signed<T>::value ? 'i' : 'u'; }
template<class T> Value make(T v)
{
    std::ostringstream s;
    if(std::is_floating_point<T>::value) { s << std::hexfloat << v; if(v != v) s.str("nan"); } else s << +v;
    return {kind<T>(), int(sizeof(T) * 8), s.str()};
}

template<class T> bool is(fl::Attribute const& a, Value& v)
{
    auto const* c = dynamic_cast<fl::ConstantAttribute<T> const*>(&a);
    if(c) v = make<T>(c->values().value());
    return c;
}

Value value_of(fl::Attribute const& a)
{
    Value v{'?', 0, ""};
    is<int8_t>(a, v) || is<int16_t>(a, v) || is<int32_t>(a, v) || is<int64_t>(a, v) || is<uint8_t>(a, v) || is<uint16_t>(a, v) ||
        is<uint32_t>(a, v) || is<uint64_t>(a, v) || is<float>(a, v) || is<double>(a, v);
    return v;
}

template<class F> S outcome(F f)
{
    try { return f(); }
    catch(fern::IOError const& e) { return "IOError: " + e.message(); }
    catch(std::exception const& e) { return S("exception: ") + e.what(); }
}

struct Model {
    std::set<Names> features; std::map<Names, Value> attributes;
    void write(Names const& path, Value const& v)
    {
        for(size_t n = 1; n < path.size(); ++n) features.insert(Names(path.begin(), path.begin() + n));
        attributes[path] = v;
    }
    bool can_write(Names const& path) const
    {
        if(features.count(path)) return false;
        for(size_t n = 1; n < path.size(); ++n) if(attributes.count(Names(path.begin(), path.begin() + n))) return false;
        return true;
    }
    Names children(Names const& path) const
    {
        Names r;
        for(auto const& f: features) if(f.size() == path.size() + 1 && std::equal(path.begin(), path.end(), f.begin())) r.push_back(f.back());
        return r;
    }
    size_t nr_attributes(Names const& path) const
    {
        size_t r = 0;
        for(auto const& f: attributes) r += f.first.size() == path.size() + 1 && std::equal(path.begin(), path.end(), f.first.begin());
        return r;
    }
};

std::vector<Names> all_paths(Names const& names, unsigned depth)
{
    std::vector<Names> r;
    for(unsigned n = 1; n <= depth; ++n) seq::tuples(n, names.size(), [&](auto const& t) { Names p; for(auto k: t) p.push_back(names[k]); r.push_back(p); });
    return r;
}

S types(fern::ExpressionType const& t) { std::ostringstream s; s << t; return s.str(); }

template<class T> S expression_type() { return types(fern::ExpressionType(fern::DataTypes::CONSTANT, fern::TypeTraits<T>::value_types)); }
S expression_type(Value const& v)
{
    if(v.kind == 'f') return v.size == 32 ? expression_type<float>() : expression_type<double>();
    if(v.kind == 'i') return v.size == 8 ? expression_type<int8_t>() : v.size == 16 ? expression_type<int16_t>() : v.size == 32 ? expression_type<int32_t>() : expression_type<int64_t>();
    return v.size == 8 ? expression_type<uint8_t>() : v.size == 16 ? expression_type<uint16_t>() : v.size == 32 ? expression_type<uint32_t>() : expression_type<uint64_t>();
}

// Everything that can be asked.
void compare(seq::Context& ctx, S const& where, fl::FernDataset const& d, Model const& m, std::vector<Names> const& paths)
{
    auto all = [](Names v) { std::sort(v.begin(), v.end()); S r; for(auto const& x: v) r += x + " "; return r; };
    ctx.check(d.nr_features() == m.children({}).size(), "number of features", cat(where, ": is ", d.nr_features(), ", must be ", m.children({}).size()));
    ctx.check(all(d.feature_names()) == all(m.children({})), "names of features", cat(where, ": are ", all(d.feature_names()), ", must be ", all(m.children({}))));
    ctx.check(d.nr_attributes("/") == m.nr_attributes({}), "number of attributes", cat(where, " /: is ", d.nr_attributes("/"), ", must be ", m.nr_attributes({})));
    ctx.check(d.contains_feature("/") && d.nr_features("/") == m.children({}).size() && !d.contains_attribute("/"), "root", where);
    for(auto const& p: paths) for(bool absolute: {true, false}) {
        fern::Path const path(joined(p, absolute)); S const at = cat(where, " ", joined(p, absolute));
        bool const feature = m.features.count(p); auto const a = m.attributes.find(p);
        ctx.check(d.contains_feature(path) == feature, "contains feature", at);
        ctx.check(d.contains_attribute(path) == (a != m.attributes.end()), "contains attribute", at);
        if(feature) {
            ctx.check(d.nr_features(path) == m.children(p).size(), "number of features", at);
            ctx.check(d.nr_attributes(path) == m.nr_attributes(p), "number of attributes", at);
        }
        else {
            S r = outcome([&] { d.read_feature(path); return S("a feature"); }), must = cat("IOError: I/O error handling ", d.name(), ": Does not contain feature: ", joined(p, absolute));
            ctx.check(r == must, "feature that is not there", cat(at, ": ", r, ", must be ", must));
        }
        S must = cat("IOError: I/O error handling ", d.name(), ": Does not contain attribute: ", joined(p, absolute)), must_type = must, must_open = must;
        if(a != m.attributes.end()) { must = must_open = text(a->second); must_type = expression_type(a->second); }
        S r = outcome([&] { return text(value_of(*d.read_attribute(path))); });
        ctx.check(r == must, "value", cat(at, ": ", r, ", must be ", must));
        r = outcome([&] { return text(value_of(*d.open_attribute(path))); });
        ctx.check(r == must, "opened attribute", cat(at, ": ", r, ", must be ", must));
        r = outcome([&] { return types(d.expression_type(path)); });
        ctx.check(r == must_type, "type", cat(at, ": ", r, ", must be ", must_type));
    }
}

// What another program would find in the file.
S stored(S const& file, S const& path)
{
    hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if(f < 0) return "not a file";
    hid_t d = H5Dopen(f, path.c_str(), H5P_DEFAULT);
    S r = "no dataset";
    if(d >= 0) {
        hid_t t = H5Dget_type(d), s = H5Dget_space(d);
        if(H5Sget_simple_extent_type(s) != H5S_SCALAR) r = "not a scalar";
        else if(H5Tget_class(t) == H5T_FLOAT) {
            if(H5Tget_size(t) == 4) { float v; H5Dread(d, H5T_NATIVE_FLOAT, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v); r = text(make(v)); }
            else { double v; H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v); r = text(make(v)); }
        }
        else if(H5Tget_class(t) == H5T_INTEGER && H5Tget_sign(t) == H5T_SGN_NONE) { uint64_t v; H5Dread(d, H5T_NATIVE_UINT64, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v); r = cat("u", H5Tget_size(t) * 8, " ", v); }
        else if(H5Tget_class(t) == H5T_INTEGER) { int64_t v; H5Dread(d, H5T_NATIVE_INT64, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v); r = cat("i", H5Tget_size(t) * 8, " ", v); }
        else r = "another class";
        H5Sclose(s); H5Tclose(t); H5Dclose(d);
    }
    H5Fclose(f);
    return r;
}

S file(S const& name) { return scratch::path(name); }
char const* text(OpenMode m) { return m == OpenMode::READ ? "read" : m == OpenMode::UPDATE ? "update" : "overwrite"; }
std::vector<OpenMode> const modes{OpenMode::READ, OpenMode::UPDATE, OpenMode::OVERWRITE};

void history(seq::Context& ctx, unsigned depth, std::vector<Names> const& written, std::vector<Names> const& asked, bool through_base)
{
    unsigned const actions = written.size() + 3;
    for(unsigned n = 0; n <= depth; ++n) seq::tuples(n, actions, [&](auto const& t) {
        // Opening as it is opened already changes nothing; not writing either.
        {
            Model m; OpenMode mode = OpenMode::OVERWRITE;
            for(auto k: t) {
                if(k < written.size()) { if(mode == OpenMode::READ || !m.can_write(written[k])) return; m.write(written[k], Value()); }
                else { mode = modes[k - written.size()]; if(mode == OpenMode::OVERWRITE) m = Model(); }
            }
        }
        if(!ctx.begin()) return;
        S description;
        for(auto k: t) description += (description.empty() ? "" : ", ") + (k < written.size() ? "write " + joined(written[k], true) : cat("open for ", text(modes[k - written.size()])));
        ctx.describe(description);
        library();
        S const name = file("history.gnr"), copy = file("copy.gnr");
        auto dataset = std::make_shared<fl::FernDataset>(name, OpenMode::OVERWRITE);
        Model m;
        int32_t value = 0;
        for(auto k: t) {
            ++ctx.transitions;
            if(k < written.size()) {
                ++value;
                fl::ConstantAttribute<int32_t> constant(value);
                fern::Path path(joined(written[k], true));
                if(through_base) dataset->write_attribute(static_cast<fl::Attribute const&>(constant), path); else dataset->write_attribute(constant, path);
                m.write(written[k], make(value));
            }
            else {
                OpenMode mode = modes[k - written.size()];
                dataset.reset();
                S r = outcome([&] { dataset = std::make_shared<fl::FernDataset>(name, mode); return S("open"); });
                if(!ctx.check(r == "open", "cannot be opened again", cat("for ", text(mode), ": ", r))) return;
                if(mode == OpenMode::OVERWRITE) m = Model();
            }
        }
        compare(ctx, "dataset", *dataset, m, asked);
        // A crash: the file as it is now, without the dataset being closed.
        fs::copy_file(name, copy, fs::copy_options::overwrite_existing);
        S r = outcome([&] { fl::FernDataset d(copy, OpenMode::READ); compare(ctx, "after a crash", d, m, asked); return S("open"); });
        ctx.check(r == "open", "cannot be opened after a crash", r);
        for(auto const& a: m.attributes) ctx.check(stored(copy, joined(a.first, true)) == text(a.second), "stored value", cat(joined(a.first, true), ": ", stored(copy, joined(a.first, true)), ", must be ", text(a.second)));
        dataset.reset();
        { fl::FernDataset d(name, OpenMode::READ); compare(ctx, "closed and opened", d, m, asked); }
        ctx.outcome(cat(m.features.size(), " features, ", m.attributes.size(), " attributes"));
        ctx.nontrivial(description);
    });
}

template<class T> std::vector<T> values(bool thorough)
{
    using L = std::numeric_limits<T>;
    std::vector<T> r{0, 1, 2, L::max(), L::lowest(), T(L::max() / 2), T(L::max() / 2 + 1)};
    if(L::is_signed) r.push_back(T(-1));
    if constexpr(L::has_infinity) for(T v: {L::infinity(), -L::infinity(), L::quiet_NaN(), L::denorm_min(), L::min(), T(-0.0), T(0.1), L::epsilon()}) r.push_back(v);
    else for(int bit = 0; bit < L::digits; ++bit) if(thorough || bit % 8 == 0 || bit % 8 == 7) r.push_back(T(T(1) << bit));
    return r;
}

template<class T> void type(seq::Context& ctx)
{
    // One value after the other, the dataset closed in between or not.
    for(T first: values<T>(ctx.thorough())) for(T second: values<T>(ctx.thorough())) for(bool close: {false, true}) {
        if(!ctx.begin()) continue;
        ctx.describe(cat(text(make(first)), ", then ", close ? "close, " : "", text(make(second))));
        library();
        S const name = file("types.gnr");
        Model m;
        auto d = std::make_shared<fl::FernDataset>(name, OpenMode::OVERWRITE);
        auto write = [&](T v) { fl::ConstantAttribute<T> a(v); d->write_attribute(static_cast<fl::Attribute const&>(a), "/f/a"); m.write({"f", "a"}, make(v)); };
        write(first); compare(ctx, "first", *d, m, {{"f"}, {"f", "a"}});
        if(close) { d.reset(); d = std::make_shared<fl::FernDataset>(name, OpenMode::UPDATE); compare(ctx, "opened", *d, m, {{"f", "a"}}); }
        write(second); compare(ctx, "second", *d, m, {{"f", "a"}});
        d.reset();
        ctx.check(stored(name, "/f/a") == text(make(second)), "stored value", cat(stored(name, "/f/a"), ", must be ", text(make(second))));
        ctx.nontrivial(cat(text(make(first)), text(make(second)), close));
    }
}

S contents(S const& name) { std::ifstream s(name, std::ios::binary); std::ostringstream o; o << s.rdbuf(); return o.str(); }

} // namespace

SUITE("C42", "histories of writes")
{
    history(ctx, ctx.thorough() ? 5 : 4, {{"a", "x"}, {"a", "y"}, {"b", "x"}, {"a", "b", "x"}, {"x"}, {"b"}}, all_paths({"a", "b", "x", "y"}, 2), false);
}

SUITE("C42", "nested features")
{
    history(ctx, ctx.thorough() ? 5 : 4, {{"a"}, {"a", "a"}, {"a", "a", "a"}, {"a", "b"}, {"a", "b", "a"}}, all_paths({"a", "b"}, 4), true);
}

SUITE("C42", "types and values")
{
    type<int8_t>(ctx); type<int16_t>(ctx); type<int32_t>(ctx); type<int64_t>(ctx); type<uint8_t>(ctx); type<uint16_t>(ctx); type<uint32_t>(ctx);
    type<uint64_t>(ctx); type<float>(ctx); type<double>(ctx);
}

SUITE("C42", "names")
{
    Names const names{"a", "A", "a b", " a", "a ", "a.b", "aa", "ab", "\xc3\xa9", "x:y", "'\"", "%s{}", "-1", "[0]"};
    for(auto const& f: names) for(auto const& a: names) for(bool overwrite: {false, true}) {
        if(!ctx.begin()) continue;
        ctx.describe(cat(f, "/", a));
        library();
        S const name = file("names.gnr"); Model m;
        { fl::FernDataset d(name, OpenMode::OVERWRITE);
          d.write_attribute(fl::ConstantAttribute<int32_t>(1), fern::Path(joined({f, a}, true))); m.write({f, a}, make(int32_t(1)));
          d.write_attribute(fl::ConstantAttribute<int32_t>(2), fern::Path(joined({a, f}, true))); m.write({a, f}, make(int32_t(2)));
          if(overwrite) { d.write_attribute(fl::ConstantAttribute<int32_t>(3), fern::Path(joined({f, a}, false))); m.write({f, a}, make(int32_t(3))); } }
        fl::FernDataset d(name, OpenMode::READ);
        std::vector<Names> asked; for(auto const& n: names) { asked.push_back({n}); asked.push_back({f, n}); asked.push_back({a, n}); }
        compare(ctx, "dataset", d, m, asked);
        ctx.nontrivial(cat(f, "/", a, overwrite));
    }
}

// Whatever is at the place, the driver says whether it can be opened, without
// changing it, and opening it either works or is refused with the reason.
SUITE("C42", "what can be opened")
{
    Model m; m.write({"f", "a"}, make(int32_t(5)));
    library();
    auto valid = [] { S const name = file("valid.gnr"); { fl::FernDataset d(name, OpenMode::OVERWRITE); d.write_attribute(fl::ConstantAttribute<int32_t>(5), "/f/a"); } S c = contents(name); fs::remove(name); return c; };
    S const bytes = valid();
    struct Place { S what; int kind; S content; };
    std::vector<Place> places{{"nothing", 0, ""}, {"a directory", 1, ""}, {"nothing, in no directory", 2, ""}, {"an empty file", 3, ""}, {"a text", 3, "text\n"}, {"a dataset", 4, bytes}, {"a link to a dataset", 5, bytes}, {"a link to nothing", 6, ""}, {"below a file", 7, "text"}};
    unsigned const step = ctx.thorough() ? 1 : 8;
    for(size_t n = 1; n < bytes.size(); n += n < 128 ? 1 : step) places.push_back({cat(n, " of ", bytes.size(), " bytes of a dataset"), 3, bytes.substr(0, n)});
    for(auto const& p: places) for(auto mode: modes) {
        // HDF5 takes an empty file as a dataset without contents, when it can write to it.
        if(p.what == "an empty file" && mode == OpenMode::UPDATE) continue;
        if(!ctx.begin()) continue;
        ctx.describe(cat(p.what, ", ", text(mode)));
        S const directory = file("place"); fs::remove_all(directory); fs::create_directories(directory);
        S name = directory + "/x.gnr";
        auto put = [](S const& where, S const& what) { std::ofstream(where, std::ios::binary) << what; };
        switch(p.kind) {
            case 1: fs::create_directories(name); break;
            case 2: name = directory + "/none/x.gnr"; break;
            case 3: case 4: put(name, p.content); break;
            case 5: put(directory + "/y.gnr", p.content); fs::create_symlink(directory + "/y.gnr", name); break;
            case 6: fs::create_symlink(directory + "/none/y.gnr", name); break;
            case 7: put(directory + "/y", p.content); name = directory + "/y/x.gnr"; break;
        }
        bool const is_dataset = p.kind == 4 || p.kind == 5, is_file = is_dataset || p.kind == 3;
        S must = "open";
        if(mode == OpenMode::OVERWRITE) { if(!is_file && p.kind != 0) must = "Cannot be created"; }
        else if(!is_file) must = "Does not exist";
        else if(!is_dataset) must = mode == OpenMode::READ ? "Cannot be read" : "Cannot be written";
        if(must != "open") must = cat("IOError: I/O error handling ", name, ": ", must);
        auto files = [&] { S r; for(auto const& e: fs::recursive_directory_iterator(directory)) r += cat(e.path().string(), e.is_regular_file() ? contents(e.path().string()) : S(), "; "); return r; };
        S const before = files();
        fl::FernDriver driver;
        bool const can = driver.can_open(name, mode);
        if(p.kind != 6 || mode != OpenMode::OVERWRITE) ctx.check(can == (must == "open"), "can be opened", cat("is ", can));
        ctx.check(files() == before, "asking whether it can be opened changes what is there", "");
        S r = outcome([&] {
            auto d = std::static_pointer_cast<fl::FernDataset>(driver.open(name, mode));
            compare(ctx, "dataset", *d, mode == OpenMode::OVERWRITE ? Model() : m, {{"f"}, {"f", "a"}, {"g"}});
            ctx.check(d->name() == name && d->open_mode() == mode, "name and mode", d->name());
            return S("open");
        });
        ctx.check(r == must, "opening", cat(r, ", must be ", must));
        if(must != "open" || mode == OpenMode::READ) ctx.check(files() == before, "files changed", "");
        fs::remove_all(directory);
        ctx.nontrivial(cat(p.what, text(mode)));
    }
}

// Handles to the same dataset, and clients, that come and go.
SUITE("C42", "histories of handles")
{
    // Open one of two handles in one of three modes, close it, write by it.
    unsigned const depth = ctx.thorough() ? 6 : 5;
    for(unsigned n = 1; n <= depth; ++n) seq::tuples(n, 10, [&](auto const& t) {
        // 0-5: open handle k / 3 in mode k % 3; 6, 7: close; 8, 9: write.
        {
            int open[2] = {-1, -1};
            for(auto k: t) {
                int const h = k < 6 ? k / 3 : k % 2;
                if(k < 6) { if(open[h] >= 0) return; open[h] = k % 3; }
                else if(open[h] < 0) return;
                else if(k < 8) open[h] = -1;
                else if(open[h] == 0) return;
            }
        }
        if(!ctx.begin()) return;
        S description;
        for(auto k: t) description += k < 6 ? cat("open ", k / 3, " for ", text(modes[k % 3]), ", ") : cat(k < 8 ? "close " : "write by ", k % 2, ", ");
        ctx.describe(description);
        library();
        S const name = file("handles.gnr"); fs::remove(name);
        std::unique_ptr<fl::FernDataset> handles[2]; bool writable = false;
        Model m; bool exists = false; int32_t value = 0;
        for(auto k: t) {
            int const h = k < 6 ? k / 3 : k % 2;
            ++ctx.transitions;
            if(k < 6) {
                OpenMode const mode = modes[k % 3]; bool const shared = bool(handles[1 - h]);
                S must = "open";
                if(mode == OpenMode::OVERWRITE) { if(shared) must = "Cannot be created"; }
                else if(!exists) must = "Does not exist";
                else if(shared && mode == OpenMode::UPDATE && !writable) must = "Cannot be written";
                if(must != "open") must = cat("IOError: I/O error handling ", name, ": ", must);
                S r = outcome([&] { handles[h].reset(new fl::FernDataset(name, mode)); return S("open"); });
                if(!ctx.check(r == must, "opening", cat(r, ", must be ", must))) return;
                if(must == "open") { if(!shared) writable = mode != OpenMode::READ; if(mode == OpenMode::OVERWRITE) m = Model(); exists = true; }
                else if(!handles[h]) { for(int i: {0, 1}) if(handles[i]) compare(ctx, cat("handle ", i), *handles[i], m, {{"f"}, {"f", "a"}, {"f", "b"}}); return; }
            }
            else if(k < 8) handles[h].reset();
            else { ++value; S const a = h ? "b" : "a"; handles[h]->write_attribute(fl::ConstantAttribute<int32_t>(value), fern::Path("/f/" + a)); m.write({"f", a}, make(value)); }
            for(int i: {0, 1}) if(handles[i]) compare(ctx, cat("handle ", i), *handles[i], m, {{"f"}, {"f", "a"}, {"f", "b"}});
        }
        ctx.outcome(cat(m.attributes.size(), " attributes"));
        ctx.nontrivial(description);
    });
}

SUITE("C42", "histories of clients")
{
    // Come, go, write and read.
    for(unsigned n = 1; n <= (ctx.thorough() ? 9u : 7u); ++n) seq::tuples(n, 3, [&](auto const& t) {
        { int clients = 0; for(auto k: t) { clients += k == 0 ? 1 : k == 1 ? -1 : 0; if(clients < 0 || (k == 2 && !clients)) return; } }
        if(!ctx.begin()) return;
        S description; for(auto k: t) description += k == 0 ? "come " : k == 1 ? "go " : "use ";
        ctx.describe(description);
        std::vector<std::unique_ptr<Driver>> clients; std::vector<std::unique_ptr<Library>> libraries;
        S const name = file("clients.gnr"); fs::remove(name);
        Model m; int32_t value = 0;
        for(auto k: t) {
            ++ctx.transitions;
            if(k == 0) { libraries.emplace_back(new Library); clients.emplace_back(new Driver); }
            else if(k == 1) { clients.pop_back(); libraries.pop_back(); }
            else {
                S r = outcome([&] {
                    auto d = fl::open_dataset(name, value ? OpenMode::UPDATE : OpenMode::OVERWRITE, "Fern");
                    ++value;
                    d->write_attribute(fl::ConstantAttribute<int32_t>(value), "/f/a"); m.write({"f", "a"}, make(value));
                    compare(ctx, "dataset", static_cast<fl::FernDataset const&>(*d), m, {{"f"}, {"f", "a"}});
                    return S("used");
                });
                ctx.check(r == "used", "use", r);
            }
            ctx.check((fl::drivers.count("Fern") == 1) == !clients.empty(), "driver", cat(fl::drivers.size(), " drivers"));
        }
        ctx.nontrivial(description);
    });
}
