// Reading raster bands: every small raster, value type and no-data value,
// written with GDAL, read back with fern.
#define SEQ_MAIN
#include "seq.h"
#include "io_scratch.h"
#include <cassert>
#include <filesystem>
#include <fstream>
#include <limits>
#include <list>
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "fern/algorithm/policy/dont_mark_no_data.h"
#include "fern/algorithm/policy/mark_no_data_by_value.h"
#include "fern/io/core/file.h"
#include "fern/io/gdal/gdal_client.h"
#include "fern/io/gdal/gdal_value_type_traits.h"
#include "fern/io/gdal/read.h"

namespace fa = fern::algorithm;
namespace fig = fern::io::gdal;
namespace fs = std::filesystem;
using seq::cat;
using S = std::string;

namespace {

using scratch::path;
using scratch::directory;

template<class T> constexpr GDALDataType gdal_type();
template<> constexpr GDALDataType gdal_type<uint8_t>() { return GDT_Byte; }
template<> constexpr GDALDataType gdal_type<uint16_t>() { return GDT_UInt16; }
template<> constexpr GDALDataType gdal_type<int16_t>() { return GDT_Int16; }
template<> constexpr GDALDataType gdal_type<uint32_t>() { return GDT_UInt32; }
template<> constexpr GDALDataType gdal_type<int32_t>() { return GDT_Int32; }
template<> constexpr GDALDataType gdal_type<float>() { return GDT_Float32; }
template<> constexpr GDALDataType gdal_type<double>() { return GDT_Float64; }

template<class T> bool same(T a, T b)
{
    if constexpr(std::is_floating_point_v<T>) return a == b ? std::signbit(a) == std::signbit(b) : std::isnan(a) && std::isnan(b);
    else return a == b;
}

// Does a value equal the no-data value, as numbers? (A marker of a float band
// is the float nearest to the number in the file.)
template<class T> bool is_no_data(T v, double marker)
{
    if constexpr(std::is_floating_point_v<T>) return std::isnan(marker) ? std::isnan(v) : v == static_cast<T>(marker);
    else return static_cast<double>(v) == marker;
}

struct Marker { bool set; double value; };

// Rows first.
template<class T> bool write(S const& name, size_t rows, size_t cols, std::vector<T> const& values, Marker marker, unsigned bands = 1, char const* driver = "GTiff", char const* option = nullptr)
{
    char* options[] = {const_cast<char*>(option), nullptr};
    auto d = GetGDALDriverManager()->GetDriverByName(driver);
    if(!d) return false;
    auto dataset = d->Create(name.c_str(), cols, rows, bands, gdal_type<T>(), options);
    if(!dataset) return false;
    bool ok = true;
    double transform[6] = {100, 2, 0, 200, 0, -3};
    dataset->SetGeoTransform(transform);
    for(unsigned b = bands; b >= 1; --b) {
        std::vector<T> v(values);
        if(b > 1) { std::reverse(v.begin(), v.end()); for(auto& x: v) x = static_cast<T>(x / 2 + 3); }
        auto band = dataset->GetRasterBand(b);
        ok = band->RasterIO(GF_Write, 0, 0, cols, rows, v.data(), cols, rows, gdal_type<T>(), 0, 0) == CE_None && ok;
        if(marker.set) ok = band->SetNoDataValue(marker.value) == CE_None && ok;
    }
    GDALClose(dataset);
    return ok;
}

// Is the file what the case wants, according to GDAL itself?
template<class T> bool written(S const& name, size_t rows, size_t cols, std::vector<T> const& values, Marker marker)
{
    auto dataset = static_cast<GDALDataset*>(GDALOpen(name.c_str(), GA_ReadOnly));
    if(!dataset) return false;
    if(dataset->GetRasterCount() < 1) { GDALClose(dataset); return false; }
    std::vector<T> v(rows * cols);
    auto band = dataset->GetRasterBand(1);
    int has = 0;
    double value = band->GetNoDataValue(&has);
    bool ok = (has != 0) == marker.set && (!has || same(value, marker.value)) && band->GetRasterDataType() == gdal_type<T>() && dataset->GetRasterXSize() == (int)cols && dataset->GetRasterYSize() == (int)rows &&
        band->RasterIO(GF_Read, 0, 0, cols, rows, v.data(), cols, rows, gdal_type<T>(), 0, 0) == CE_None;
    for(size_t i = 0; ok && i < v.size(); ++i) ok = same(v[i], values[i]);
    GDALClose(dataset);
    return ok;
}

template<class T> using Raster = fern::MaskedRaster<T, 2>;

typename Raster<double>::Transformation const transformation{{1, 2, 3, 4}};

// What reading does: nothing, or the reason why not.
template<class T> S read(S const& data_name, Raster<T>& raster)
{
    fa::MarkNoDataByValue<typename Raster<T>::Mask> policy(raster.mask());
    try { fig::read(policy, fern::DataName(data_name), raster); }
    catch(fern::IOError const& e) { return e.message(); }
    return "";
}

template<class T> void compare(seq::Context& ctx, S const& file, size_t rows, size_t cols, std::vector<T> const& values, Marker marker)
{
    Raster<T> raster(fern::extents[rows][cols], transformation, static_cast<T>(77));
    S message = read(file, raster);
    if(!ctx.check(message.empty(), "refused", message)) return;
    size_t no_data = 0;
    for(size_t i = 0; i < values.size(); ++i) {
        bool expected = marker.set && is_no_data(values[i], marker.value);
        bool marked = raster.mask().data()[i];
        if(marked != expected) ctx.violation(expected ? "no-data not marked" : "value marked as no-data", cat("cell ", i, " with value ", values[i], ", no-data value ", marker.value));
        if(!expected && !same(raster.data()[i], values[i])) ctx.violation("value", cat("cell ", i, " is ", raster.data()[i], ", must be ", values[i]));
        no_data += expected;
        ++ctx.transitions;
    }
    ctx.check(raster.transformation() == transformation, "transformation", "the transformation of the destination has changed");

    // The same without marking.
    Raster<T> other(fern::extents[rows][cols], transformation, static_cast<T>(77));
    fa::DontMarkNoData dont;
    try { fig::read(dont, fern::DataName(file), other); } catch(fern::IOError const& e) { ctx.violation("refused", e.message()); return; }
    for(size_t i = 0; i < values.size(); ++i) {
        if(other.mask().data()[i]) ctx.violation("marked without policy", cat("cell ", i));
        if(!same(other.data()[i], values[i])) ctx.violation("value", cat("cell ", i, " is ", other.data()[i], ", must be ", values[i]));
    }
    ctx.check(true, "", "");
    ctx.outcome(!marker.set ? "no no-data value" : no_data == 0 ? "no no-data" : no_data == values.size() ? "all no-data" : "some no-data");
}

template<class T> std::vector<T> alphabet()
{
    using L = std::numeric_limits<T>;
    if constexpr(std::is_floating_point_v<T>) return {L::lowest(), static_cast<T>(0.1), L::quiet_NaN(), L::infinity(), static_cast<T>(-0.0)};
    else return {L::min(), L::max(), static_cast<T>(1), static_cast<T>(241)};
}

template<class T> std::vector<Marker> markers()
{
    using L = std::numeric_limits<T>;
    double const nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
    std::vector<Marker> r{{false, 0}, {true, (double)L::lowest()}, {true, (double)L::max()}, {true, 1}, {true, 7}, {true, nan}, {true, 0}};
    if constexpr(std::is_floating_point_v<T>) {
        for(double m: {0.1, inf, -inf, -1.5}) r.push_back({true, m});
        if(std::is_same_v<T, float>) r.push_back({true, (double)0.1f});
    }
    else {
        // Not of this type, although a conversion makes it so.
        for(double m: {L::min() - 1.0, L::max() + 1.0, L::max() + 2.0, 1.5, -9999.0, -15.0, 1e20, -inf, inf}) r.push_back({true, m});
    }
    return r;
}

template<class T> void contents(seq::Context& ctx, S const& type, bool thorough)
{
    auto const all = alphabet<T>();
    auto const ms = markers<T>();
    for(size_t rows = 1; rows <= 3; ++rows) for(size_t cols = 1; cols <= 3; ++cols) {
        size_t cells = rows * cols;
        unsigned radix = cells <= 2 ? all.size() : cells <= 4 ? 3 : 2;
        if(thorough && cells <= 4) radix = cells <= 3 ? all.size() : 4;
        if(thorough && cells == 6) radix = 3;
        for(size_t m = 0; m < ms.size(); ++m) {
            if(cells > 4 && !thorough && m > 2) continue;
            seq::tuples(cells, radix, [&](std::vector<unsigned> const& d) {
                if(cells == 9 && !thorough && (d[0] + d[1] + d[2]) % 2) return;
                if(!ctx.begin()) return;
                std::vector<T> values;
                for(auto i: d) values.push_back(all[i]);
                ctx.describe(cat(type, " ", rows, "x", cols, " ", values, ms[m].set ? cat(", no-data ", ms[m].value) : S()));
                unsigned bands = 1 + (cells + m) % 2;
                S file = path("contents.tif");
                fs::remove(file);
                if(!write(file, rows, cols, values, ms[m], bands) || !written(file, rows, cols, values, ms[m])) { ctx.outcome("not written by GDAL"); return; }
                compare(ctx, file, rows, cols, values, ms[m]);
                uint64_t h = seq::hash(type);
                for(auto i: d) h = seq::mix(h, i);
                ctx.nontrivial(seq::mix(seq::mix(h, rows * 16 + cols), m));
                ctx.sample(cat(type, " ", rows, "x", cols, " ", values));
            });
        }
    }
}

SUITE("C32", "contents")
{
    fig::GDALClient client;
    contents<uint8_t>(ctx, "uint8", ctx.thorough());
    contents<uint16_t>(ctx, "uint16", ctx.thorough());
    contents<int16_t>(ctx, "int16", ctx.thorough());
    contents<uint32_t>(ctx, "uint32", ctx.thorough());
    contents<int32_t>(ctx, "int32", ctx.thorough());
    contents<float>(ctx, "float", ctx.thorough());
    contents<double>(ctx, "double", ctx.thorough());
}

// Each value of the 8 and 16 bit types as no-data value of a raster with all
// of them.
template<class T> void every_value(seq::Context& ctx, S const& type)
{
    std::vector<T> values;
    for(int v = std::numeric_limits<T>::min(); v <= std::numeric_limits<T>::max(); ++v) values.push_back(static_cast<T>(v));
    size_t rows = sizeof(T) == 1 ? 8 : 32, cols = values.size() / rows;
    int step = sizeof(T) == 1 ? 1 : ctx.thorough() ? 17 : 251;
    int lo = std::numeric_limits<T>::min() - 300, hi = std::numeric_limits<T>::max() + 300;
    for(int m = lo; m <= hi; m += step) {
        if(!ctx.begin()) continue;
        ctx.describe(cat(type, ", all values, no-data ", m));
        S file = path("every.tif");
        fs::remove(file);
        Marker marker{true, (double)m};
        if(!write(file, rows, cols, values, marker) || !written(file, rows, cols, values, marker)) { ctx.outcome("not written by GDAL"); continue; }
        compare(ctx, file, rows, cols, values, marker);
        ctx.nontrivial(cat(type, m));
    }
}

SUITE("C32", "every value")
{
    fig::GDALClient client;
    every_value<uint8_t>(ctx, "uint8");
    every_value<int16_t>(ctx, "int16");
    every_value<uint16_t>(ctx, "uint16");
}

// Layouts on disk, and larger rasters (more than one block).
SUITE("C32", "layouts")
{
    fig::GDALClient client;
    char const* options[] = {nullptr, "TILED=YES", "COMPRESS=LZW", "INTERLEAVE=PIXEL", "INTERLEAVE=BAND", "BLOCKYSIZE=1"};
    auto const one = [&](char const* driver, char const* option, size_t rows, size_t cols, auto zero, S const& type) {
        using T = decltype(zero);
        for(unsigned bands: {1, 2, 3}) for(bool set: {false, true}) {
            if(!ctx.begin()) continue;
            ctx.describe(cat(driver, " ", option ? option : "", " ", type, " ", rows, "x", cols, " with ", bands, " bands", set ? ", no-data 5" : ""));
            std::vector<T> values;
            for(size_t i = 0; i < rows * cols; ++i) values.push_back(static_cast<T>((i * 7 + i / cols) % 113));
            S file = path("layout.img");
            for(auto const& x: fs::directory_iterator(directory())) fs::remove(x);
            Marker marker{set, set ? 5. : 0.};
            if(!write(file, rows, cols, values, marker, bands, driver, option) || !written(file, rows, cols, values, marker)) { ctx.outcome(cat("not written by GDAL: ", driver)); continue; }
            compare(ctx, file, rows, cols, values, marker);
            ctx.nontrivial(cat(driver, option ? option : "", type, rows, cols, bands, set));
        }
    };
    for(auto driver: {"GTiff", "HFA", "ENVI", "EHdr", "RST", "PCRaster", "KEA", "netCDF"}) {
        for(auto option: options) {
            if(option && S(driver) != "GTiff") continue;
            for(auto shape: std::vector<std::pair<size_t, size_t>>{{1, 1}, {2, 3}, {5, 1}, {1, 7}, {70, 65}, {17, 300}, {300, 17}}) {
                one(driver, option, shape.first, shape.second, uint8_t(), "uint8");
                one(driver, option, shape.first, shape.second, int32_t(), "int32");
                one(driver, option, shape.first, shape.second, float(), "float");
                one(driver, option, shape.first, shape.second, double(), "double");
            }
        }
    }
}

struct Refusal { S name, message; };

// Is this the message of an I/O error about the file, with a reason?
void refused(seq::Context& ctx, S const& file, S const& message, S const& reason = "")
{
    S start = cat("I/O error handling ", file, ": ");
    if(!ctx.check(!message.empty(), "not refused", "reading succeeds")) return;
    ctx.check(message.compare(0, start.size(), start) == 0 && message.size() > start.size(), "message", message);
    if(!reason.empty()) ctx.check(message == start + reason, "reason", cat(message, ", must be ", start, reason));
}

template<class T> void unmarked(seq::Context& ctx, Raster<T> const& raster)
{
    bool ok = true;
    for(size_t i = 0; i < raster.num_elements(); ++i) ok = ok && !raster.mask().data()[i];
    ctx.check(ok, "marked though refused", "a cell is marked as no-data");
}

// All types in a file by all types of destination.
SUITE("C32", "types")
{
    fig::GDALClient client;
    std::vector<GDALDataType> types;
    for(int t = GDT_Unknown + 1; t < GDT_TypeCount; ++t) types.push_back(static_cast<GDALDataType>(t));
    for(auto type: types) {
        S file = path(cat("type-", (int)type, ".tif"));
        auto make = [&] {
            auto dataset = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(file.c_str(), 2, 1, 1, type, nullptr);
            if(!dataset) return false;
            float values[] = {3, 4};
            bool ok = dataset->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, 2, 1, values, 2, 1, GDT_Float32, 0, 0) == CE_None;
            dataset->GetRasterBand(1)->SetNoDataValue(4);
            GDALClose(dataset);
            return ok;
        };
        auto into = [&](auto zero) {
            using T = decltype(zero);
            if(!ctx.begin()) return;
            ctx.describe(cat(GDALGetDataTypeName(type), " into ", GDALGetDataTypeName(gdal_type<T>())));
            ctx.nontrivial(cat((int)type, (int)gdal_type<T>()));
            if(!make()) { ctx.outcome("not written by GDAL"); return; }
            Raster<T> raster(fern::extents[1][2], transformation, static_cast<T>(77));
            S message = read(file, raster);
            if(type == gdal_type<T>()) {
                ctx.check(message.empty(), "refused", message);
                ctx.check(raster.data()[0] == T(3) && !raster.mask().data()[0] && raster.mask().data()[1], "value", "wrong value or no-data");
                ctx.outcome("same type");
            }
            else { refused(ctx, file, message); unmarked(ctx, raster); ctx.outcome("other type"); }
        };
        into(uint8_t()); into(uint16_t()); into(int16_t()); into(uint32_t()); into(int32_t()); into(float()); into(double());
        if(ctx.begin()) {
            ctx.describe(cat("value type of ", GDALGetDataTypeName(type)));
            if(make()) ctx.check(fig::gdal_value_type(fern::DataName(file + ":/x")) == type, "value type", "wrong");
        }
    }
    if(ctx.begin()) {
        ctx.describe("tables of types");
        #define SAME(gdal, T) ctx.check(fig::ValueTypeTraits<T>::gdal_value_type == gdal, "type to GDAL type", #T); \
            ctx.check(std::is_same_v<fig::GDALValueTypeTraits<gdal>::type, T>, "GDAL type to type", #gdal);
        SAME(GDT_Byte, uint8_t) SAME(GDT_UInt16, uint16_t) SAME(GDT_Int16, int16_t) SAME(GDT_UInt32, uint32_t) SAME(GDT_Int32, int32_t) SAME(GDT_Float32, float) SAME(GDT_Float64, double)
    }
}

// What cannot be read.
SUITE("C32", "refusals")
{
    fig::GDALClient client;
    auto one = [&](S const& what, S const& file, S const& reason, std::function<void()> const& make) {
        for(auto data: {"", ":/", ":/band", ":a/b"}) for(int which = 0; which < 2; ++which) {
            if(!ctx.begin()) continue;
            ctx.describe(cat(which ? "value type of " : "read ", what, ", ", data));
            ctx.nontrivial(cat(what, data, which));
            make();
            S message;
            Raster<int32_t> raster(fern::extents[2][3], transformation, 77);
            if(which == 0) message = read(file + data, raster);
            else { try { fig::gdal_value_type(fern::DataName(file + data)); } catch(fern::IOError const& e) { message = e.message(); } }
            refused(ctx, file, message, reason);
            unmarked(ctx, raster);
            ctx.outcome(reason.empty() ? "other" : reason);
        }
    };
    S const missing = "Does not exist", unreadable = "Cannot be read";
    auto nothing = [] {};
    auto text = [](S const& file, S const& content) { return [=] { std::ofstream(file) << content; }; };
    one("no file", path("none.tif"), missing, nothing);
    one("no directory", path("none/none.tif"), missing, nothing);
    one("a file as directory", path("file/none.tif"), missing, text(path("file"), "x"));
    one("a name that is too long", path(S(300, 'x')), missing, nothing);
    one("a circular link", path("circle"), missing, [] { fs::remove(path("circle")); fs::create_symlink(path("circle"), path("circle")); });
    one("a dangling link", path("dangling"), missing, [] { fs::remove(path("dangling")); fs::create_symlink(path("none.tif"), path("dangling")); });
    one("an empty file", path("empty.tif"), unreadable, text(path("empty.tif"), ""));
    one("text", path("text.tif"), unreadable, text(path("text.tif"), "this is not a raster\n"));
    one("a directory", path("directory"), unreadable, [] { fs::create_directories(path("directory")); });
    one("a raster without bands", path("none.vrt"), "", text(path("none.vrt"), "<VRTDataset rasterXSize=\"3\" rasterYSize=\"2\"></VRTDataset>"));
    // The band is there, but its values are in another file that is not.
    for(int i = 0; i < 2; ++i) if(ctx.begin()) {
        ctx.describe(cat("a raster whose values are not there, ", i));
        std::ofstream(path("lost.vrt")) << "<VRTDataset rasterXSize=\"3\" rasterYSize=\"2\"><VRTRasterBand dataType=\"Int32\" band=\"1\"><NoDataValue>0</NoDataValue><SimpleSource><SourceFilename relativeToVRT=\"1\">"
            << (i == 0 ? "none.tif" : "text.tif") << "</SourceFilename><SourceBand>1</SourceBand></SimpleSource></VRTRasterBand></VRTDataset>";
        std::ofstream(path("text.tif")) << "this is not a raster\n";
        Raster<int32_t> raster(fern::extents[2][3], transformation, 77);
        S message = read(path("lost.vrt"), raster);
        refused(ctx, path("lost.vrt"), message);
        unmarked(ctx, raster);
        ctx.nontrivial(cat("lost", i));
        ctx.outcome("values lost");
    }
    // A link to a raster is fine.
    if(ctx.begin()) {
        ctx.describe("a link to a raster");
        std::vector<int32_t> values{1, 2, 3, 4, 5, 6};
        write(path("target.tif"), 2, 3, values, {true, 4});
        fs::remove(path("link"));
        fs::create_symlink(path("target.tif"), path("link"));
        compare(ctx, path("link"), 2, 3, values, {true, 4});
    }
}

// Files that are cut off at any point: refused, or read right.
template<class T> void cut(seq::Context& ctx, S const& type, char const* option, Marker marker, char const* driver = "GTiff")
{
    std::vector<T> values;
    for(int i = 0; i < 30; ++i) values.push_back(static_cast<T>(i * 3 % 11));
    S whole = path("whole.tif"), file = path("cut.tif");
    fs::remove(whole);
    if(!write(whole, 5, 6, values, marker, 1, driver, option)) return;
    bool const header = fs::exists(path("whole.hdr"));
    if(header) { fs::remove(path("cut.hdr")); fs::copy_file(path("whole.hdr"), path("cut.hdr")); }
    size_t size = fs::file_size(whole);
    for(size_t n = 0; n <= size; ++n) {
        if(!ctx.begin()) continue;
        ctx.describe(cat(driver, " ", type, " ", option ? option : "", " cut off after ", n, " of ", size, " bytes"));
        ctx.nontrivial(cat(driver, type, option ? option : "", n));
        fs::remove(file);
        fs::copy_file(whole, file);
        fs::resize_file(file, n);
        Raster<T> raster(fern::extents[5][6], transformation, static_cast<T>(77));
        S message;
        {
            // What GDAL itself makes of it.
            auto dataset = static_cast<GDALDataset*>(GDALOpen(file.c_str(), GA_ReadOnly));
            S how = !dataset ? "not opened" : "opened";
            if(dataset) {
                if(dataset->GetRasterXSize() != 6 || dataset->GetRasterYSize() != 5 || dataset->GetRasterCount() < 1) how = "other size";
                else {
                    std::vector<T> v(30);
                    int has = 0;
                    double nd = dataset->GetRasterBand(1)->GetNoDataValue(&has);
                    if(dataset->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, 6, 5, v.data(), 6, 5, gdal_type<T>(), 0, 0) != CE_None) how = "not read";
                    else if(v != values || (has != 0) != marker.set || (has && nd != marker.value)) how = "read as something else";
                }
                GDALClose(dataset);
            }
            ctx.outcome(cat(driver, " ", how));
            if(how == "other size" || how == "read as something else") continue;
            message = read(file, raster);
            if(how == "not opened") refused(ctx, file, message, "Cannot be read");
            else if(how == "not read") refused(ctx, file, message);
            else compare(ctx, file, 5, 6, values, marker);
            if(how != "opened") unmarked(ctx, raster);
        }
    }
}

SUITE("C32", "cut off")
{
    fig::GDALClient client;
    for(auto driver: {"ENVI", "EHdr"}) {
        cut<uint8_t>(ctx, "uint8", nullptr, {true, 4}, driver);
        cut<int32_t>(ctx, "int32", nullptr, {true, 4}, driver);
        cut<float>(ctx, "float", nullptr, {true, 4}, driver);
    }
    for(auto name: {"whole.hdr", "cut.hdr", "whole.stx", "whole.tif.aux.xml"}) fs::remove(path(name));
    for(auto option: {(char const*)nullptr, "COMPRESS=LZW", "TILED=YES"}) {
        if(option && S(option) == "TILED=YES" && !ctx.thorough()) continue;
        cut<uint8_t>(ctx, "uint8", option, {true, 4});
        cut<int32_t>(ctx, "int32", option, {true, 4});
        if(ctx.thorough()) cut<double>(ctx, "double", option, {false, 0});
    }
}

// GDAL is usable exactly while a client exists.
SUITE("C32", "clients")
{
    unsigned const depth = ctx.thorough() ? 9 : 7;
    std::vector<int32_t> values{1, 2, 3, 4, 5, 6};
    {
        fig::GDALClient client;
        write(path("clients.tif"), 2, 3, values, {true, 4});
    }
    // 0: create; k: destroy the k-th oldest.
    std::vector<unsigned> history;
    std::function<void(unsigned)> go = [&](unsigned live) {
        if(!history.empty() && ctx.begin()) {
            S text = "clients:";
            for(auto h: history) text += h == 0 ? " create" : cat(" destroy", h);
            ctx.describe(text);
            ctx.nontrivial(text);
            std::list<std::unique_ptr<fig::GDALClient>> clients;
            for(auto h: history) {
                ++ctx.transitions;
                if(h == 0) clients.push_back(std::make_unique<fig::GDALClient>());
                else clients.erase(std::next(clients.begin(), h - 1));
                bool registered = GetGDALDriverManager()->GetDriverByName("GTiff") != nullptr;
                ctx.check(registered == !clients.empty(), "drivers", registered ? "drivers are registered without client" : "no drivers, though there is a client");
                ctx.check(!clients.empty() || GetGDALDriverManager()->GetDriverCount() == 0, "drivers left", "drivers are left after the last client");
            }
            if(!clients.empty()) compare(ctx, path("clients.tif"), 2, 3, values, {true, 4});
            ctx.outcome(cat(clients.size(), " clients"));
        }
        if(history.size() == depth) return;
        if(live < 3) { history.push_back(0); go(live + 1); history.pop_back(); }
        for(unsigned k = 1; k <= live; ++k) { history.push_back(k); go(live - 1); history.pop_back(); }
    };
    go(0);
}

} // namespace
