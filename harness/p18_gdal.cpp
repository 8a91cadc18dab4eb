// P18: GDAL rasters: blocks, data types, drivers, I/O of cells, datasets, comparison
#include "mc.hpp"
#include "lue/gdal.hpp"
#include "lue/gdal/blocks.hpp"
#include <cmath>
#include <limits>
#include <optional>

namespace lg = lue::gdal;
using Cells = std::vector<double>;  // every value used is exactly representable in a double

namespace {

    std::vector<std::string> const types{"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"};

    template<typename F>
    auto with_type(std::string const& t, F&& f)
    {
        if (t == "u8") return f.template operator()<std::uint8_t>();
        if (t == "i8") return f.template operator()<std::int8_t>();
        if (t == "u16") return f.template operator()<std::uint16_t>();
        if (t == "i16") return f.template operator()<std::int16_t>();
        if (t == "u32") return f.template operator()<std::uint32_t>();
        if (t == "i32") return f.template operator()<std::int32_t>();
        if (t == "u64") return f.template operator()<std::uint64_t>();
        if (t == "i64") return f.template operator()<std::int64_t>();
        if (t == "f32") return f.template operator()<float>();
        return f.template operator()<double>();
    }

    auto gdal_type(std::string const& t) -> GDALDataType
    {
        return with_type(t, []<typename T>() { return lg::data_type_v<T>; });
    }

    // Cell values which differ from cell to cell, between bands and between calls, and reach the type's limits
    template<typename T>
    struct Values
    {
        long n{0};
        auto operator()() -> T
        {
            ++n;
            switch (n % 7)
            {
                case 3:
                    if constexpr (std::is_integral_v<T>)
                    {
                        if constexpr (sizeof(T) < 8)
                        {
                            return static_cast<T>(std::numeric_limits<T>::max() - n % 5);
                        }
                        else
                        {
                            return static_cast<T>((T{1} << 50) + n);
                        }
                    }
                    else
                    {
                        return static_cast<T>(n) + T{0.25};
                    }
                case 5:
                    if constexpr (std::is_signed_v<T>)
                    {
                        return static_cast<T>(-(n % 100));
                    }
                    break;
                default:
                    break;
            }
            return static_cast<T>(1 + n % 120);
        }
    };

    struct Layout
    {
        std::string name;
        std::map<std::string, std::string> options;
    };

    auto layout(std::string const& name) -> std::map<std::string, std::string>
    {
        if (name == "t16")
        {
            return {{"TILED", "YES"}, {"BLOCKXSIZE", "16"}, {"BLOCKYSIZE", "16"}};
        }
        if (name == "t1632")
        {
            return {{"TILED", "YES"}, {"BLOCKXSIZE", "16"}, {"BLOCKYSIZE", "32"}};
        }
        if (name == "t3216")
        {
            return {{"TILED", "YES"}, {"BLOCKXSIZE", "32"}, {"BLOCKYSIZE", "16"}};
        }
        if (name[0] == 's')  // strips of so many rows
        {
            return {{"BLOCKYSIZE", name.substr(1)}};
        }
        return {};
    }

    int serial = 0;

    auto fresh() -> std::string
    {
        return std::format("/vsimem/{}/r{}.tif", getpid(), ++serial);
    }

    struct Temporary
    {
        std::string name{fresh()};
        ~Temporary() { VSIUnlink(name.c_str()); VSIUnlink((name + ".aux.xml").c_str()); }
    };

    lg::GeoTransform const north_up{10.0, 2.0, 0.0, 20.0, 0.0, -2.0};

    template<typename T>
    auto as_cells(std::vector<T> const& v) -> Cells
    {
        Cells r;
        for (T x : v)
        {
            r.push_back(static_cast<double>(x));
        }
        return r;
    }

    auto same(Cells const& a, Cells const& b) -> bool
    {
        if (a.size() != b.size())
        {
            return false;
        }
        for (std::size_t i = 0; i < a.size(); ++i)
        {
            if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))))
            {
                return false;
            }
        }
        return true;
    }

    auto raises(std::function<void()> const& f) -> bool
    {
        try
        {
            f();
        }
        catch (std::exception const&)
        {
            return true;
        }
        return false;
    }

    auto parse_hw(std::string const& s) -> lg::Shape
    {
        auto w = mc::words(s, 'x');
        return {std::stoi(w[0]), std::stoi(w[1])};
    }
}

// ---------------------------------------------------------------- blocks

void run_blocks(int const h, int const w, mc::Rec& rec)
{
    for (int bh = 1; bh <= h; ++bh)
    {
        for (int bw = 1; bw <= w; ++bw)
        {
            rec.trace();
            auto const where = std::format("raster {}x{}, block {}x{}", h, w, bh, bw);
            lg::Blocks const blocks{{h, w}, {bh, bw}};
            rec.expect("blocks:shapes", blocks.raster_shape() == lg::Shape{h, w} && blocks.block_shape() == lg::Shape{bh, bw}, where);
            auto const [ny, nx] = blocks.shape_in_blocks();
            std::vector<int> seen(h * w, 0);
            bool ok = true;
            for (int by = 0; by < ny; ++by)
            {
                for (int bx = 0; bx < nx; ++bx)
                {
                    rec.trans();
                    auto const [vh, vw] = blocks.shape_in_valid_cells({by, bx});
                    ok = ok && vh > 0 && vw > 0 && vh <= bh && vw <= bw;
                    for (int y = by * bh; y < by * bh + vh; ++y)
                    {
                        for (int x = bx * bw; x < bx * bw + vw; ++x)
                        {
                            if (y < h && x < w)
                            {
                                ++seen[y * w + x];
                            }
                            else
                            {
                                ok = false;
                            }
                        }
                    }
                }
            }
            for (int n : seen)
            {
                ok = ok && n == 1;
            }
            rec.state(where);
            rec.outcome(std::format("{}x{}", ny, nx));
            rec.expect("blocks:partition", ok, where + ": the valid cells of the blocks are not the cells of the raster");
        }
    }
}

// ---------------------------------------------------------------- data types and drivers

void run_types(mc::Rec& rec)
{
    for (int i = GDT_Unknown; i < GDT_TypeCount; ++i)
    {
        auto const type = static_cast<GDALDataType>(i);
        auto const* name = GDALGetDataTypeName(type);
        rec.trans();
        rec.state(name);
        rec.expect_eq("types:name", lg::as_string(type), std::string{"GDT_"} + name);
    }
    for (auto const& t : types)
    {
        with_type(
            t,
            [&]<typename T>()
            {
                rec.trans();
                auto const type = lg::data_type_v<T>;
                rec.state(t);
                rec.expect_eq("types:size", GDALGetDataTypeSizeBytes(type), static_cast<int>(sizeof(T)), t);
                rec.expect_eq("types:integer", GDALDataTypeIsInteger(type) != 0, std::is_integral_v<T>, t);
                rec.expect_eq("types:floating", GDALDataTypeIsFloating(type) != 0, std::is_floating_point_v<T>, t);
                rec.expect_eq("types:signed", GDALDataTypeIsSigned(type) != 0, std::is_signed_v<T>, t);
                rec.expect("types:supported", lg::supports<T>() && !raises([] { lg::verify_support<T>(); }), t);
            });
    }
    rec.trace();
}

void run_driver_names(mc::Rec& rec)
{
    std::map<std::string, std::string> const table{
        {"tif", "GTiff"}, {"hdf4", "HDF4"}, {"h4", "HDF4"}, {"hdf5", "HDF5"}, {"h5", "HDF5"}, {"nc", "netCDF"},
        {"map", "PCRaster"}, {"csf", "PCRaster"}, {"img", "HFA"}};
    for (auto const& [extension, driver] : table)
    {
        for (unsigned bits = 0; bits < (1u << extension.size()); ++bits)
        {
            std::string e = extension;
            for (std::size_t i = 0; i < e.size(); ++i)
            {
                if ((bits >> i) & 1)
                {
                    e[i] = static_cast<char>(std::toupper(e[i]));
                }
            }
            for (std::string const stem : {"a.", "/tmp/some.dir/b.", "c.map.", "A B.", "../tif."})
            {
                rec.trans();
                rec.state(stem + e);
                rec.expect_eq("driver_name", lg::driver_name(stem + e), driver, stem + e);
            }
        }
    }
    for (std::string const name : {"", "a", "tif", ".tif", "a.", "a.tiff", "a.ti", "a.tif.x", "dir.tif/a", "a.hdf", "a.h"})
    {
        rec.trans();
        rec.expect_eq("driver_name:unknown", lg::driver_name(name), std::string{"Unknown"}, name);
    }
    for (std::string const name : {"GTiff", "MEM", "HFA", "PCRaster"})
    {
        rec.trans();
        rec.expect("driver", std::string{lg::driver(name)->GetDescription()} == name, name);
    }
    for (std::string const name : {"", "gtif", "Unknown", "NoSuchDriver"})
    {
        rec.trans();
        rec.expect("driver:missing", raises([&] { lg::driver(name); }), name);
    }
    lg::register_gdal_drivers();
    rec.trace();
}

// ---------------------------------------------------------------- I/O of cells

struct Model
{
    lg::Shape shape;
    int nr_bands;
    std::vector<Cells> bands;
    std::optional<double> no_data;
    lg::GeoTransform transform;
};

template<typename T>
auto read_all(lg::Raster& raster, int band) -> Cells
{
    auto const shape = raster.shape();
    std::vector<T> buffer(lg::nr_elements(shape) + 1, T{77});
    raster.band(band).read(buffer.data());
    if (buffer.back() != T{77})
    {
        throw std::runtime_error("read past the end of the buffer");
    }
    buffer.pop_back();
    return as_cells(buffer);
}

template<typename T>
void check_raster(lg::Raster& raster, Model const& model, std::string const& type, mc::Rec& rec, std::string const& where,
    bool const reopened = true)
{
    rec.expect("raster:shape", raster.shape() == model.shape, where);
    rec.expect_eq("raster:nr_bands", raster.nr_bands(), model.nr_bands, where);
    rec.expect_eq("raster:type", static_cast<int>(raster.data_type()), static_cast<int>(gdal_type(type)), where);
    rec.expect("raster:transform", raster.geo_transform() == model.transform, where);
    for (int b = 1; b <= model.nr_bands; ++b)
    {
        auto band = raster.band(b);
        rec.expect("band:shape", band.shape() == model.shape, where);
        rec.expect_eq("band:type", static_cast<int>(band.data_type()), static_cast<int>(gdal_type(type)), where);
        auto const [no_data, valid] = band.template no_data_value<T>();
        rec.expect_eq("band:no_data_set", valid, model.no_data.has_value(), where);
        if (valid && model.no_data)
        {
            rec.expect("band:no_data", same({static_cast<double>(no_data)}, {*model.no_data}), where);
        }
        Cells const got = read_all<T>(raster, b);
        rec.expect(
            "band:cells", same(got, model.bands[b - 1]),
            std::format("{} band {}: read {} expected {}", where, b, mc::Rec::show(got), mc::Rec::show(model.bands[b - 1])));

        rec.state(mc::Rec::show(got));
        if (!reopened)
        {
            continue;  // Access to blocks does not see what the driver has not written yet
        }

        // The same cells, block by block
        auto const block_shape = band.block_shape();
        Cells by_block(lg::nr_elements(model.shape), -1);
        lg::Shape const clipped{std::min(block_shape[0], model.shape[0]), std::min(block_shape[1], model.shape[1])};
        std::vector<T> block(lg::nr_elements(block_shape));
        for (int y = 0; y * block_shape[0] < model.shape[0]; ++y)
        {
            for (int x = 0; x * block_shape[1] < model.shape[1]; ++x)
            {
                rec.trans();
                band.read_block({y, x}, block.data());
                for (int r = 0; r < block_shape[0] && y * block_shape[0] + r < model.shape[0]; ++r)
                {
                    for (int c = 0; c < block_shape[1] && x * block_shape[1] + c < model.shape[1]; ++c)
                    {
                        by_block[(y * block_shape[0] + r) * model.shape[1] + x * block_shape[1] + c] =
                            static_cast<double>(block[r * block_shape[1] + c]);
                    }
                }
            }
        }
        rec.expect("band:blocks", same(by_block, model.bands[b - 1]), where);
    }
}

template<typename T>
void window_write(
    lg::Raster& raster, int b, lg::Offset const& offset, lg::Shape const& shape, Values<T>& values, Model& model)
{
    std::vector<T> buffer;
    for (int i = 0; i < lg::nr_elements(shape); ++i)
    {
        buffer.push_back(values());
    }
    raster.band(b).write(offset, shape, lg::data_type_v<T>, buffer.data());
    for (int y = 0; y < shape[0]; ++y)
    {
        for (int x = 0; x < shape[1]; ++x)
        {
            model.bands[b - 1][(offset[0] + y) * model.shape[1] + offset[1] + x] =
                static_cast<double>(buffer[y * shape[1] + x]);
        }
    }
}

template<typename T>
void block_write(lg::Raster& raster, int b, lg::Offset const& offset, Values<T>& values, Model& model)
{
    auto band = raster.band(b);
    auto const block_shape = band.block_shape();
    std::vector<T> buffer;
    for (int i = 0; i < lg::nr_elements(block_shape); ++i)
    {
        buffer.push_back(values());
    }
    band.write_block(offset, buffer.data());
    for (int r = 0; r < block_shape[0]; ++r)
    {
        for (int c = 0; c < block_shape[1]; ++c)
        {
            int const y = offset[0] * block_shape[0] + r;
            int const x = offset[1] * block_shape[1] + c;
            if (y < model.shape[0] && x < model.shape[1])
            {
                model.bands[b - 1][y * model.shape[1] + x] = static_cast<double>(buffer[r * block_shape[1] + c]);
            }
        }
    }
}

// Case: io <type> <HxW> <layout> <nr bands> <ops>; the ops are one letter each, a window is tried at every position
template<typename T>
struct Session
{
    std::string type;
    Model model;
    Temporary file;
    std::optional<lg::Raster> raster;
    Values<T> values;

    Session(std::string const& type_, lg::Shape const& shape, std::string const& layout_name, int nr_bands):
        type{type_}
    {
        model.shape = shape;
        model.nr_bands = nr_bands;
        model.transform = north_up;
        model.bands.assign(nr_bands, Cells(lg::nr_elements(shape), 0));
        auto dataset = lg::create_dataset("GTiff", file.name, shape, nr_bands, gdal_type(type), layout(layout_name));
        raster.emplace(dataset);
        raster->set_geo_transform(north_up);
    }

    void reopen(GDALAccess access)
    {
        raster.reset();
        raster.emplace(lg::open_dataset(file.name, access));
    }
};

template<typename T>
void run_windows(std::string const& type, lg::Shape const& shape, std::string const& lay, int nr_bands, mc::Rec& rec)
{
    // Every window of the raster, in every band, written once more and read back
    Session<T> s{type, shape, lay, nr_bands};
    auto const where0 = std::format("{} {}x{} {} {}", type, shape[0], shape[1], lay, nr_bands);
    check_raster<T>(*s.raster, s.model, type, rec, where0 + ": created");
    int n = 0;
    for (int b = 1; b <= nr_bands; ++b)
    {
        for (int y = 0; y < shape[0]; ++y)
        {
            for (int x = 0; x < shape[1]; ++x)
            {
                for (int h = 1; y + h <= shape[0]; ++h)
                {
                    for (int w = 1; x + w <= shape[1]; ++w)
                    {
                        rec.trans();
                        rec.trace();
                        window_write<T>(*s.raster, b, {y, x}, {h, w}, s.values, s.model);
                        auto const where = std::format("{}: window {},{} {}x{} band {}", where0, y, x, h, w, b);
                        if (++n % 5 == 0)
                        {
                            s.reopen(GDALAccess::GA_Update);
                        }
                        Cells const got = read_all<T>(*s.raster, b);
                        rec.expect("window:write", same(got, s.model.bands[b - 1]), where);
                        rec.state(mc::Rec::show(got));

                        // And read, into a buffer of the same type and of a type which can hold everything
                        std::vector<double> buffer(h * w + 1, -3.5);
                        auto dataset = lg::try_open_dataset("/nonexistent", GDALAccess::GA_ReadOnly);
                        rec.expect("open:missing", !dataset, "a dataset which does not exist");
                    }
                }
            }
        }
    }
    s.reopen(GDALAccess::GA_ReadOnly);
    check_raster<T>(*s.raster, s.model, type, rec, where0 + ": reopened");
}

template<typename T>
void run_read_windows(std::string const& type, lg::Shape const& shape, std::string const& lay, mc::Rec& rec)
{
    // Every window read, with the functions about bands, into the type of the raster and into doubles
    Session<T> s{type, shape, lay, 2};
    auto const where0 = std::format("{} {}x{} {}", type, shape[0], shape[1], lay);
    window_write<T>(*s.raster, 1, {0, 0}, shape, s.values, s.model);
    window_write<T>(*s.raster, 2, {0, 0}, shape, s.values, s.model);
    s.raster.reset();
    auto dataset = lg::open_dataset(s.file.name, GDALAccess::GA_ReadOnly);
    for (int b = 1; b <= 2; ++b)
    {
        auto* band = lg::raster_band(*dataset, b);
        for (int y = 0; y < shape[0]; ++y)
        {
            for (int x = 0; x < shape[1]; ++x)
            {
                for (int h = 1; y + h <= shape[0]; ++h)
                {
                    for (int w = 1; x + w <= shape[1]; ++w)
                    {
                        rec.trans(2);
                        rec.trace();
                        auto const where = std::format("{}: window {},{} {}x{} band {}", where0, y, x, h, w, b);
                        std::vector<T> own(h * w, T{0});
                        lg::read(*band, {y, x}, {h, w}, lg::data_type_v<T>, own.data());
                        std::vector<double> wide(h * w, 0);
                        lg::read(*band, {y, x}, {h, w}, GDT_Float64, wide.data());
                        Cells want;
                        for (int i = 0; i < h; ++i)
                        {
                            for (int j = 0; j < w; ++j)
                            {
                                want.push_back(s.model.bands[b - 1][(y + i) * shape[1] + x + j]);
                            }
                        }
                        rec.expect("window:read", same(as_cells(own), want), where);
                        rec.expect("window:read_doubles", same(wide, want), where);
                        rec.state(mc::Rec::show(want));
                    }
                }
            }
        }
        for (auto const& [offset, window] : std::vector<std::pair<lg::Offset, lg::Shape>>{
                 {{0, 0}, {shape[0] + 1, shape[1]}}, {{0, 0}, {shape[0], shape[1] + 1}}, {{shape[0], 0}, {1, 1}},
                 {{0, shape[1]}, {1, 1}}, {{-1, 0}, {1, 1}}, {{0, -1}, {1, 1}}})
        {
            std::vector<double> wide(lg::nr_elements(window), 0);
            rec.trans();
            rec.expect("window:outside", raises([&] { lg::read(*band, offset, window, GDT_Float64, wide.data()); }), where0);
        }
        auto const block_shape = lg::block_shape(*band);
        std::vector<T> block(lg::nr_elements(block_shape));
        int const ny = (shape[0] + block_shape[0] - 1) / block_shape[0];
        int const nx = (shape[1] + block_shape[1] - 1) / block_shape[1];
        for (auto const& offset : std::vector<lg::Offset>{{ny, 0}, {0, nx}, {-1, 0}, {0, -1}})
        {
            rec.trans();
            rec.expect("block:outside", raises([&] { lg::read_block(*band, offset, block.data()); }), where0);
        }
    }
    for (int b : {0, 3, -1})
    {
        rec.trans();
        rec.expect("band:outside", raises([&] { lg::raster_band(*dataset, b); }), where0);
    }
}

template<typename T>
void run_ops(
    std::string const& type, lg::Shape const& shape, std::string const& lay, int nr_bands, std::string const& ops,
    mc::Rec& rec)
{
    Session<T> s{type, shape, lay, nr_bands};
    auto const where = std::format("{} {}x{} {} {} {}", type, shape[0], shape[1], lay, nr_bands, ops);
    bool writable = true;
    // Cells which were never written have the no-data value, so write all first
    for (char op : "W" + ops)
    {
        if (!writable && (op == 'n' || op == 'N' || op == 'g'))
        {
            continue;  // The driver keeps those in a file next to the raster
        }
        rec.trans();
        auto const before = s.model;
        auto attempt = [&](auto&& f)
        {
            // A dataset opened for reading only cannot be changed; whether the attempt is reported is up to the driver
            try
            {
                f();
            }
            catch (std::exception const& e)
            {
                rec.expect("io:raises", !writable, where + ": " + e.what());
            }
            if (!writable)
            {
                s.model = before;
            }
        };
        switch (op)
        {
            case 'W':  // everything, all bands
                attempt(
                    [&]
                    {
                        for (int b = 1; b <= nr_bands; ++b)
                        {
                            std::vector<T> buffer;
                            for (int i = 0; i < lg::nr_elements(shape); ++i)
                            {
                                buffer.push_back(s.values());
                            }
                            s.raster->band(b).write(buffer.data());
                            s.model.bands[b - 1] = as_cells(buffer);
                        }
                    });
                break;
            case 'd':  // the upper part, from doubles
                attempt(
                    [&]
                    {
                        lg::Shape const part{std::max(1, shape[0] - 1), shape[1]};
                        std::vector<double> buffer;
                        for (int i = 0; i < lg::nr_elements(part); ++i)
                        {
                            buffer.push_back(static_cast<double>(s.values()));
                        }
                        s.raster->band(nr_bands).write(part, GDT_Float64, buffer.data());
                        std::copy(buffer.begin(), buffer.end(), s.model.bands[nr_bands - 1].begin());
                    });
                break;
            case 'w':  // a window which touches more than one block
                attempt(
                    [&]
                    {
                        window_write<T>(
                            *s.raster, nr_bands, {shape[0] / 2, shape[1] / 3},
                            {shape[0] - shape[0] / 2, shape[1] - shape[1] / 3}, s.values, s.model);
                    });
                break;
            case 'B':  // the last block
            case 'b':  // the first block
                s.reopen(writable ? GDALAccess::GA_Update : GDALAccess::GA_ReadOnly);
                attempt(
                    [&]
                    {
                        auto const block_shape = s.raster->band(1).block_shape();
                        lg::Offset offset{0, 0};
                        if (op == 'B')
                        {
                            offset = {(shape[0] - 1) / block_shape[0], (shape[1] - 1) / block_shape[1]};
                        }
                        block_write<T>(*s.raster, 1, offset, s.values, s.model);
                        s.reopen(writable ? GDALAccess::GA_Update : GDALAccess::GA_ReadOnly);
                    });
                break;
            case 'n':
            case 'N':
                attempt(
                    [&]
                    {
                        T value = op == 'n' ? T{9} : std::numeric_limits<T>::max();
                        if constexpr (std::is_floating_point_v<T>)
                        {
                            value = op == 'n' ? T{-9} : std::numeric_limits<T>::quiet_NaN();
                        }
                        else if constexpr (sizeof(T) == 8)
                        {
                            value = op == 'n' ? T{9} : static_cast<T>(T{1} << 50) + 1;
                        }
                        for (int b = 1; b <= nr_bands; ++b)
                        {
                            s.raster->band(b).template set_no_data_value<T>(value);
                        }
                        s.model.no_data = static_cast<double>(value);
                    });
                break;
            case 'g':
                attempt(
                    [&]
                    {
                        lg::GeoTransform const transform{-5.5, 0.25, 0.0, 7.75, 0.0, -0.25};
                        s.raster->set_geo_transform(transform);
                        s.model.transform = transform;
                    });
                break;
            case 'o':
                s.reopen(GDALAccess::GA_Update);
                writable = true;
                break;
            case 'r':
                s.reopen(GDALAccess::GA_ReadOnly);
                writable = false;
                break;
            default:
                break;
        }
        if (writable)
        {
            check_raster<T>(*s.raster, s.model, type, rec, where, false);
        }
    }
    s.reopen(GDALAccess::GA_ReadOnly);
    check_raster<T>(*s.raster, s.model, type, rec, where + " reopened");

    // A copy, of everything
    {
        Temporary copy_file;
        {
            auto original = lg::open_dataset(s.file.name, GDALAccess::GA_ReadOnly);
            auto copy = lg::create_copy(copy_file.name, *original);
            lg::Raster raster{copy};
            check_raster<T>(raster, s.model, type, rec, where + " copy", false);
        }
        lg::Raster raster{lg::open_dataset(copy_file.name, GDALAccess::GA_ReadOnly)};
        check_raster<T>(raster, s.model, type, rec, where + " copy reopened");
        auto differences = lg::compare_rasters(s.file.name, copy_file.name);
        rec.expect("compare:copy", differences.empty(), where + ": " + (differences.empty() ? "" : differences.front()));
    }
    check_raster<T>(*s.raster, s.model, type, rec, where + " after copy");
    rec.trace();
}

// ---------------------------------------------------------------- datasets

void run_datasets(mc::Rec& rec, std::string const& driver_name, std::string const& extension, std::string const& type)
{
    auto const name = rec.scratch + "/d" + extension;
    auto const where = driver_name + " " + type;
    std::filesystem::remove(name);
    std::filesystem::remove(name + ".aux.xml");
    auto* driver = lg::driver(driver_name);
    for (std::string const file : {name, rec.scratch + "/nodir/x" + extension})
    {
        rec.trans(3);
        rec.expect("dataset:missing", raises([&] { lg::open_dataset(file, GDALAccess::GA_ReadOnly); }), where);
        rec.expect("dataset:missing_update", raises([&] { lg::open_dataset(file, GDALAccess::GA_Update); }), where);
        rec.expect("dataset:missing_try", !lg::try_open_dataset(file, GDALAccess::GA_ReadOnly), where);
        rec.expect("dataset:missing_type", raises([&] { lg::data_type(file); }), where);
        rec.expect("dataset:delete_missing", raises([&] { lg::delete_dataset(*driver, file); }), where);
    }
    rec.expect(
        "dataset:create_fails",
        raises([&] { lg::create_dataset(driver_name, rec.scratch + "/nodir/x" + extension, {2, 3}, 1, gdal_type(type)); }), where);
    rec.expect("dataset:create_no_driver", raises([&] { lg::create_dataset("nope", name, {2, 3}, 1, gdal_type(type)); }), where);
    for (int nr_bands : {1, 2, 3})
    {
        for (int overload : {0, 1})
        {
            rec.trace();
            rec.trans(4);
            lg::Shape const shape{2 + nr_bands, 7 - nr_bands};
            {
                auto dataset = overload == 0
                                   ? lg::create_dataset(driver_name, name, shape, nr_bands, gdal_type(type))
                                   : lg::create_dataset(*driver, name, shape, nr_bands, gdal_type(type));
                lg::set_geo_transform(*dataset, north_up);
            }
            rec.expect("dataset:exists", std::filesystem::exists(name), where);
            for (auto mode : {GDALAccess::GA_ReadOnly, GDALAccess::GA_Update})
            {
                auto dataset = lg::open_dataset(name, mode);
                rec.expect_eq("dataset:bands", lg::nr_raster_bands(*dataset), nr_bands, where);
                rec.expect("dataset:shape", lg::shape(*dataset) == shape, where);
                rec.expect("dataset:transform", lg::geo_transform(*dataset) == north_up, where);
                rec.expect_eq("dataset:type", static_cast<int>(lg::data_type(*dataset)), static_cast<int>(gdal_type(type)), where);
                rec.expect("dataset:access", dataset->GetAccess() == mode, where);
                rec.expect("dataset:driver", dataset->GetDriver() == driver, where);
                for (int b = 1; b <= nr_bands; ++b)
                {
                    rec.expect_eq("dataset:band", lg::raster_band(*dataset, b)->GetBand(), b, where);
                }
                rec.expect_eq("dataset:first_band", lg::raster_band(*dataset)->GetBand(), 1, where);
                rec.expect("dataset:no_band", raises([&] { lg::raster_band(*dataset, nr_bands + 1); }), where);
                rec.expect("dataset:band_zero", raises([&] { lg::raster_band(*dataset, 0); }), where);
                rec.expect("dataset:band_negative", raises([&] { lg::raster_band(*dataset, -1); }), where);
            }
            rec.expect_eq("dataset:type_by_name", static_cast<int>(lg::data_type(name)), static_cast<int>(gdal_type(type)), where);
            lg::delete_dataset(*driver, name);
            rec.expect("dataset:deleted", !std::filesystem::exists(name) && !lg::try_open_dataset(name, GDALAccess::GA_ReadOnly), where);
            rec.state(std::format("{} {} {}", where, nr_bands, overload));
        }
    }
}

void run_options(mc::Rec& rec)
{
    // Options reach the driver: every set of them, in layout, compression and interleaving
    struct Option { std::string name; std::vector<std::string> values; };
    std::vector<Option> const options{
        {"TILED", {"", "YES", "NO"}}, {"BLOCKXSIZE", {"", "16", "48"}}, {"BLOCKYSIZE", {"", "16", "32", "3"}},
        {"COMPRESS", {"", "LZW", "DEFLATE", "NONE"}}, {"INTERLEAVE", {"", "BAND", "PIXEL"}}};
    std::vector<std::size_t> at(options.size(), 0);
    while (true)
    {
        std::map<std::string, std::string> chosen;
        for (std::size_t i = 0; i < options.size(); ++i)
        {
            if (!options[i].values[at[i]].empty())
            {
                chosen[options[i].name] = options[i].values[at[i]];
            }
        }
        bool const tiled = chosen.contains("TILED") && chosen["TILED"] == "YES";
        bool const valid = !(tiled && chosen.contains("BLOCKYSIZE") && chosen["BLOCKYSIZE"] == "3");
        std::string where;
        for (auto const& [k, v] : chosen)
        {
            where += k + "=" + v + " ";
        }
        rec.trans();
        rec.trace();
        if (valid)
        {
            lg::Shape const shape{37, 41};
            for (bool copy : {false, true})
            {
                Temporary file, source;
                {
                    if (copy)
                    {
                        auto original = lg::create_dataset("GTiff", source.name, shape, 2, GDT_Int32);
                        lg::set_geo_transform(*original, north_up);
                        lg::create_copy(file.name, *original, chosen);
                    }
                    else
                    {
                        lg::create_dataset("GTiff", file.name, shape, 2, GDT_Int32, chosen);
                    }
                }
                auto dataset = lg::open_dataset(file.name, GDALAccess::GA_ReadOnly);
                auto const block = lg::block_shape(*lg::raster_band(*dataset, 2));
                if (tiled)
                {
                    int const y = chosen.contains("BLOCKYSIZE") ? std::stoi(chosen["BLOCKYSIZE"]) : 256;
                    int const x = chosen.contains("BLOCKXSIZE") ? std::stoi(chosen["BLOCKXSIZE"]) : 256;
                    rec.expect("options:tiles", block == lg::Shape{y, x}, where);
                }
                else
                {
                    rec.expect_eq("options:strip_width", block[1], shape[1], where);
                    if (chosen.contains("BLOCKYSIZE"))
                    {
                        rec.expect_eq("options:strip_height", block[0], std::stoi(chosen["BLOCKYSIZE"]), where);
                    }
                }
                auto const* compression = dataset->GetMetadataItem("COMPRESSION", "IMAGE_STRUCTURE");
                std::string const want = chosen.contains("COMPRESS") && chosen["COMPRESS"] != "NONE" ? chosen["COMPRESS"] : "";
                rec.expect_eq("options:compression", std::string{compression ? compression : ""}, want, where);
                if (chosen.contains("INTERLEAVE"))
                {
                    auto const* interleave = dataset->GetMetadataItem("INTERLEAVE", "IMAGE_STRUCTURE");
                    rec.expect_eq("options:interleave", std::string{interleave ? interleave : ""}, chosen["INTERLEAVE"], where);
                }
                rec.state(where);
            }
        }
        std::size_t i = 0;
        while (i < options.size() && ++at[i] == options[i].values.size())
        {
            at[i++] = 0;
        }
        if (i == options.size())
        {
            break;
        }
    }
}

void run_transforms(mc::Rec& rec)
{
    std::vector<double> const corner{0.0, -123.456, 1e6}, size{1.0, 0.1, 30.0, 2.5}, rotation{0.0, 0.5, -1e-9};
    for (double x : corner)
    for (double y : corner)
    for (double w : size)
    for (double h : size)
    for (double sign : {-1.0, 1.0})
    for (double r1 : rotation)
    for (double r2 : rotation)
    {
        rec.trans();
        rec.trace();
        lg::GeoTransform const transform{x, w, r1, y, r2, sign * h};
        auto dataset = lg::create_dataset("MEM", "", {2, 3}, 1, GDT_Int32);
        lg::set_geo_transform(*dataset, transform);
        lg::GeoTransform stored{};
        dataset->GetGeoTransform(stored.data());
        auto const where = mc::Rec::show(transform);
        rec.expect("transform:set", stored == transform, where);
        bool const supported = r1 == 0.0 && r2 == 0.0 && sign < 0 && w == h;
        lg::GeoTransform got{};
        bool const raised = raises([&] { got = lg::geo_transform(*dataset); });
        rec.expect_eq("transform:supported", !raised, supported, where);
        rec.expect("transform:get", raised || got == transform, where);
        lg::Raster raster{dataset};
        rec.expect_eq("transform:raster", !raises([&] { raster.geo_transform(); }), supported, where);
        rec.state(where);
    }
}

// ---------------------------------------------------------------- comparison

template<typename T>
void make(std::string const& name, lg::Shape const& shape, std::string const& lay, Model const& model, std::string const& type)
{
    lg::Raster raster{lg::create_dataset("GTiff", name, shape, model.nr_bands, gdal_type(type), layout(lay))};
    raster.set_geo_transform(model.transform);
    for (int b = 1; b <= model.nr_bands; ++b)
    {
        if (model.no_data)
        {
            raster.band(b).template set_no_data_value<T>(static_cast<T>(*model.no_data));
        }
        std::vector<T> buffer;
        for (double v : model.bands[b - 1])
        {
            buffer.push_back(static_cast<T>(v));
        }
        raster.band(b).write(buffer.data());
    }
}

template<typename T>
void run_compare_cells(
    std::string const& type, lg::Shape const& shape, std::string const& lay1, std::string const& lay2, int nr_bands,
    mc::Rec& rec)
{
    // Two equal rasters, and then each cell made different in turn
    auto const where = std::format("{} {}x{} {} {} {} bands", type, shape[0], shape[1], lay1, lay2, nr_bands);
    Values<T> values;
    Model model{.shape = shape, .nr_bands = nr_bands, .no_data = {}, .transform = north_up};
    for (int b = 0; b < nr_bands; ++b)
    {
        Cells cells;
        for (int i = 0; i < lg::nr_elements(shape); ++i)
        {
            cells.push_back(static_cast<double>(values()));
        }
        model.bands.push_back(cells);
    }
    Temporary file1, file2;
    make<T>(file1.name, shape, lay1, model, type);
    make<T>(file2.name, shape, lay2, model, type);
    auto equal = [&](bool want, std::string const& what)
    {
        rec.trans(2);
        for (bool swap : {false, true})
        {
            auto const differences = swap ? lg::compare_rasters(file2.name, file1.name) : lg::compare_rasters(file1.name, file2.name);
            rec.outcome(differences.empty() ? "equal" : differences.front());
            rec.expect(
                want ? "compare:equal" : "compare:cells", differences.empty() == want,
                std::format("{}: {}: {}", where, what, differences.empty() ? "no difference" : differences.front()));
            rec.expect(
                "compare:what", want || (differences.size() == 1 && differences.front() == "different cell values"), where);
        }
    };
    equal(true, "the same cells");
    for (int b = 1; b <= nr_bands; ++b)
    {
        for (int i = 0; i < lg::nr_elements(shape); ++i)
        {
            rec.trace();
            auto set = [&](double v)
            {
                lg::Raster raster{lg::open_dataset(file2.name, GDALAccess::GA_Update)};
                T value = static_cast<T>(v);
                raster.band(b).write({i / shape[1], i % shape[1]}, {1, 1}, lg::data_type_v<T>, &value);
            };
            double const original = model.bands[b - 1][i];
            set(original == 1 ? 2 : 1);
            rec.state(std::format("{} {} {}", where, b, i));
            equal(false, std::format("band {}, another value in cell {},{}", b, i / shape[1], i % shape[1]));
            set(original);
        }
    }
    equal(true, "the same cells again");
}

template<typename T>
void run_compare_settings(std::string const& type, mc::Rec& rec)
{
    // Every pair of rasters from a set which differ in one or more respects
    lg::Shape const shape{3, 4};
    struct Variant
    {
        std::string name;
        lg::Shape shape;
        int nr_bands;
        std::optional<double> no_data;
        lg::GeoTransform transform;
        int cell;          // which cell is different, -1 none
        double value;      // its value
        std::string type;
    };
    double const nan = std::numeric_limits<double>::quiet_NaN();
    bool const floating = type[0] == 'f';
    std::string const other_type = type == "i32" ? "f32" : "i32";
    std::vector<Variant> variants;
    std::vector<std::optional<double>> no_datas{{}, 5.0, 6.0};
    if (floating)
    {
        no_datas.push_back(nan);
    }
    for (auto const& s : {lg::Shape{3, 4}, lg::Shape{4, 3}, lg::Shape{3, 5}})
    {
        for (auto const& n : no_datas)
        {
            for (int g = 0; g < 4; ++g)
            {
                auto transform = north_up;
                if (g == 1)
                {
                    transform[0] += 0.5;
                }
                if (g == 2)
                {
                    transform[3] -= 0.5;
                }
                if (g == 3)
                {
                    transform[1] = 3;
                    transform[5] = -3;
                }
                for (int bands : {1, 2})
                {
                    if ((s != shape) + (g != 0) + (bands != 1) > 1)
                    {
                        continue;
                    }
                    variants.push_back({"", s, bands, n, transform, -1, 0, type});
                    if (s == shape && g == 0)
                    {
                        variants.push_back({"", s, bands, n, transform, 5, 5.0, type});
                        if (floating && n && std::isnan(*n))
                        {
                            variants.push_back({"", s, bands, n, transform, 5, nan, type});
                        }
                        variants.push_back({"", s, bands, n, transform, 12 * bands - 1, 7.0, type});
                    }
                }
            }
        }
    }
    variants.push_back({"", shape, 1, {}, north_up, -1, 0, other_type});
    std::vector<Temporary> files(variants.size());
    for (std::size_t i = 0; i < variants.size(); ++i)
    {
        auto& v = variants[i];
        Model model{.shape = v.shape, .nr_bands = v.nr_bands, .no_data = v.no_data, .transform = v.transform};
        for (int b = 0; b < v.nr_bands; ++b)
        {
            Cells cells;
            for (int k = 0; k < lg::nr_elements(v.shape); ++k)
            {
                cells.push_back(b * 12 + k == v.cell ? v.value : 1 + (k % 3));
            }
            model.bands.push_back(cells);
        }
        with_type(v.type, [&]<typename U>() { make<U>(files[i].name, v.shape, "s1", model, v.type); });
        v.name = std::format(
            "{} {}x{} {} bands, no-data {}, x {} y {} size {}, cell {} {}", v.type, v.shape[0], v.shape[1], v.nr_bands,
            v.no_data ? std::to_string(*v.no_data) : "-", v.transform[0], v.transform[3], v.transform[1], v.cell, v.value);
    }
    for (std::size_t i = 0; i < variants.size(); ++i)
    {
        for (std::size_t j = 0; j < variants.size(); ++j)
        {
            rec.trans();
            rec.trace();
            auto const& a = variants[i];
            auto const& b = variants[j];
            auto const same_value = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); };
            bool const same_no_data = a.no_data.has_value() == b.no_data.has_value() &&
                                      (!a.no_data || same_value(*a.no_data, *b.no_data));
            bool const same_cells = a.cell == b.cell && (a.cell == -1 || same_value(a.value, b.value));
            bool const want = a.type == b.type && a.shape == b.shape && a.nr_bands == b.nr_bands &&
                              a.transform == b.transform && same_no_data && same_cells;
            auto const differences = lg::compare_rasters(files[i].name, files[j].name);
            rec.state(a.name + "/" + b.name);
            std::string text;
            for (auto const& d : differences)
            {
                text += d + "; ";
            }
            rec.outcome(text);
            rec.expect_eq("compare:settings", differences.empty(), want, a.name + " / " + b.name + ": " + text);
            auto mentions = [&](std::string const& key, bool different, std::string const& what)
            { rec.expect("compare:tells_" + key, (text.find(what) != std::string::npos) == different, a.name + " / " + b.name + ": " + text); };
            mentions("shape", a.shape != b.shape, "different shapes");
            mentions("type", a.type != b.type, "different data types");
            mentions("bands", a.nr_bands != b.nr_bands, "different number of bands");
            mentions("transform", a.transform != b.transform, "different geo-transformations");
        }
    }
    Temporary missing;
    for (auto const& [x, y] : std::vector<std::pair<std::string, std::string>>{
             {missing.name, files[0].name}, {files[0].name, missing.name}, {missing.name, missing.name}})
    {
        rec.trans();
        auto const differences = lg::compare_rasters(x, y);
        rec.expect("compare:missing", !differences.empty(), "a raster which does not exist");
    }
}

// ---------------------------------------------------------------- cases

void enumerate(std::string const& tier, mc::Emit const& emit)
{
    bool const thorough = tier == "thorough";
    int const most = thorough ? 24 : 10;
    for (int h = 1; h <= most; ++h)
    {
        for (int w = 1; w <= most; ++w)
        {
            emit(std::format("blocks {} {}", h, w));
        }
    }
    emit("types");
    emit("drivers");
    emit("options");
    emit("transforms");
    for (auto const& [driver, extension] : std::vector<std::pair<std::string, std::string>>{{"GTiff", ".tif"}, {"HFA", ".img"}})
    {
        for (auto const& t : types)
        {
            if (driver == "HFA" && (t == "i64" || t == "u64" || t == "i8"))
            {
                continue;
            }
            emit(std::format("datasets {} {} {}", driver, extension, t));
        }
    }
    for (auto const& t : types)
    {
        emit("settings " + t);
    }
    // All windows of small rasters
    for (auto const& t : types)
    {
        for (std::string const shape : {"1x1", "1x4", "3x1", "2x3", "3x4"})
        {
            for (std::string const lay : {"s1", "s2", "t16", "default"})
            {
                emit(std::format("windows {} {} {} {}", t, shape, lay, t == "u8" || t == "f64" || thorough ? 2 : 1));
                emit(std::format("read {} {} {}", t, shape, lay));
            }
        }
    }
    emit("read i16 5x7 s2");
    emit("read f32 7x5 s3");
    emit("windows i16 4x5 s3 1");
    if (thorough)
    {
        for (auto const& t : types)
        {
            emit(std::format("read {} 9x11 s4", t));
            emit(std::format("windows {} 5x6 s2 1", t));
        }
    }
    // Sequences of operations
    std::string const ops{"WdwbBnNgor"};
    std::vector<std::string> sequences{""};
    for (int depth = 1; depth <= (thorough ? 5 : 4); ++depth)
    {
        std::vector<std::string> next;
        for (auto const& s : sequences)
        {
            if (static_cast<int>(s.size()) == depth - 1)
            {
                for (char op : ops)
                {
                    next.push_back(s + op);
                }
            }
        }
        sequences.insert(sequences.end(), next.begin(), next.end());
    }
    for (auto const& s : sequences)
    {
        for (auto const& [type, shape, lay, bands, depth] :
             std::vector<std::tuple<std::string, std::string, std::string, int, int>>{
                 {"i32", "3x4", "s2", 2, 4}, {"f32", "20x18", "t16", 1, 3}, {"u8", "18x35", "t3216", 2, 3}, {"i64", "4x3", "s1", 1, 3},
                 {"f64", "5x2", "s3", 3, 3}, {"i8", "2x2", "default", 1, 3}, {"u64", "34x17", "t1632", 1, 3},
                 {"u16", "1x5", "s1", 1, 3}, {"i16", "5x1", "s2", 1, 3}, {"u32", "3x3", "s3", 2, 3}})
        {
            if (static_cast<int>(s.size()) <= depth + (thorough ? 1 : 0))
            {
                emit(std::format("ops {} {} {} {} {}", type, shape, lay, bands, s.empty() ? "-" : s));
            }
        }
    }
    // Comparison, cell by cell
    for (auto const& t : types)
    {
        for (std::string const shape : {"1x1", "1x3", "3x1", "2x3", "3x2", "4x5", "5x3"})
        {
            for (std::string const l1 : {"s1", "s2", "s3", "t16"})
            {
                for (std::string const l2 : {"s1", "s2", "s3", "t16"})
                {
                    if (thorough || l1 == l2 || t == "i32" || t == "f32")
                    {
                        emit(std::format("cells {} {} {} {} {}", t, shape, l1, l2, shape == "2x3" ? 2 : 1));
                    }
                }
            }
        }
    }
    for (std::string const t : {"u8", "f64"})
    {
        for (auto const& [shape, l1, l2] : std::vector<std::tuple<std::string, std::string, std::string>>{
                 {"17x18", "t16", "t16"}, {"18x17", "t16", "s1"}, {"20x20", "t1632", "t3216"}, {"17x33", "t3216", "t3216"},
                 {"33x17", "t1632", "t16"}, {"16x32", "t16", "t16"}})
        {
            emit(std::format("cells {} {} {} {} 1", t, shape, l1, l2));
        }
    }
}

void run(std::string const& c, mc::Rec& rec)
{
    static std::optional<lg::QuietErrorHandler> quiet;
    if (!getenv("VERIF_DEBUG") && !quiet) quiet.emplace();
    lg::register_gdal_drivers();
    auto const w = mc::words(c, ' ');
    ++rec.evaluations;
    try
    {
        if (w[0] == "blocks")
        {
            run_blocks(std::stoi(w[1]), std::stoi(w[2]), rec);
        }
        else if (w[0] == "types")
        {
            run_types(rec);
        }
        else if (w[0] == "drivers")
        {
            run_driver_names(rec);
        }
        else if (w[0] == "options")
        {
            run_options(rec);
        }
        else if (w[0] == "transforms")
        {
            run_transforms(rec);
        }
        else if (w[0] == "datasets")
        {
            run_datasets(rec, w[1], w[2], w[3]);
        }
        else if (w[0] == "settings")
        {
            with_type(w[1], [&]<typename T>() { run_compare_settings<T>(w[1], rec); });
        }
        else if (w[0] == "windows")
        {
            with_type(w[1], [&]<typename T>() { run_windows<T>(w[1], parse_hw(w[2]), w[3], std::stoi(w[4]), rec); });
        }
        else if (w[0] == "read")
        {
            with_type(w[1], [&]<typename T>() { run_read_windows<T>(w[1], parse_hw(w[2]), w[3], rec); });
        }
        else if (w[0] == "ops")
        {
            with_type(
                w[1], [&]<typename T>()
                { run_ops<T>(w[1], parse_hw(w[2]), w[3], std::stoi(w[4]), w[5] == "-" ? "" : w[5], rec); });
        }
        else if (w[0] == "cells")
        {
            with_type(
                w[1], [&]<typename T>()
                { run_compare_cells<T>(w[1], parse_hw(w[2]), w[3], w[4], std::stoi(w[5]), rec); });
        }
    }
    catch (std::exception const& e)
    {
        rec.violation(w[0] + ":raised", std::string{"unexpected exception: "} + e.what());
    }
}

auto crash_key(std::string const& c) -> std::string
{
    return mc::words(c, ' ')[0] + ":crash";
}

MC_MAIN
