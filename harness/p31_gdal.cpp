// P31: models read from, and write to, GDAL rasters. Tasks are scheduled by us; all GDAL calls are real.
#define MC_BATCH 8
#define MC_TIMEOUT 300
#include "p31_gdal.hpp"
#include <dlfcn.h>
#include <set>

namespace {

    struct Monitor
    {
            bool active{false};
            std::string problem;
            std::map<void*, std::pair<std::string, bool>> open;
            std::set<void*> busy;  // GDAL's objects can only be used by one task at a time
            int failing_read{0};  // Which one, counted from 1, is made to fail
            int failing_write{0};
            int failing_open{0};
            int nr_reads{0};
            int nr_writes{0};
            int nr_opens{0};

            void wrong(std::string const& s)
            {
                if (problem.empty())
                {
                    problem = s;
                }
            }
    };

    Monitor monitor;
    int depth = 0;  // Calls by GDAL itself are not of interest

    struct Inside
    {
            Inside() { ++depth; }
            ~Inside() { --depth; }
    };

    void point()
    {
        if (monitor.active && depth == 0)
        {
            hpx::mock::rt().point();
        }
    }

    template<typename F>
    auto real(char const* name) -> F
    {
        return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    }

    template<typename F>
    auto opened(char const* path, bool const writing, F const& f) -> GDALDatasetH
    {
        point();
        bool const ours = monitor.active && depth == 0;
        if (ours && ++monitor.nr_opens == monitor.failing_open)
        {
            return nullptr;
        }
        if (ours)
        {
            for (auto const& [ds, what] : monitor.open)
            {
                if (what.first == path && (writing || what.second))
                {
                    monitor.wrong(std::format("opened for {} while open for {}", writing ? "writing" : "reading", what.second ? "writing" : "reading"));
                }
            }
        }
        GDALDatasetH result{};
        {
            Inside inside;
            result = f();
        }
        if (ours && result)
        {
            monitor.open[result] = {path, writing};
        }
        point();
        return result;
    }

}  // Anonymous namespace

extern "C" {

    auto GDALOpen(char const* path, GDALAccess access) -> GDALDatasetH
    {
        static auto const f = real<decltype(&GDALOpen)>("GDALOpen");
        return opened(path, access == GA_Update, [&] { return f(path, access); });
    }

    auto GDALOpenShared(char const* path, GDALAccess access) -> GDALDatasetH
    {
        static auto const f = real<decltype(&GDALOpenShared)>("GDALOpenShared");
        return opened(path, access == GA_Update, [&] { return f(path, access); });
    }

    auto GDALOpenEx(char const* path, unsigned flags, char const* const* a, char const* const* b, char const* const* c) -> GDALDatasetH
    {
        static auto const f = real<decltype(&GDALOpenEx)>("GDALOpenEx");
        return opened(path, (flags & GDAL_OF_UPDATE) != 0, [&] { return f(path, flags, a, b, c); });
    }

    // Kind of errors is set by GDAL's headers, depending on version
    auto GDALClose(GDALDatasetH ds) -> decltype(GDALClose(nullptr))
    {
        static auto const f = real<decltype(&GDALClose)>("GDALClose");
        point();
        monitor.open.erase(ds);
        Inside inside;
        return f(ds);
    }

    auto mc_raster_io(
        GDALRasterBand* band, GDALRWFlag flag, int x, int y, int nx, int ny, void* data, int bx, int by, GDALDataType type, GSpacing s1, GSpacing s2, GDALRasterIOExtraArg* extra)
        -> CPLErr asm("_ZN14GDALRasterBand8RasterIOE10GDALRWFlagiiiiPvii12GDALDataTypexxP20GDALRasterIOExtraArg");

    auto mc_raster_io(
        GDALRasterBand* band, GDALRWFlag flag, int x, int y, int nx, int ny, void* data, int bx, int by, GDALDataType type, GSpacing s1, GSpacing s2, GDALRasterIOExtraArg* extra)
        -> CPLErr
    {
        static auto const f = real<decltype(&mc_raster_io)>("_ZN14GDALRasterBand8RasterIOE10GDALRWFlagiiiiPvii12GDALDataTypexxP20GDALRasterIOExtraArg");
        struct Busy
        {
                GDALRasterBand* band;
                bool ours{monitor.active && depth == 0};

                Busy(GDALRasterBand* band): band{band}
                {
                    if (ours && !monitor.busy.insert(band).second)
                    {
                        monitor.wrong("used by two tasks at the same time");
                    }
                }

                ~Busy()
                {
                    if (ours)
                    {
                        monitor.busy.erase(band);
                    }
                }
        } const busy{band};
        point();
        if (monitor.active && depth == 0)
        {
            if (flag == GF_Read ? ++monitor.nr_reads == monitor.failing_read : ++monitor.nr_writes == monitor.failing_write)
            {
                return CE_Failure;
            }
        }
        CPLErr result{};
        {
            Inside inside;
            result = f(band, flag, x, y, nx, ny, data, bx, by, type, s1, s2, extra);
        }
        point();
        return result;
    }

    auto mc_create(GDALDriver* driver, char const* name, int nx, int ny, int nr_bands, GDALDataType type, char const* const* options)
        -> GDALDataset* asm("_ZN10GDALDriver6CreateEPKciii12GDALDataTypePKS1_");

    auto mc_create(GDALDriver* driver, char const* name, int nx, int ny, int nr_bands, GDALDataType type, char const* const* options) -> GDALDataset*
    {
        static auto const f = real<decltype(&mc_create)>("_ZN10GDALDriver6CreateEPKciii12GDALDataTypePKS1_");
        return static_cast<GDALDataset*>(opened(name, true, [&] { return static_cast<GDALDatasetH>(f(driver, name, nx, ny, nr_bands, type, options)); }));
    }
}


namespace p31 {

#define P31_EXTERN(E) extern template void values<E>(mc::Rec&, std::string const&, Plan const&, Layout const&, std::string const&);
    P31_EXTERN(std::uint8_t)
    P31_EXTERN(std::int32_t)
    P31_EXTERN(std::uint32_t)
    P31_EXTERN(std::int64_t)
    P31_EXTERN(std::uint64_t)
    P31_EXTERN(float)
    P31_EXTERN(double)

}  // namespace p31

using namespace p31;

namespace {

    using E = std::int32_t;
    using Pshape = lue::Shape<lue::Count, 2>;

    // The same array, but with partitions that become ready in any order. Partition failing, counted from 1,
    // never gets a value.
    auto later(Array<E> const& array, int const failing = 0) -> Array<E>
    {
        using Partitions = std::remove_cvref_t<decltype(array.partitions())>;
        Partitions partitions{array.partitions().shape()};
        for (lue::Index i = 0; i < partitions.nr_elements(); ++i)
        {
            partitions[i] = hpx::async(
                [p = array.partitions()[i], i, failing]
                {
                    hpx::mock::rt().point();
                    if (i + 1 == failing)
                    {
                        throw std::runtime_error("partition fails");
                    }
                    return p;
                });
        }
        return Array<E>{array.shape(), array.localities_ptr(), std::move(partitions)};
    }

    // One letter per thing a model does. r: read a, R: read a part of a, w: write an array to o, v: write an array
    // to p, c: copy a to q, W: write another array to o, when the previous write is done, s: read what is in o,
    // when the write is done
    void program(mc::Rec& rec, std::string const& key, Plan const& plan, std::string const& steps, Layout const& l, std::string const& scratch)
    {
        std::map<std::string, std::string> paths;
        for (char const* name : {"a", "o", "p", "q"})
        {
            paths[name] = scratch + "/" + name + ".tif";
        }
        std::optional<E> const no_data{7};
        auto const a = cells<E>(l.rows, l.cols, no_data, 0);
        auto const g1 = cells<E>(l.rows, l.cols, std::nullopt, 1);
        auto const g2 = cells<E>(l.rows, l.cols, std::nullopt, 2);
        make<E>(paths["a"], {a, no_data, std::nullopt, 0, {}});
        Raster<E> const w{g1, nd<E>(), default_transform(g1), 0, {}};
        Raster<E> const w2{g2, nd<E>(), default_transform(g2), 0, {}};
        Raster<E> const copied{as_read(a, no_data), nd<E>(), default_transform(a), 0, {}};
        std::string want;
        {
            std::map<std::string, std::string> files;
            Grid<E> o = g1;
            for (char const s : steps)
            {
                switch (s)
                {
                    case 'r':
                    case 'R':
                        want += "read " + as_read(a, no_data).str() + " ";
                        break;
                    case 'w':
                        files["o"] = w.str();
                        break;
                    case 'W':
                        files["o"] = w2.str();
                        o = g2;
                        break;
                    case 'v':
                        files["p"] = w2.str();
                        break;
                    case 'c':
                        files["q"] = copied.str();
                        break;
                    case 's':
                        want += "read " + o.str() + " ";
                        break;
                }
            }
            for (auto const& [name, s] : files)
            {
                want += name + ": " + s + " ";
            }
        }
        fw::explore(
            rec,
            key,
            plan,
            [&]
            {
                for (char const* name : {"o", "p", "q"})
                {
                    std::filesystem::remove(paths[name]);
                }
                monitor = Monitor{};
                monitor.active = true;
                struct Stop
                {
                        ~Stop() { monitor.active = false; }
                } stop;
                std::map<std::string, hpx::future<void>> writes;
                std::vector<Array<E>> reads;
                for (char const s : steps)
                {
                    switch (s)
                    {
                        case 'r':
                            reads.push_back(lue::from_gdal<E>(paths["a"], Pshape{l.prows, l.pcols}));
                            break;
                        case 'R':
                            reads.push_back(lue::from_gdal<E>(
                                paths["a"], lue::Hyperslab<2>{{l.rows / 2, l.cols / 2}, {l.rows, l.cols}}, Pshape{l.prows, l.pcols}));
                            break;
                        case 'w':
                            writes["o"] = lue::to_gdal<E>(later(to_lue(g1, l.prows, l.pcols)), paths["o"], "", {});
                            break;
                        case 'W':
                            writes["o"].get();
                            writes["o"] = lue::to_gdal<E>(later(to_lue(g2, l.prows, l.pcols)), paths["o"], "", {});
                            break;
                        case 'v':
                            writes["p"] = lue::to_gdal<E>(later(to_lue(g2, l.prows, l.pcols)), paths["p"], "", {});
                            break;
                        case 'c':
                            writes["q"] = lue::to_gdal<E>(lue::from_gdal<E>(paths["a"], Pshape{l.prows, l.pcols}), paths["q"], "", {});
                            break;
                        case 's':
                            writes["o"].wait();
                            reads.push_back(lue::from_gdal<E>(paths["o"], Pshape{l.prows, l.pcols}));
                            break;
                    }
                }
                std::string got;
                std::string problem;
                // What is written is there once the future is ready
                std::string files;
                for (auto& [name, f] : writes)
                {
                    f.get();
                    for (auto const& [ds, what] : monitor.open)
                    {
                        if (what.first == paths[name] && what.second)
                        {
                            problem = "raster is still open for writing when all is written";
                        }
                    }
                    Inside inside;
                    files += name + ": " + look<E>(paths[name]).str() + " ";
                }
                for (auto const& array : reads)
                {
                    got += "read " + from_lue(array, &problem).str() + " ";
                }
                reads.clear();
                hpx::mock::rt().quiesce();
                monitor.active = false;
                got += files;
                if (problem.empty())
                {
                    problem = monitor.problem;
                }
                if (problem.empty() && !monitor.open.empty())
                {
                    problem = "rasters are still open afterwards";
                }
                return got + problem;
            },
            want,
            steps + " with " + l.str());
        monitor.active = false;
    }

    // Something fails: which read, write, or open
    void failure(mc::Rec& rec, std::string const& key, Plan const& plan, std::string const& kind, int const k, Layout const& l, std::string const& scratch)
    {
        auto const path = scratch + "/f.tif";
        auto const out = scratch + "/g.tif";
        auto const g = cells<E>(l.rows, l.cols, std::nullopt, 1);
        make<E>(path, {g, nd<E>(), std::nullopt, 0, {}});
        bool const reading = kind == "read" || kind == "reopen";
        // All partitions that can be read, are right. At least one says it failed, or the whole does.
        std::string const want = "reported";
        fw::explore(
            rec,
            key,
            plan,
            [&]
            {
                std::filesystem::remove(out);
                monitor = Monitor{};
                monitor.active = true;
                struct Stop
                {
                        ~Stop() { monitor.active = false; }
                } stop;
                if (kind == "read")
                {
                    monitor.failing_read = k;
                }
                else if (kind == "write")
                {
                    monitor.failing_write = k;
                }
                else if (kind == "open" || kind == "reopen")
                {
                    monitor.failing_open = k;
                }
                std::string result{"not reported"};
                try
                {
                    if (reading)
                    {
                        auto const array = lue::from_gdal<E>(path, Pshape{l.prows, l.pcols});
                        for (lue::Index i = 0; i < array.partitions().nr_elements(); ++i)
                        {
                            auto const& p = array.partitions()[i];
                            try
                            {
                                p.wait();
                                auto const offset = p.offset(hpx::launch::sync);
                                auto const data = p.data(hpx::launch::sync);
                                for (lue::Index r = 0; r < data.shape()[0]; ++r)
                                {
                                    for (lue::Index c = 0; c < data.shape()[1]; ++c)
                                    {
                                        if (!fw::same(data(r, c), g(offset[0] + r, offset[1] + c)))
                                        {
                                            return std::string{"wrong values"};
                                        }
                                    }
                                }
                            }
                            catch (std::runtime_error const&)
                            {
                                result = "reported";
                            }
                        }
                    }
                    else
                    {
                        auto const array = later(to_lue(g, l.prows, l.pcols), kind == "partition" ? k : 0);
                        auto f = lue::to_gdal<E>(array, out, "", {});
                        f.get();
                    }
                }
                catch (std::runtime_error const&)
                {
                    result = "reported";
                }
                hpx::mock::rt().quiesce();
                monitor.active = false;
                if (!monitor.open.empty())
                {
                    result += ", but a raster is still open";
                }
                return result;
            },
            want,
            std::format("{} {} fails with {}", kind, k, l.str()));
        monitor.active = false;
    }

    template<typename F>
    void refused(mc::Rec& rec, std::string const& key, Plan const& plan, F const& f, std::string const& what)
    {
        fw::explore(
            rec,
            key,
            plan,
            [&]
            {
                try
                {
                    f();
                }
                catch (std::runtime_error const&)
                {
                    return std::string{"refused"};
                }
                return std::string{"not refused"};
            },
            "refused",
            what);
    }

    void arguments(mc::Rec& rec, std::string const& key, Plan const& plan, std::string const& scratch)
    {
        auto const path = [&](std::string const& s) { return scratch + "/" + s; };
        auto const g = cells<E>(2, 3, std::nullopt, 1);
        Pshape const pshape{1, 1};

        refused(rec, key, plan, [&] { lue::from_gdal<E>(path("none.tif"), pshape); }, "reading what is not there");
        refused(rec, key, plan, [&] { lue::from_gdal<E>(path("none.tif"), lue::Hyperslab<2>{{1, 1}, {1, 1}}, pshape); }, "reading part of what is not there");
        std::ofstream{path("text.tif")} << "This is not a raster";
        refused(rec, key, plan, [&] { lue::from_gdal<E>(path("text.tif"), pshape); }, "reading what is not a raster");
        refused(rec, key, plan, [&] { lue::to_gdal<E>(to_lue(g, 1, 1), path("none/o.tif"), "", {}).get(); }, "writing in a directory that is not there");
        refused(rec, key, plan, [&] { lue::to_gdal<E>(to_lue(g, 1, 1), path("o.tif"), path("none.tif"), {}).get(); }, "clone that is not there");
        for (long rows = 1; rows <= 3; ++rows)
        {
            for (long cols = 1; cols <= 4; ++cols)
            {
                auto const clone = path("clone.tif");
                for (bool const transform : {false, true})
                {
                    for (int const epsg : {0, 28992, 4326})
                    {
                        Raster<E> raster{cells<E>(rows, cols, E{3}, 0), E{3}, std::nullopt, epsg, {}};
                        if (transform)
                        {
                            raster.transform = Transform{-5.5, 2, 0.25, 1e6, -0.5, -3};
                        }
                        make<E>(clone, raster);
                        if (rows != g.rows || cols != g.cols)
                        {
                            refused(
                                rec, key, plan, [&] { lue::to_gdal<E>(to_lue(g, 1, 1), path("o.tif"), clone, {}).get(); },
                                std::format("clone of another shape: {}x{}", rows, cols));
                            continue;
                        }
                        for (std::string const compress : {"", "DEFLATE", "LZW"})
                        {
                            Raster<E> const want{g, nd<E>(), raster.transform, epsg, {}};
                            fw::explore(
                                rec,
                                key,
                                plan,
                                [&]
                                {
                                    std::map<std::string, std::string> options;
                                    if (!compress.empty())
                                    {
                                        options["COMPRESS"] = compress;
                                    }
                                    lue::to_gdal<E>(to_lue(g, 1, 1), path("o.tif"), clone, options).get();
                                    auto got = look<E>(path("o.tif"));
                                    return got.str() + (got.options["COMPRESS"] == compress ? "" : " option is not used");
                                },
                                want.str(),
                                "clone, options: " + compress);
                        }
                    }
                }
            }
        }
    }

}  // Anonymous namespace


void enumerate(std::string const& tier, std::function<void(std::string const&)> const& emit)
{
    bool const thorough = tier == "thorough";

    for (std::string const type : {"u8", "i32", "u32", "i64", "u64", "f32", "f64"})
    {
        for (std::string const no_data : {"none", "default", "other", "extreme"})
        {
            for (auto const& [rows, cols] : std::vector<std::pair<long, long>>{{1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 3}, {4, 3}})
            {
                if (!thorough && rows * cols > 6 && !(type == "i32" && no_data == "other"))
                {
                    continue;
                }
                for (long r = 1; r <= rows; ++r)
                {
                    for (long c = 1; c <= cols; ++c)
                    {
                        emit(std::format("{}|values|{}|{}|{}|{}|{}|{}", tier, type, no_data, rows, cols, r, c));
                    }
                }
            }
        }
    }

    emit(tier + "|arguments");

    // Everything a model does, two at a time, then more
    std::vector<std::string> programs;
    for (std::string const a : {"", "r", "R", "w", "v", "c"})
    {
        for (std::string const b : {"r", "R", "w", "v", "c"})
        {
            if (a != b || a == "r" || a == "R")
            {
                programs.push_back(a + b);
            }
        }
    }
    for (std::string const p : {"wW", "ws", "wWs", "wvc", "rwc", "cws"})
    {
        programs.push_back(p);
    }
    for (auto const& p : programs)
    {
        emit(std::format("{}|program|{}|1|1|1|1|1|p", tier, p));
        emit(std::format("{}|program|{}|1|2|1|1|1|p", tier, p));
        emit(std::format("{}|program|{}|2|2|1|1|0|p", tier, p));
        emit(std::format("{}|program|{}|2|3|1|2|0|p", tier, p));
        if (thorough || p.size() == 1)
        {
            emit(std::format("{}|program|{}|2|2|1|1|1|p", tier, p));
            emit(std::format("{}|program|{}|1|2|1|1|2|p", tier, p));
            emit(std::format("{}|program|{}|1|3|1|1|{}|s", tier, p, 2));
        }
    }

    for (auto const& [rows, cols] : std::vector<std::pair<long, long>>{{1, 1}, {1, 2}, {1, 3}, {2, 2}})
    {
        for (std::string const kind : {"read", "write", "open", "reopen", "partition"})
        {
            auto const n = rows * cols;
            for (long k = 1; k <= (kind == "open" ? n + 1 : kind == "reopen" ? 2 : n); ++k)
            {
                emit(std::format("{}|failure|{}|{}|{}|{}|1|1|{}|p", tier, kind, k, rows, cols, 1));
            }
        }
    }
}


void run(std::string const& c, mc::Rec& rec)
{
    if (!std::getenv("VERIF_DEBUG"))
    {
        CPLSetErrorHandler(CPLQuietErrorHandler);
    }
    GDALAllRegister();
    auto const w = mc::words(c, '|');
    bool const thorough = w[0] == "thorough";
    Plan plan;
    plan.localities = {1, 2};
    auto fit = [&](Layout const& l) { std::erase_if(plan.localities, [&](int k) { return k > l.nr_partitions(); }); };

    if (w[1] == "values")
    {
        Layout const l{std::stol(w[4]), std::stol(w[5]), std::stol(w[6]), std::stol(w[7])};
        if (thorough)
        {
            plan.localities = {1, 2, 3};
        }
        plan.both_orders = false;
        fit(l);
        auto const key = "values";
        w[2] == "u8"    ? values<std::uint8_t>(rec, key, plan, l, w[3])
        : w[2] == "i32" ? values<std::int32_t>(rec, key, plan, l, w[3])
        : w[2] == "u32" ? values<std::uint32_t>(rec, key, plan, l, w[3])
        : w[2] == "i64" ? values<std::int64_t>(rec, key, plan, l, w[3])
        : w[2] == "u64" ? values<std::uint64_t>(rec, key, plan, l, w[3])
        : w[2] == "f32" ? values<float>(rec, key, plan, l, w[3])
                        : values<double>(rec, key, plan, l, w[3]);
    }
    else if (w[1] == "arguments")
    {
        arguments(rec, "arguments", plan, rec.scratch);
    }
    else
    {
        std::size_t const i = w[1] == "program" ? 3 : 4;
        Layout const l{std::stol(w[i]), std::stol(w[i + 1]), std::stol(w[i + 2]), std::stol(w[i + 3])};
        fit(l);
        plan.deviations = std::stoi(w[i + 4]);
        plan.preempt = w[i + 5] == "p";
        plan.max_schedules = 50000;
        if (w[1] == "program")
        {
            program(rec, "steps", plan, w[2], l, rec.scratch);
        }
        else
        {
            failure(rec, "failure", plan, w[2], std::stoi(w[3]), l, rec.scratch);
        }
    }
}

auto crash_key(std::string const& c) -> std::string
{
    return mc::words(c, '|')[1];
}

MC_MAIN
