// P31: templates. See p31_gdal.cpp
#pragma once
#include "fw.hpp"
#include "lue/framework/algorithm/serialize/kernel.hpp"

#include "lue/framework/io/gdal.hpp"
#include "lue/gdal.hpp"
#include <gdal_priv.h>
#include <ogr_spatialref.h>
#include <filesystem>
#include <optional>

using namespace fw;


namespace p31 {

    struct Layout
    {
            long rows, cols, prows, pcols;

            auto nr_partitions() const -> long
            {
                return (rows / prows) * (cols / pcols);
            }

            auto str() const -> std::string
            {
                return std::format("{}x{} cells in {}x{} partitions", rows, cols, prows, pcols);
            }
    };

    using Transform = std::array<double, 6>;

    // Everything we care about in a raster, obtained from GDAL itself
    template<typename E>
    struct Raster
    {
            Grid<E> cells;
            std::optional<E> no_data;
            std::optional<Transform> transform;
            int epsg{0};
            std::map<std::string, std::string> options;

            auto str() const -> std::string
            {
                std::string s = cells.str() + " no-data: " + (no_data ? fw::show(*no_data) : "none");
                s += " transform: ";
                if (transform)
                {
                    for (auto const d : *transform)
                    {
                        s += std::format("{} ", d);
                    }
                }
                else
                {
                    s += "none ";
                }
                s += std::format("epsg: {}", epsg);
                return s;
            }
    };

    template<typename E>
    void make(std::string const& path, Raster<E> const& raster)
    {
        GDALAllRegister();
        auto* driver = GetGDALDriverManager()->GetDriverByName("GTiff");
        auto* ds = driver->Create(
            path.c_str(), static_cast<int>(raster.cells.cols), static_cast<int>(raster.cells.rows), 1, lue::gdal::data_type_v<E>, nullptr);
        auto* band = ds->GetRasterBand(1);
        if (raster.no_data)
        {
            if constexpr (std::is_same_v<E, std::int64_t>)
            {
                band->SetNoDataValueAsInt64(*raster.no_data);
            }
            else if constexpr (std::is_same_v<E, std::uint64_t>)
            {
                band->SetNoDataValueAsUInt64(*raster.no_data);
            }
            else
            {
                band->SetNoDataValue(static_cast<double>(*raster.no_data));
            }
        }
        if (raster.transform)
        {
            auto t = *raster.transform;
            ds->SetGeoTransform(t.data());
        }
        if (raster.epsg)
        {
            OGRSpatialReference srs;
            srs.importFromEPSG(raster.epsg);
            ds->SetSpatialRef(&srs);
        }
        auto v = raster.cells.v;
        band->RasterIO(
            GF_Write, 0, 0, static_cast<int>(raster.cells.cols), static_cast<int>(raster.cells.rows), v.data(),
            static_cast<int>(raster.cells.cols), static_cast<int>(raster.cells.rows), lue::gdal::data_type_v<E>, 0, 0, nullptr);
        GDALClose(ds);
    }

    template<typename E>
    auto look(std::string const& path) -> Raster<E>
    {
        Raster<E> raster;
        auto* ds = static_cast<GDALDataset*>(GDALOpenEx(path.c_str(), GDAL_OF_RASTER | GDAL_OF_READONLY, nullptr, nullptr, nullptr));
        if (!ds)
        {
            throw std::logic_error("no raster in file");
        }
        auto* band = ds->GetRasterBand(1);
        raster.cells = Grid<E>(ds->GetRasterYSize(), ds->GetRasterXSize());
        if (ds->GetRasterCount() != 1 || band->GetRasterDataType() != lue::gdal::data_type_v<E>)
        {
            GDALClose(ds);
            throw std::logic_error("other data type or number of bands");
        }
        int ok{};
        if constexpr (std::is_same_v<E, std::int64_t>)
        {
            auto const n = band->GetNoDataValueAsInt64(&ok);
            raster.no_data = ok ? std::optional<E>{n} : std::nullopt;
        }
        else if constexpr (std::is_same_v<E, std::uint64_t>)
        {
            auto const n = band->GetNoDataValueAsUInt64(&ok);
            raster.no_data = ok ? std::optional<E>{n} : std::nullopt;
        }
        else
        {
            auto const n = band->GetNoDataValue(&ok);
            raster.no_data = ok ? std::optional<E>{static_cast<E>(n)} : std::nullopt;
        }
        Transform t{};
        if (ds->GetGeoTransform(t.data()) == CE_None)
        {
            raster.transform = t;
        }
        if (auto const* srs = ds->GetSpatialRef())
        {
            auto const* code = srs->GetAuthorityCode(nullptr);
            raster.epsg = code ? std::atoi(code) : -1;
        }
        auto const rc = band->RasterIO(
            GF_Read, 0, 0, static_cast<int>(raster.cells.cols), static_cast<int>(raster.cells.rows), raster.cells.v.data(),
            static_cast<int>(raster.cells.cols), static_cast<int>(raster.cells.rows), lue::gdal::data_type_v<E>, 0, 0, nullptr);
        if (auto const* compression = ds->GetMetadataItem("COMPRESSION", "IMAGE_STRUCTURE"))
        {
            raster.options["COMPRESS"] = compression;
        }
        GDALClose(ds);
        if (rc != CE_None)
        {
            throw std::logic_error("raster cannot be read");
        }
        return raster;
    }

    template<typename E>
    auto default_transform(Grid<E> const& g) -> Transform
    {
        return {0.0, 1.0, 0.0, static_cast<double>(g.rows), 0.0, -1.0};
    }

    // Different values, among which special ones, and the two no-data values
    template<typename E>
    auto cells(long const rows, long const cols, std::optional<E> const& no_data, long const k = 0) -> Grid<E>
    {
        Grid<E> g(rows, cols);
        std::vector<E> special{
            std::numeric_limits<E>::min(), std::numeric_limits<E>::max(), std::numeric_limits<E>::lowest(), E{0}, E{1}, static_cast<E>(-1), nd<E>()};
        for (long i = 0; i < rows * cols; ++i)
        {
            auto const n = static_cast<std::size_t>(i + k);
            g.v[static_cast<std::size_t>(i)] = n % 4 == 1 ? special[n / 4 % special.size()] : static_cast<E>((k + 1) * 20 + i);
            if (n % 3 == 0)
            {
                g.v[static_cast<std::size_t>(i)] = n % 6 == 0 && no_data ? *no_data : nd<E>();
            }
        }
        if constexpr (std::is_floating_point_v<E>)
        {
            for (auto& v : g.v)
            {
                if (v > 10 && v < 1000 && !(no_data && v == *no_data))
                {
                    v += static_cast<E>(0.1);
                }
            }
        }
        return g;
    }

    template<typename E>
    auto as_read(Grid<E> g, std::optional<E> const& no_data) -> Grid<E>
    {
        for (auto& v : g.v)
        {
            if (no_data && v == *no_data)
            {
                v = nd<E>();
            }
        }
        return g;
    }

    template<typename E>
    void values_on(mc::Rec& rec, std::string const& key, Plan const& plan, Layout const& l, std::string const& no_data_kind)
    {
        std::optional<E> no_data;
        if (no_data_kind == "default")
        {
            no_data = nd<E>();
        }
        else if (no_data_kind == "other")
        {
            no_data = E{7};
        }
        else if (no_data_kind == "extreme")
        {
            no_data = std::is_signed_v<E> ? (std::is_floating_point_v<E> ? std::numeric_limits<E>::lowest() : std::numeric_limits<E>::max()) : E{0};
        }
        auto const path = rec.scratch + std::format("/v{}.tif", plan.localities[0]);
        auto const copy = rec.scratch + std::format("/w{}.tif", plan.localities[0]);
        for (long k = 0; k < 3; ++k)
        {
            auto const g = cells<E>(l.rows, l.cols, no_data, k);
            make<E>(path, {g, no_data, Transform{1000.5, 25, 0, 2000.25, 0, -25}, 32631, {}});
            auto const expected = as_read(g, no_data);

            fw::check<E>(
                rec,
                key,
                plan,
                [&] { return lue::from_gdal<E>(path, lue::Shape<lue::Count, 2>{l.prows, l.pcols}); },
                expected,
                "reading " + l.str() + " of " + g.str());

            Raster<E> want{expected, nd<E>(), default_transform(g), 0, {}};
            for (bool const clone : {false, true})
            {
                if (clone)
                {
                    want.transform = Transform{1000.5, 25, 0, 2000.25, 0, -25};
                    want.epsg = 32631;
                }
                fw::explore(
                    rec,
                    key,
                    plan,
                    [&]
                    {
                        auto const array = to_lue(expected, l.prows, l.pcols);
                        lue::to_gdal<E>(array, copy, clone ? path : "", {}).get();
                        return look<E>(copy).str();
                    },
                    want.str(),
                    std::format("writing {} of {}{}", l.str(), expected.str(), clone ? " like a clone" : ""));
            }
            if (k > 0)
            {
                continue;
            }

            // All parts, given by their centre, and all that are not parts
            for (long r = 0; r < l.rows; ++r)
            {
                for (long c = 0; c < l.cols; ++c)
                {
                    for (long nr = 1; nr <= l.rows + 1; ++nr)
                    {
                        for (long nc = 1; nc <= l.cols + 1; ++nc)
                        {
                            auto const r0 = r - nr / 2;
                            auto const c0 = c - nc / 2;
                            bool const part_of = r0 >= 0 && c0 >= 0 && r0 + nr <= l.rows && c0 + nc <= l.cols;
                            Layout const part{nr, nc, std::min(l.prows, nr), std::min(l.pcols, nc)};
                            Plan p = plan;
                            std::erase_if(p.localities, [&](int n) { return n > part.nr_partitions(); });
                            if (p.localities.empty())
                            {
                                continue;
                            }
                            auto read = [&]
                            {
                                return lue::from_gdal<E>(
                                    path, lue::Hyperslab<2>{{r, c}, {nr, nc}}, lue::Shape<lue::Count, 2>{part.prows, part.pcols});
                            };
                            auto const what = std::format("reading {} with centre ({}, {}) of {}", part.str(), r, c, l.str());
                            if (!part_of)
                            {
                                fw::explore(
                                    rec,
                                    key,
                                    p,
                                    [&]
                                    {
                                        try
                                        {
                                            read();
                                        }
                                        catch (std::runtime_error const&)
                                        {
                                            return std::string{"refused"};
                                        }
                                        return std::string{"not refused"};
                                    },
                                    "refused",
                                    what);
                                continue;
                            }
                            Grid<E> e(nr, nc);
                            for (long i = 0; i < nr; ++i)
                            {
                                for (long j = 0; j < nc; ++j)
                                {
                                    e(i, j) = expected(r0 + i, c0 + j);
                                }
                            }
                            fw::check<E>(rec, key, p, read, e, what);
                        }
                    }
                }
            }
        }
        std::filesystem::remove(path);
        std::filesystem::remove(copy);
    }

    template<typename E>
    void values(mc::Rec& rec, std::string const& key, Plan const& plan, Layout const& l, std::string const& no_data_kind)
    {
        for (int const nr_localities : plan.localities)
        {
            Plan p = plan;
            p.localities = {nr_localities};
            values_on<E>(rec, key, p, l, no_data_kind);
        }
    }

}  // namespace p31
