// P30: templates. See p30_io.cpp
#pragma once
#include "fw.hpp"
#include "lue/framework/algorithm/serialize/kernel.hpp"

#include "lue/data_model/hl/raster_view.hpp"
#include "lue/framework/io/from_lue.hpp"
#include "lue/framework/io/to_lue.hpp"
#include <filesystem>

namespace ldm = lue::data_model;
namespace lh5 = lue::hdf5;
using namespace fw;


namespace p30 {

    int const nr_time_steps = 3;

    struct Layout
    {
            long rows, cols, prows, pcols;

            auto nr_partitions() const -> long
            {
                return (rows / prows) * (cols / pcols);
            }

            auto str() const -> std::string
            {
                return std::format("{}x{} cells in {}x{} partitions", rows, cols, prows, pcols);
            }
    };

    inline auto layouts(long const rows, long const cols) -> std::vector<Layout>
    {
        std::vector<Layout> v;
        for (long r = 1; r <= rows; ++r)
        {
            for (long c = 1; c <= cols; ++c)
            {
                v.push_back({rows, cols, r, c});
            }
        }
        return v;
    }

    using DatasetPtr = std::shared_ptr<ldm::Dataset>;

    struct Files
    {
            ldm::ID constant_id;
            ldm::ID variable_id;
            int nr_constant;
            int nr_variable;
    };

    // A dataset with a constant raster (c/s: layers l0, l1, ..), and a variable raster (v/s: layers l0, l1, with time
    // steps)
    template<typename E>
    auto create(std::string const& path, long const rows, long const cols, int const nr_constant, int const nr_variable) -> Files
    {
        auto const r = static_cast<ldm::Count>(rows);
        auto const c = static_cast<ldm::Count>(cols);
        Files files{{}, {}, nr_constant, nr_variable};
        std::array<double, 4> const box{0, 0, static_cast<double>(cols), static_cast<double>(rows)};
        auto dataset = std::make_shared<ldm::Dataset>(ldm::create_dataset(path));
        {
            auto view = ldm::constant::create_raster_view(dataset, "c", "s", lh5::Shape{r, c}, box);
            std::vector<E> const zeros(static_cast<std::size_t>(rows * cols), E{0});
            for (int i = 0; i < nr_constant; ++i)
            {
                auto layer = view.template add_layer<E>(std::format("l{}", i));
                layer.write(zeros.data());
            }
            files.constant_id = view.object_id();
        }
        {
            ldm::Clock const clock{ldm::time::Unit::day, 1};
            auto view = ldm::variable::create_raster_view(
                dataset, "v", "s", clock, static_cast<ldm::Count>(nr_time_steps), {0, static_cast<ldm::Count>(nr_time_steps)}, lh5::Shape{r, c}, box);
            std::vector<E> const zeros(static_cast<std::size_t>(nr_time_steps * rows * cols), E{0});
            for (int i = 0; i < nr_variable; ++i)
            {
                view.template add_layer<E>(std::format("l{}", i));
                dataset->phenomena()["v"].property_sets()["s"].properties().template collection<ldm::different_shape::constant_shape::Properties>()[std::format("l{}", i)].value()[view.object_id()].write(
                    lh5::Hyperslab{lh5::Offset{0, 0, 0, 0}, lh5::Count{1, static_cast<hsize_t>(nr_time_steps), r, c}},
                    zeros.data());
            }
            files.variable_id = view.object_id();
        }
        return files;
    }

    // What is in the dataset. Layers of the constant raster: 0, 1, .. Layer i, time step t of the variable
    // raster: 10 + 10 i + t. The values can be set to zero again.
    template<typename E>
    auto contents(std::string const& path, Files const& files, long const rows, long const cols, bool const reset = false) -> std::map<int, Grid<E>>
    {
        std::map<int, Grid<E>> result;
        std::vector<E> const zeros(static_cast<std::size_t>(rows * cols), E{0});
        auto dataset = ldm::open_dataset(path, reset ? H5F_ACC_RDWR : H5F_ACC_RDONLY);
        auto const r = static_cast<hsize_t>(rows);
        auto const c = static_cast<hsize_t>(cols);
        for (int i = 0; i < files.nr_constant; ++i)
        {
            auto array = dataset.phenomena()["c"].property_sets()["s"].properties().template collection<ldm::different_shape::Properties>()[std::format("l{}", i)].value()[files.constant_id];
            Grid<E> g(rows, cols);
            lh5::Hyperslab const slab{lh5::Offset{0, 0}, lh5::Count{r, c}};
            array.read(lh5::native_datatype<E>(), slab, g.v.data());
            if (reset && g.v != zeros)
            {
                array.write(slab, zeros.data());
            }
            result[i] = g;
        }
        for (int i = 0; i < files.nr_variable; ++i)
        {
            auto array = dataset.phenomena()["v"].property_sets()["s"].properties().template collection<ldm::different_shape::constant_shape::Properties>()[std::format("l{}", i)].value()[files.variable_id];
            for (int t = 0; t < nr_time_steps; ++t)
            {
                Grid<E> g(rows, cols);
                lh5::Hyperslab const slab{lh5::Offset{0, static_cast<hsize_t>(t), 0, 0}, lh5::Count{1, 1, r, c}};
                array.read(lh5::native_datatype<E>(), slab, g.v.data());
                if (reset && g.v != zeros)
                {
                    array.write(slab, zeros.data());
                }
                result[10 + 10 * i + t] = g;
            }
        }
        return result;
    }

    template<typename E>
    auto values(long const rows, long const cols, long const k) -> Grid<E>
    {
        Grid<E> g(rows, cols);
        for (long i = 0; i < rows * cols; ++i)
        {
            g.v[static_cast<std::size_t>(i)] = static_cast<E>((k + 1) * 20 + i);
        }
        if constexpr (std::is_floating_point_v<E>)
        {
            g.v[0] += static_cast<E>(0.25);
        }
        return g;
    }

    // Values survive, whatever their type, and parts can be read, in partitions of any shape
    template<typename E>
    void round_trip_on(mc::Rec& rec, std::string const& key, Plan const& plan, Layout const& l, bool const variable)
    {
        auto const path = rec.scratch + std::format("/t{}.lue", plan.localities[0]);
        auto const files = create<E>(path, l.rows, l.cols, variable ? 0 : nr_time_steps, variable ? 2 : 0);
        std::vector<Grid<E>> grids;
        {
            std::vector<E> special{
                std::numeric_limits<E>::min(), std::numeric_limits<E>::max(), std::numeric_limits<E>::lowest(), E{0}, E{1}, static_cast<E>(-1), nd<E>()};
            for (long k = 0; k < nr_time_steps; ++k)
            {
                auto g = values<E>(l.rows, l.cols, k);
                for (std::size_t i = 0; i < g.v.size(); ++i)
                {
                    if ((i + static_cast<std::size_t>(k)) % 3 == 0)
                    {
                        g.v[i] = special[(i + static_cast<std::size_t>(k)) / 3 % special.size()];
                    }
                }
                grids.push_back(g);
            }
        }
        std::string want;
        for (auto const& g : grids)
        {
            want += g.str() + " ";
        }
        fw::explore(
            rec,
            key,
            plan,
            [&]
            {
                for (int k = 0; k < nr_time_steps; ++k)
                {
                    auto array = to_lue(grids[static_cast<std::size_t>(k)], l.prows, l.pcols);
                    auto f = variable ? lue::to_lue(array, path + "/v/s/l1", files.variable_id, static_cast<lue::Index>(k))
                                      : lue::to_lue(array, path + std::format("/c/s/l{}", k), files.constant_id);
                    f.get();
                }
                auto const left = contents<E>(path, files, l.rows, l.cols);
                std::string got;
                for (int k = 0; k < nr_time_steps; ++k)
                {
                    got += left.at(variable ? 20 + k : k).str() + " ";
                }
                return got;
            },
            want,
            "writing " + l.str());
        for (long r = 0; r < l.rows; ++r)
        {
            for (long c = 0; c < l.cols; ++c)
            {
                for (long nr = 1; r + nr <= l.rows; ++nr)
                {
                    for (long nc = 1; c + nc <= l.cols; ++nc)
                    {
                        auto const k = (r + c + nr + nc) % nr_time_steps;
                        Layout const part{nr, nc, std::min(l.prows, nr), std::min(l.pcols, nc)};
                        Grid<E> expected(nr, nc);
                        for (long i = 0; i < nr; ++i)
                        {
                            for (long j = 0; j < nc; ++j)
                            {
                                expected(i, j) = grids[static_cast<std::size_t>(k)](r + i, c + j);
                            }
                        }
                        Plan p = plan;
                        std::erase_if(p.localities, [&](int n) { return n > part.nr_partitions(); });
                        if (p.localities.empty())
                        {
                            continue;
                        }
                        fw::check<E>(
                            rec,
                            key,
                            p,
                            [&]
                            {
                                lh5::Hyperslab const slab{
                                    lh5::Offset{static_cast<hsize_t>(r), static_cast<hsize_t>(c)},
                                    lh5::Count{static_cast<hsize_t>(nr), static_cast<hsize_t>(nc)}};
                                lue::Shape<lue::Count, 2> const pshape{part.prows, part.pcols};
                                return variable ? lue::from_lue<E>(path + "/v/s/l1", slab, pshape, files.variable_id, static_cast<lue::Index>(k))
                                                : lue::from_lue<E>(path + std::format("/c/s/l{}", k), slab, pshape, files.constant_id);
                            },
                            expected,
                            std::format("reading {} at ({}, {}) of {}", part.str(), r, c, l.str()));
                    }
                }
            }
        }
        std::filesystem::remove(path);
    }

    template<typename E>
    void round_trip(mc::Rec& rec, std::string const& key, Plan const& plan, Layout const& l, bool const variable)
    {
        // The number of localities does not change while a dataset is used
        for (int const nr_localities : plan.localities)
        {
            Plan p = plan;
            p.localities = {nr_localities};
            round_trip_on<E>(rec, key, p, l, variable);
        }
    }

}  // namespace p30
