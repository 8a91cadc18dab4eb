// P23: creation of partitioned arrays. See p23_arrays.hpp
#include "p23_arrays.hpp"
#if FW_PART == 0
#include "lue/framework/algorithm/fill.hpp"
#include "lue/framework/algorithm/range.hpp"
#elif FW_PART == 1
#include "lue/framework/algorithm/array_like.hpp"
#include "lue/framework/algorithm/array_partition_id.hpp"
#include "lue/framework/algorithm/copy.hpp"
#include "lue/framework/algorithm/locality_id.hpp"
#include "lue/framework/algorithm/mesh_grid.hpp"
#elif FW_PART == 2
#include "lue/framework/algorithm/definition/open_simplex_noise.hpp"
#include "lue/framework/algorithm/definition/resample.hpp"
#include "lue/framework/algorithm/value_policies/open_simplex_noise.hpp"
#include "lue/framework/algorithm/value_policies/resample.hpp"
#elif FW_PART == 3
#include "lue/framework/algorithm/definition/normal.hpp"
#include "lue/framework/algorithm/definition/uniform.hpp"
#include "lue/framework/algorithm/value_policies/normal.hpp"
#include "lue/framework/algorithm/value_policies/uniform.hpp"
#endif

namespace p23 {
    namespace {

#if FW_PART >= 2
        namespace vp = lue::value_policies;
#endif

        template<typename... T>
        struct List
        {
        };

        template<typename... T, typename F>
        void each(List<T...>, F const& f)
        {
            (f(std::type_identity<T>{}), ...);
        }

        template<typename E>
        auto later(E const value) -> lue::Scalar<E>
        {
            return lue::Scalar<E>{hpx::async([value] { return value; })};
        }

        // f creates an array with a certain layout, filled with the values in want
        template<typename E, typename F>
        void creates(std::string const& name, F f, std::function<Grid<E>(Layout const&)> want, bool schedules = true)
        {
            add_layouts(name + " " + lue::as_string<E>, 5, 7, [=](mc::Rec& rec, Plan const& plan, Layout const& l)
                {
                    auto const g = want(l);
                    explore(rec, name, plan, [&]
                        {
                            Array<E> const array = f(l, g);
                            auto const problem = distribution(array);
                            return problem.empty() ? compare(array, g, l) : problem;
                        }, "ok", l.str());
                }, schedules);
        }

        template<typename E>
        auto filled(E const value) -> std::function<Grid<E>(Layout const&)>
        {
            return [=](Layout const& l) { return Grid<E>(l.rows, l.cols, value); };
        }

        // The layout of an array if no partition shape is given: that of the mock has 4 threads
        inline auto default_layout(Layout const& l) -> Layout
        {
            long const p = std::max(1L, std::min(l.rows, l.cols) / 4);
            return {l.rows, l.cols, p, p};
        }

        // A partition creator that needs a task per locality
        class PerLocality
        {

            public:

                using OutputElement = std::int32_t;
                using Partition = lue::ArrayPartition<OutputElement, 2>;
                using Offset = lue::OffsetT<Partition>;
                using Shape = lue::ShapeT<Partition>;

                static constexpr bool instantiate_per_locality{true};

                template<typename Policies>
                auto instantiate(
                    hpx::id_type const locality_id, Policies const&, Shape const& array_shape, std::vector<Offset> const& offsets,
                    std::vector<Shape> const& shapes) -> hpx::future<std::vector<Partition>>
                {
                    return hpx::async([=]
                        {
                            std::vector<Partition> partitions;
                            for (std::size_t i = 0; i < offsets.size(); ++i)
                            {
                                lue::ArrayPartitionData<OutputElement, 2> data{shapes[i]};
                                for (Index r = 0; r < shapes[i][0]; ++r)
                                {
                                    for (Index c = 0; c < shapes[i][1]; ++c)
                                    {
                                        data(r, c) = static_cast<OutputElement>((offsets[i][0] + r) * array_shape[1] + offsets[i][1] + c + 1);
                                    }
                                }
                                partitions.emplace_back(locality_id, offsets[i], std::move(data));
                            }
                            return partitions;
                        });
                }
        };

        // What a partition creator is told about each of the partitions
        class Told
        {

            public:

                using OutputElement = std::int64_t;
                using Partition = lue::ArrayPartition<OutputElement, 2>;
                using Offset = lue::OffsetT<Partition>;
                using Shape = lue::ShapeT<Partition>;

                static constexpr bool instantiate_per_locality{false};

                template<typename Policies>
                auto instantiate(
                    hpx::id_type const locality_id, Policies const&, Shape const& array_shape, Shape const& shape_in_partitions, Index along_curve,
                    Index partition_idx, Offset const& offset, Shape const& shape) -> Partition
                {
                    return hpx::async([=]
                        {
                            return Partition{locality_id, offset, shape,
                                array_shape[0] + 100 * (array_shape[1] + 100 * (shape_in_partitions[0] + 100 * (shape_in_partitions[1] + 100 * (partition_idx + 100 * along_curve))))};
                        });
                }
        };

        struct Register
        {
            Register()
            {
#if FW_PART == 0
                each(List<std::uint8_t, std::int32_t, std::uint64_t, float, double>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        creates<E>("create from values", [](Layout const& l, Grid<E> const& g) { return to_lue(g, l.prows, l.pcols); },
                            [](Layout const& l) { return numbered<E>(l.rows, l.cols); });
                        creates<E>("create filled", [](Layout const& l, Grid<E> const&)
                            { return lue::create_partitioned_array<E, 2>(shape_of(l), pshape_of(l), E(7)); }, filled(E(7)));
                    });
                each(List<std::int32_t, double>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        creates<E>("create", [](Layout const& l, Grid<E> const&)
                            { return lue::create_partitioned_array<E, 2>(shape_of(l), pshape_of(l)); }, filled(E(0)));
                        creates<E>("create filled later", [](Layout const& l, Grid<E> const&)
                            { return lue::create_partitioned_array<E, 2>(shape_of(l), pshape_of(l), later(E(7))); }, filled(E(7)));
                        creates<E>("create from values with a no-data value", [](Layout const& l, Grid<E> const&)
                            {
                                Handle<E> handle{std::make_shared<std::vector<E>>(numbered<E>(l.rows, l.cols).v)};
                                for (std::size_t i = 0; i < handle.values->size(); i += 2)
                                {
                                    (*handle.values)[i] = E(99);
                                }
                                using Policies = lue::policy::create_partitioned_array::DefaultValuePolicies<E>;
                                return lue::create_partitioned_array(Policies{}, shape_of(l), pshape_of(l),
                                    lue::InstantiateFromBuffer<Handle<E>, 2>{handle, [](Handle<E> h) { return h.values->data(); }, E(99)});
                            },
                            [](Layout const& l)
                            {
                                auto g = numbered<E>(l.rows, l.cols);
                                for (std::size_t i = 0; i < g.v.size(); i += 2)
                                {
                                    g.v[i] = nd<E>();
                                }
                                return g;
                            });
                        // No shape of partitions passed in
                        add_layouts("create without partition shape " + std::string{lue::as_string<E>}, 9, 9, [](mc::Rec& rec, Plan const& plan, Layout const& l)
                            {
                                if (l.prows == l.rows && l.pcols == l.cols)
                                {
                                    auto const d = default_layout(l);
                                    Plan p{plan};
                                    p.localities = localities(d, {1, 2, 3});
                                    explore(rec, "create without partition shape", p, [&]
                                        {
                                            auto const a = compare(lue::create_partitioned_array<E, 2>(shape_of(l)), Grid<E>(l.rows, l.cols, E(0)), d);
                                            auto const b = compare(lue::create_partitioned_array<E, 2>(shape_of(l), E(3)), Grid<E>(l.rows, l.cols, E(3)), d);
                                            auto const c = compare(lue::create_partitioned_array<E, 2>(shape_of(l), later(E(4))), Grid<E>(l.rows, l.cols, E(4)), d);
                                            return a == "ok" && b == "ok" ? c : a + b + c;
                                        }, "ok", l.str());
                                }
                            }, false);
                        creates<E>("fill", [](Layout const& l, Grid<E> const&)
                            {
                                auto array = to_lue(numbered<E>(l.rows, l.cols), l.prows, l.pcols);
                                lue::fill(array, E(5)).get();
                                return array;
                            }, filled(E(5)));
                        creates<E>("fill later", [](Layout const& l, Grid<E> const&)
                            {
                                auto array = to_lue(numbered<E>(l.rows, l.cols), l.prows, l.pcols);
                                lue::fill(array, hpx::async([] { return E(5); }).share()).get();
                                return array;
                            }, filled(E(5)));
                        creates<E>("range", [](Layout const& l, Grid<E> const&)
                            {
                                auto array = lue::create_partitioned_array<E, 2>(shape_of(l), pshape_of(l));
                                lue::range(array, E(1)).get();
                                return array;
                            }, [](Layout const& l) { return numbered<E>(l.rows, l.cols); });
                        creates<E>("range later", [](Layout const& l, Grid<E> const&)
                            {
                                auto array = lue::create_partitioned_array<E, 2>(shape_of(l), pshape_of(l), later(E(9)));
                                lue::range(array, hpx::async([] { return E(1); }).share()).get();
                                return array;
                            }, [](Layout const& l) { return numbered<E>(l.rows, l.cols); });
                    });
                creates<std::int32_t>("create per locality", [](Layout const& l, Grid<std::int32_t> const&)
                    { return lue::create_partitioned_array(shape_of(l), pshape_of(l), PerLocality{}); },
                    [](Layout const& l) { return numbered<std::int32_t>(l.rows, l.cols); });
                // Partition creators are told the truth
                add_layouts("create with partition creator", 6, 8, [](mc::Rec& rec, Plan const& plan, Layout const& l)
                    {
                        explore(rec, "create with partition creator", plan, [&]() -> std::string
                            {
                                auto const array = lue::create_partitioned_array(shape_of(l), pshape_of(l), Told{});
                                if (auto const s = structure<std::int64_t, 2>(array, shape_of(l), pshape_of(l)); !s.empty())
                                {
                                    return s;
                                }
                                std::map<Index, std::uint32_t> along_curve;
                                for (Index i = 0; i < array.partitions().nr_elements(); ++i)
                                {
                                    auto const data = array.partitions()[i].data(hpx::launch::sync);
                                    auto v = data[0];
                                    for (Index const want : {Index(l.rows), Index(l.cols), Index(l.rows / l.prows), Index(l.cols / l.pcols), i})
                                    {
                                        if (v % 100 != want)
                                        {
                                            return std::format("partition {}: told {} instead of {}", i, v % 100, want);
                                        }
                                        v /= 100;
                                    }
                                    along_curve[v] = array.localities()[i].locality();
                                }
                                std::uint32_t last = 0;
                                for (auto const& [idx, locality] : along_curve)
                                {
                                    if (locality < last)
                                    {
                                        return "localities do not follow the curve";
                                    }
                                    last = locality;
                                }
                                return static_cast<long>(along_curve.size()) == l.nr_partitions() ? "ok" : "not all partitions along the curve";
                            }, "ok", l.str());
                    });
                // Requests that are refused
                add("refused", static_cast<long>(layouts(4).size()), static_cast<long>(layouts(6).size()), 16, [](mc::Rec& rec, long i, bool thorough)
                    {
                        auto const l = layouts(thorough ? 6 : 4)[static_cast<std::size_t>(i)];
                        for (auto const& [shape, pshape, nr_localities] : std::vector<std::tuple<S<2>, S<2>, int>>{
                            {shape_of(l), pshape_of(l), static_cast<int>(l.nr_partitions() + 1)},
                            {shape_of(l), {l.rows + l.prows, l.pcols}, 1}, {shape_of(l), {l.prows, l.cols + l.pcols}, 1},
                            {{0, l.cols}, {0, l.pcols}, 1}, {shape_of(l), {l.prows, 0}, 1}})
                        {
                            Plan plan;
                            plan.localities = {nr_localities};
                            explore(rec, "refused", plan, [&]() -> std::string
                                {
                                    try
                                    {
                                        lue::create_partitioned_array<std::int32_t, 2>(shape, pshape, 3);
                                        return "accepted";
                                    }
                                    catch (std::runtime_error const&)
                                    {
                                        return "refused";
                                    }
                                }, "refused", text(shape) + " in partitions of " + text(pshape) + std::format(" on {} localities", nr_localities));
                        }
                    });
                // Arrays of rank 1
                add("create rank 1", 55, 210, 5, [](mc::Rec& rec, long i, bool)
                    {
                        long extent = 1;
                        while (i >= extent)
                        {
                            i -= extent++;
                        }
                        long const p = i + 1;
                        Plan plan;
                        plan.localities = localities({extent, 1, p, 1}, {1, 2, 3});
                        explore(rec, "create rank 1", plan, [&]() -> std::string
                            {
                                auto const array = lue::create_partitioned_array<std::int32_t, 1>(S<1>{extent}, S<1>{p}, 8);
                                if (auto const s = structure<std::int32_t, 1>(array, S<1>{extent}, S<1>{p}); !s.empty())
                                {
                                    return s;
                                }
                                for (Index k = 0; k < array.partitions().nr_elements(); ++k)
                                {
                                    for (auto const v : array.partitions()[k].data(hpx::launch::sync))
                                    {
                                        if (v != 8)
                                        {
                                            return "wrong value";
                                        }
                                    }
                                }
                                return distribution(array).empty() ? "ok" : distribution(array);
                            }, "ok", std::format("{} cells in partitions of {}", extent, p));
                    });
#elif FW_PART == 1
                each(List<std::int32_t, std::uint8_t, double>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        creates<E>("copy", [](Layout const& l, Grid<E> const& g)
                            {
                                auto array = to_lue(g, l.prows, l.pcols);
                                using Policies = lue::policy::copy::DefaultValuePolicies<E>;
                                return lue::copy(Policies{}, array);
                            }, [](Layout const& l) { return cycle<E>(l.rows, l.cols, {E(1), nd<E>(), E(3)}); });
                        creates<E>("copy is independent", [](Layout const& l, Grid<E> const& g)
                            {
                                auto array = to_lue(g, l.prows, l.pcols);
                                auto result = lue::copy(array);
                                for (Index i = 0; i < result.partitions().nr_elements(); ++i)
                                {
                                    result.partitions()[i].wait();
                                }
                                for (Index i = 0; i < array.partitions().nr_elements(); ++i)
                                {
                                    array.partitions()[i].wait();
                                    auto data = array.partitions()[i].data(hpx::launch::sync);
                                    std::fill(data.begin(), data.end(), E(77));
                                    array.partitions()[i].set_data(hpx::launch::sync, std::move(data));
                                }
                                return result;
                            }, [](Layout const& l) { return numbered<E>(l.rows, l.cols); }, false);
                        creates<E>("array_like", [](Layout const& l, Grid<E> const&)
                            { return lue::array_like<E>(to_lue(numbered<std::int64_t>(l.rows, l.cols), l.prows, l.pcols), E(6)); }, filled(E(6)));
                    });
                creates<std::uint64_t>("array_partition_id", [](Layout const& l, Grid<std::uint64_t> const&)
                    { return lue::array_partition_id<std::uint64_t>(to_lue(numbered<double>(l.rows, l.cols), l.prows, l.pcols)); },
                    [](Layout const& l)
                    {
                        Grid<std::uint64_t> g(l.rows, l.cols);
                        for (long r = 0; r < l.rows; ++r)
                        {
                            for (long c = 0; c < l.cols; ++c)
                            {
                                g(r, c) = static_cast<std::uint64_t>(
                                    std::min(r / l.prows, l.rows / l.prows - 1) * (l.cols / l.pcols) + std::min(c / l.pcols, l.cols / l.pcols - 1));
                            }
                        }
                        return g;
                    });
                add_layouts("locality_id", 5, 7, [](mc::Rec& rec, Plan const& plan, Layout const& l)
                    {
                        explore(rec, "locality_id", plan, [&]() -> std::string
                            {
                                auto const array = to_lue(numbered<double>(l.rows, l.cols), l.prows, l.pcols);
                                auto const ids = lue::locality_id(array);
                                Grid<std::uint32_t> want(l.rows / l.prows, l.cols / l.pcols);
                                for (Index i = 0; i < array.partitions().nr_elements(); ++i)
                                {
                                    array.partitions()[i].wait();
                                    want.v[static_cast<std::size_t>(i)] = hpx::get_colocation_id(hpx::launch::sync, array.partitions()[i].get_id()).locality();
                                }
                                return compare(ids, want, {want.rows, want.cols, 1, 1});
                            }, "ok", l.str());
                    });
                each(List<std::int32_t, double>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        for (long const dimension : {0, 1})
                        {
                            creates<E>("mesh_grid along " + std::to_string(dimension), [=](Layout const& l, Grid<E> const&)
                                {
                                    auto const array = lue::create_partitioned_array<std::uint8_t, 2>(shape_of(l), pshape_of(l));
                                    auto grids = lue::mesh_grid(array, E(4), E(3));
                                    return std::move(grids[static_cast<std::size_t>(dimension)]);
                                },
                                [=](Layout const& l)
                                {
                                    Grid<E> g(l.rows, l.cols);
                                    for (long r = 0; r < l.rows; ++r)
                                    {
                                        for (long c = 0; c < l.cols; ++c)
                                        {
                                            g(r, c) = static_cast<E>(4 + 3 * (dimension ? c : r));
                                        }
                                    }
                                    return g;
                                });
                        }
                    });
#elif FW_PART == 2
                each(List<std::int32_t, double>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        for (Count const count : {1, 2, 3, 4})
                        {
                            add_layouts(std::format("downscale {} by {}", lue::as_string<E>, count), 5, 8, [=](mc::Rec& rec, Plan const& plan, Layout const& l)
                                {
                                    auto const g = cycle<E>(l.rows, l.cols, {E(1), E(2), nd<E>(), E(4), E(5), E(6), E(7)});
                                    Grid<E> want(l.rows * count, l.cols * count);
                                    for (long r = 0; r < want.rows; ++r)
                                    {
                                        for (long c = 0; c < want.cols; ++c)
                                        {
                                            want(r, c) = g(r / count, c / count);
                                        }
                                    }
                                    explore(rec, std::format("downscale by {}", count), plan, [&]
                                        {
                                            auto const got = vp::downscale(to_lue(g, l.prows, l.pcols), count, lue::DownscaleStrategy::assign);
                                            // Partitions are as large as the first partition of the input
                                            return compare(got, want,
                                                {want.rows, want.cols, l.rows / l.prows == 1 ? l.rows : l.prows, l.cols / l.pcols == 1 ? l.cols : l.pcols});
                                        }, "ok", l.str());
                                }, count == 2);
                        }
                    });
                add("downscale by 0", 1, 1, 1, [](mc::Rec& rec, long, bool)
                    {
                        Plan plan;
                        explore(rec, "downscale by 0", plan, [&]() -> std::string
                            {
                                try
                                {
                                    vp::downscale(to_lue(numbered<double>(4, 4), 2, 2), 0, lue::DownscaleStrategy::assign);
                                    return "accepted";
                                }
                                catch (std::runtime_error const&)
                                {
                                    return "refused";
                                }
                            }, "refused", "4x4 cells");
                    });
                each(List<float, double>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        add_layouts(std::string{"open_simplex_noise "} + lue::as_string<E>, 5, 7, [](mc::Rec& rec, Plan const& plan, Layout const& l)
                            {
                                auto x = numbered<E>(l.rows, l.cols);
                                auto y = cycle<E>(l.rows, l.cols, {E(0), E(10), E(3.5), nd<E>(), E(-7)});
                                x.v.back() = nd<E>();
                                // The same coordinates must result in the same noise, wherever they are
                                explore(rec, "open_simplex_noise", plan, [&]
                                    {
                                        std::string problem;
                                        auto const one = from_lue(vp::open_simplex_noise(to_lue(x, 1, 1), to_lue(y, 1, 1), 5), &problem);
                                        for (std::size_t i = 0; i < one.v.size(); ++i)
                                        {
                                            if (is_nd(one.v[i]) != (is_nd(x.v[i]) || is_nd(y.v[i])) || one.v[i] < -1 || one.v[i] > 1)
                                            {
                                                return one.str();
                                            }
                                        }
                                        auto const got = vp::open_simplex_noise(to_lue(x, l.prows, l.pcols), to_lue(y, l.prows, l.pcols), 5);
                                        return problem.empty() ? compare(got, one, l) : problem;
                                    }, "ok", l.str());
                            }, false);
                    });
#elif FW_PART == 3
                // Random values: within the limits, in all cells, and no-data if the limits are
                auto const uniform = [&]<typename E>(std::type_identity<E>)
                {
                    std::vector<E> const limits = std::is_unsigned_v<E> ? std::vector<E>{E(0), E(3), E(9)} : std::vector<E>{E(-5), E(0), E(3)};
                    add_layouts(std::string{"uniform "} + lue::as_string<E>, 5, 7, [=](mc::Rec& rec, Plan const& plan, Layout const& l)
                        {
                            for (std::size_t i = 0; i < 4; ++i)
                            {
                                for (std::size_t k = 0; k < 4; ++k)
                                {
                                    E const low = i < 3 ? limits[i] : nd<E>();
                                    E const high = k < 3 ? limits[k] : nd<E>();
                                    bool const valid = !is_nd(low) && !is_nd(high);
                                    if (valid && !(low < high || (std::is_integral_v<E> && low == high)))
                                    {
                                        continue;  // Not allowed
                                    }
                                    auto const check = [&](E const v)
                                    { return valid ? !is_nd(v) && v >= low && (std::is_integral_v<E> ? v <= high : v < high) : is_nd(v); };
                                    auto const checks = [&](Array<E> const& array, Layout const& at) -> std::string
                                    {
                                        if (auto const s = structure<E, 2>(array, shape_of(at), pshape_of(at)); !s.empty())
                                        {
                                            return s;
                                        }
                                        std::string problem;
                                        auto const got = from_lue(array, &problem);
                                        return !problem.empty() ? problem : std::all_of(got.v.begin(), got.v.end(), check) ? "" : got.str();
                                    };
                                    explore(rec, "uniform", plan, [&]
                                        {
                                            auto const a = to_lue(numbered<std::uint8_t>(l.rows, l.cols), l.prows, l.pcols);
                                            auto problem = checks(vp::uniform(a, low, high), l) + checks(vp::uniform(a, later(low), later(high)), l);
                                            E const v = from_scalar(vp::uniform(low, high));
                                            problem += check(v) ? "" : "value: " + show(v);
                                            if (valid)
                                            {
                                                problem += checks(vp::uniform(shape_of(l), pshape_of(l), low, high), l);
                                                problem += checks(vp::uniform(shape_of(l), pshape_of(l), later(low), later(high)), l);
                                                if (auto const d = default_layout(l); l.prows == 1 && l.pcols == 1)
                                                {
                                                    problem += checks(vp::uniform(shape_of(l), low, high), d);
                                                }
                                            }
                                            return problem.empty() ? "ok" : problem;
                                        }, "ok", l.str() + ", " + show(low) + " - " + show(high));
                                }
                            }
                        }, false);
                };
                each(List<std::int32_t, std::uint64_t, float, double>{}, uniform);
                auto const normal = [&]<typename E>(std::type_identity<E>)
                {
                    add_layouts(std::string{"normal "} + lue::as_string<E>, 5, 7, [=](mc::Rec& rec, Plan const& plan, Layout const& l)
                        {
                            for (E const mean : {E(-3), E(0), nd<E>()})
                            {
                                for (E const stddev : {E(0.25), E(2), nd<E>(), E(0), E(-1)})
                                {
                                    bool const valid = !is_nd(mean) && !is_nd(stddev) && stddev > 0;
                                    // The probability of being further away than 12 standard deviations is 1e-33
                                    auto const check = [&](E const v) { return valid ? !is_nd(v) && std::abs(v - mean) < 12 * stddev : is_nd(v); };
                                    auto const checks = [&](Array<E> const& array, Layout const& at) -> std::string
                                    {
                                        if (auto const s = structure<E, 2>(array, shape_of(at), pshape_of(at)); !s.empty())
                                        {
                                            return s;
                                        }
                                        std::string problem;
                                        auto const got = from_lue(array, &problem);
                                        std::set<E> const different(got.v.begin(), got.v.end());
                                        return !problem.empty() ? problem
                                            : !std::all_of(got.v.begin(), got.v.end(), check) ? got.str()
                                            : valid && got.v.size() > 3 && different.size() < 2 ? "all the same: " + got.str()
                                                                                                : "";
                                    };
                                    explore(rec, "normal", plan, [&]
                                        {
                                            auto const a = to_lue(numbered<std::uint8_t>(l.rows, l.cols), l.prows, l.pcols);
                                            auto problem = checks(vp::normal(a, mean, stddev), l) + checks(vp::normal(a, later(mean), later(stddev)), l);
                                            if (valid || is_nd(mean) || is_nd(stddev))
                                            {
                                                E const v = from_scalar(vp::normal(mean, stddev));
                                                problem += check(v) ? "" : "value: " + show(v);
                                            }
                                            if (valid)
                                            {
                                                problem += checks(vp::normal(shape_of(l), pshape_of(l), mean, stddev), l);
                                                problem += checks(vp::normal(shape_of(l), pshape_of(l), later(mean), later(stddev)), l);
                                                if (auto const d = default_layout(l); l.prows == 1 && l.pcols == 1)
                                                {
                                                    problem += checks(vp::normal(shape_of(l), mean, stddev), d);
                                                }
                                            }
                                            return problem.empty() ? "ok" : problem;
                                        }, "ok", l.str() + ", " + show(mean) + ", " + show(stddev));
                                }
                            }
                        }, false);
                };
                each(List<float, double>{}, normal);
#endif
            }
        };

        Register const registered{};

    }  // namespace
}  // namespace p23
