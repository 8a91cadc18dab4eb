// P26: see p26_global.hpp
#include "p26_global.hpp"
#if FW_PART == 0
#include "lue/framework/algorithm/definition/maximum.hpp"
#include "lue/framework/algorithm/definition/minimum.hpp"
#include "lue/framework/algorithm/definition/sum.hpp"
#include "lue/framework/algorithm/value_policies/all.hpp"
#include "lue/framework/algorithm/value_policies/maximum.hpp"
#include "lue/framework/algorithm/value_policies/minimum.hpp"
#include "lue/framework/algorithm/value_policies/none.hpp"
#include "lue/framework/algorithm/value_policies/sum.hpp"
#include "lue/framework/algorithm/any.hpp"
#elif FW_PART == 1
#include "lue/framework/algorithm/definition/zonal_maximum.hpp"
#include "lue/framework/algorithm/definition/zonal_minimum.hpp"
#include "lue/framework/algorithm/definition/zonal_sum.hpp"
#include "lue/framework/algorithm/value_policies/zonal_maximum.hpp"
#include "lue/framework/algorithm/value_policies/zonal_minimum.hpp"
#include "lue/framework/algorithm/value_policies/zonal_sum.hpp"
#elif FW_PART == 2
#include "lue/framework/algorithm/definition/zonal_majority.hpp"
#include "lue/framework/algorithm/definition/zonal_mean.hpp"
#include "lue/framework/algorithm/value_policies/zonal_majority.hpp"
#include "lue/framework/algorithm/value_policies/zonal_mean.hpp"
#elif FW_PART == 3
#include "lue/framework/algorithm/definition/zonal_area.hpp"
#include "lue/framework/algorithm/definition/zonal_diversity.hpp"
#include "lue/framework/algorithm/value_policies/zonal_area.hpp"
#include "lue/framework/algorithm/value_policies/zonal_diversity.hpp"
#elif FW_PART == 4
#include "lue/framework/algorithm/definition/clump.hpp"
#include "lue/framework/algorithm/value_policies/clump.hpp"
#elif FW_PART == 5
#include "lue/framework/algorithm/definition/reclassify.hpp"
#include "lue/framework/algorithm/definition/unique.hpp"
#include "lue/framework/algorithm/definition/unique_id.hpp"
#include "lue/framework/algorithm/definition/zonal_normal.hpp"
#include "lue/framework/algorithm/definition/zonal_uniform.hpp"
#include "lue/framework/algorithm/value_policies/reclassify.hpp"
#include "lue/framework/algorithm/value_policies/unique.hpp"
#include "lue/framework/algorithm/value_policies/unique_id.hpp"
#include "lue/framework/algorithm/value_policies/zonal_normal.hpp"
#include "lue/framework/algorithm/value_policies/zonal_uniform.hpp"
#elif FW_PART == 6
#include "lue/framework/algorithm/definition/normal.hpp"
#include "lue/framework/algorithm/definition/uniform.hpp"
#include "lue/framework/algorithm/value_policies/normal.hpp"
#include "lue/framework/algorithm/value_policies/uniform.hpp"
#endif
#include <numeric>

namespace p26 {
    namespace {

        namespace vp = lue::value_policies;

        using B = std::uint8_t;

        template<typename... T>
        struct List
        {
        };

        template<typename... T, typename F>
        void each(List<T...>, F const& f)
        {
            (f(std::type_identity<T>{}), ...);
        }

#define GLOBAL(op) [](auto const& a) { return vp::op(a); }
#define ZONAL(op) [](auto const& a, auto const& z) { return vp::op(a, z); }

        template<typename E>
        auto sum_of(std::vector<E> const& v) -> E
        {
            return std::accumulate(v.begin(), v.end(), E{0});
        }

        template<typename E>
        auto min_of(std::vector<E> const& v) -> E
        {
            return *std::min_element(v.begin(), v.end());
        }

        template<typename E>
        auto max_of(std::vector<E> const& v) -> E
        {
            return *std::max_element(v.begin(), v.end());
        }

        // Largest of the most frequent ones
        template<typename E>
        auto majority_of(std::vector<E> const& v) -> E
        {
            std::map<E, int> n;
            for (E const x : v)
            {
                ++n[x];
            }
            auto best = n.begin();
            for (auto it = n.begin(); it != n.end(); ++it)
            {
                if (it->second >= best->second)
                {
                    best = it;
                }
            }
            return best->first;
        }

        template<typename E>
        auto numbers() -> std::vector<E>
        {
            if constexpr (std::is_signed_v<E>)
            {
                return {nd<E>(), E(-3), E(0), E(4)};
            }
            else
            {
                return {nd<E>(), E(0), E(1), E(5)};
            }
        }

        // Numbers of the connected components
        template<typename E>
        auto components(Grid<E> const& g, bool diagonal) -> Grid<int>
        {
            Grid<int> id(g.rows, g.cols, -1);
            int nr = 0;
            for (long r = 0; r < g.rows; ++r)
            {
                for (long c = 0; c < g.cols; ++c)
                {
                    if (is_nd(g(r, c)) || id(r, c) >= 0)
                    {
                        continue;
                    }
                    std::vector<std::pair<long, long>> todo{{r, c}};
                    id(r, c) = nr;
                    while (!todo.empty())
                    {
                        auto const [y, x] = todo.back();
                        todo.pop_back();
                        for (long dy = -1; dy <= 1; ++dy)
                        {
                            for (long dx = -1; dx <= 1; ++dx)
                            {
                                if ((diagonal || dy == 0 || dx == 0) && g.inside(y + dy, x + dx) && id(y + dy, x + dx) < 0 &&
                                    g(y + dy, x + dx) == g(r, c))
                                {
                                    id(y + dy, x + dx) = nr;
                                    todo.emplace_back(y + dy, x + dx);
                                }
                            }
                        }
                    }
                    ++nr;
                }
            }
            return id;
        }

        template<typename E>
        auto compare_clumps(Grid<E> const& g, Grid<E> const& got, bool diagonal) -> std::string
        {
            auto const want = components(g, diagonal);
            std::map<E, int> to_want;
            std::map<int, E> to_got;
            for (std::size_t i = 0; i < g.v.size(); ++i)
            {
                if (is_nd(g.v[i]) != is_nd(got.v[i]))
                {
                    return "wrong cells without clump: " + got.str();
                }
                if (!is_nd(g.v[i]))
                {
                    auto const a = to_want.emplace(got.v[i], want.v[i]);
                    auto const b = to_got.emplace(want.v[i], got.v[i]);
                    if (a.first->second != want.v[i])
                    {
                        return "cells that are not connected are in the same clump: " + got.str();
                    }
                    if (b.first->second != got.v[i])
                    {
                        return "connected cells are not in the same clump: " + got.str();
                    }
                }
            }
            return "ok";
        }

        // Grids of rows x cols cells, n of them next to and n below each other, with no-data in between
        template<typename E>
        auto packed(long rows, long cols, long first, long n, std::vector<E> const& alphabet) -> Grid<E>
        {
            Grid<E> g(n * (rows + 1) - 1, n * (cols + 1) - 1, nd<E>());
            for (long i = 0; i < n * n; ++i)
            {
                auto const one = nth(rows, cols, first + i, alphabet);
                for (long r = 0; r < rows; ++r)
                {
                    for (long c = 0; c < cols; ++c)
                    {
                        g((i / n) * (rows + 1) + r, (i % n) * (cols + 1) + c) = one(r, c);
                    }
                }
            }
            return g;
        }

        struct Register
        {
            Register()
            {
#if FW_PART == 0
                each(List<std::int32_t, std::uint32_t, std::int64_t, std::uint64_t, float, double>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        global<E, E>("sum", GLOBAL(sum), [](auto const& v) { return sum_of(v); }, numbers<E>(), 1e-6);
                        global<E, E>("minimum", GLOBAL(minimum), [](auto const& v) { return min_of(v); }, numbers<E>());
                        global<E, E>("maximum", GLOBAL(maximum), [](auto const& v) { return max_of(v); }, numbers<E>());
                    });
                // Largest and smallest values
                each(List<B, std::int32_t, std::uint64_t, double>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        using L = std::numeric_limits<E>;
                        E const low = std::is_floating_point_v<E> || std::is_unsigned_v<E> ? L::lowest() : E(L::lowest() + 1);
                        E const high = std::is_unsigned_v<E> ? E(L::max() - 1) : L::max();
                        global<E, E>("minimum of extremes", GLOBAL(minimum), [](auto const& v) { return min_of(v); }, {nd<E>(), low, high});
                        global<E, E>("maximum of extremes", GLOBAL(maximum), [](auto const& v) { return max_of(v); }, {nd<E>(), low, high});
                    });
                global<B, B>("all", GLOBAL(all), [](auto const& v) { return B(min_of(v)); }, {nd<B>(), B(0), B(1)});
                global<B, B>("none", GLOBAL(none), [](auto const& v) { return B(!max_of(v)); }, {nd<B>(), B(0), B(1)});
                global<B, B>("any", [](Array<B> const& a)
                    { return lue::unary_aggregate_operation(lue::policy::all::DefaultValuePolicies<B>{}, a, lue::detail::Any<B>{}); },
                    [](auto const& v) { return B(max_of(v)); }, {nd<B>(), B(0), B(1)});
#elif FW_PART == 1
                each(List<std::int32_t, std::uint64_t, double>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        zonal<E, std::int32_t, E>("zonal_sum", ZONAL(zonal_sum), [](auto const& v) { return sum_of(v); });
                        zonal<E, std::uint32_t, E>("zonal_minimum", ZONAL(zonal_minimum), [](auto const& v) { return min_of(v); });
                        zonal<E, std::int64_t, E>("zonal_maximum", ZONAL(zonal_maximum), [](auto const& v) { return max_of(v); });
                    });
#elif FW_PART == 2
                each(List<float, double>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        zonal<E, std::uint8_t, E>("zonal_mean", ZONAL(zonal_mean),
                            [](auto const& v) { return sum_of(v) / static_cast<E>(v.size()); }, {}, 1e-6);
                    });
                each(List<std::int32_t, std::uint64_t>{}, [&]<typename E>(std::type_identity<E>)
                    { zonal<E, std::uint64_t, E>("zonal_majority", ZONAL(zonal_majority), [](auto const& v) { return majority_of(v); }, {nd<E>(), E(3), E(5)}); });
#elif FW_PART == 3
                each(List<std::int32_t, std::uint64_t>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        zonal<E, std::int32_t, std::uint32_t>("zonal_diversity", [](auto const& a, auto const& z)
                            { return vp::zonal_diversity<std::uint32_t>(a, z); },
                            [](auto const& v) { return static_cast<std::uint32_t>(std::set<E>(v.begin(), v.end()).size()); });
                    });
                // The array of values is not used
                zonal<std::int32_t, std::int32_t, std::uint64_t>("zonal_area", [](auto const&, auto const& z)
                    { return vp::zonal_area<std::uint64_t>(z); }, [](auto const& v) { return v.size(); }, {1});
                zonal<std::int32_t, std::uint64_t, std::uint32_t>("zonal_area", [](auto const&, auto const& z)
                    { return vp::zonal_area<std::uint32_t>(z); }, [](auto const& v) { return v.size(); }, {1});
#elif FW_PART == 4
                each(List<std::int32_t, std::uint64_t>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        for (bool const diagonal : {false, true})
                        {
                            auto const kind = diagonal ? "clump diagonal" : "clump nondiagonal";
                            auto const observe = [=](Grid<E> const& g, Layout const& l) -> std::string
                            {
                                std::string problem;
                                auto const got = from_lue(
                                    vp::clump(to_lue(g, l.prows, l.pcols), diagonal ? lue::Connectivity::diagonal : lue::Connectivity::nondiagonal),
                                    &problem);
                                return problem.empty() ? compare_clumps(g, got, diagonal) : problem;
                            };
                            other<E>(kind, 2, 3, {nd<E>(), E(1), E(2)}, observe, 243);
                            if constexpr (std::is_signed_v<E>)
                            {
                                other<E>(kind, 3, 3, {nd<E>(), E(1), E(2)}, observe, 500, false, false);
                                other<E>(kind, 3, 4, {nd<E>(), E(1)}, observe, 256, false, false);
                                other<E>(kind, 4, 4, {E(1), E(2)}, observe, 1024, false, false);
                                other<E>(kind, 4, 5, {nd<E>(), E(1)}, observe, 1024, true, false);
                            }
                        }
                    });
#elif FW_PART == 5
                each(List<std::int32_t, std::uint8_t>{}, [&]<typename C>(std::type_identity<C>)
                    {
                        other<C>("unique_id", 2, 3, {nd<C>(), C(0), C(1)}, [](Grid<C> const& g, Layout const& l) -> std::string
                            {
                                std::string problem;
                                auto const got = from_lue(vp::unique_id<std::uint64_t>(to_lue(g, l.prows, l.pcols)), &problem);
                                std::set<std::uint64_t> ids;
                                bool all_true = true;
                                for (std::size_t i = 0; i < g.v.size(); ++i)
                                {
                                    all_true = all_true && !is_nd(g.v[i]) && g.v[i];
                                    if (is_nd(g.v[i]) ? !is_nd(got.v[i]) : g.v[i] ? is_nd(got.v[i]) || !got.v[i] || !ids.insert(got.v[i]).second : got.v[i] != 0)
                                    {
                                        return got.str();
                                    }
                                }
                                return !problem.empty() ? problem : all_true && *ids.rbegin() - *ids.begin() + 1 != ids.size() ? "not consecutive: " + got.str() : "ok";
                            }, 243);
                    });
                each(List<std::int32_t, std::uint64_t, std::uint8_t>{}, [&]<typename C>(std::type_identity<C>)
                    {
                        using To = std::conditional_t<std::is_same_v<C, std::uint8_t>, float, std::conditional_t<std::is_signed_v<C>, double, std::int32_t>>;
                        std::vector<C> const alphabet{nd<C>(), C(0), C(1), C(7)};
                        for (int table = 0; table < 16; ++table)
                        {
                            // The bits tell which values are in the table; the last one for a value that maps to no-data
                            lue::LookupTable<C, To> lut;
                            for (int i = 0; i < 3; ++i)
                            {
                                if (table & (1 << i))
                                {
                                    lut[alphabet[static_cast<std::size_t>(i + 1)]] = table & 8 && i == 1 ? nd<To>() : To(10 * i + 3);
                                }
                            }
                            if (table & 8)
                            {
                                lut[alphabet[0]] = To(99);
                            }
                            other<C>("reclassify", 2, 2, alphabet, [=](Grid<C> const& g, Layout const& l) -> std::string
                                {
                                    std::string problem;
                                    auto const a = to_lue(g, l.prows, l.pcols);
                                    auto const got = from_lue(vp::reclassify(a, lut), &problem);
                                    auto const later = from_lue(vp::reclassify(a, hpx::async([=] { return lut; }).share()), &problem);
                                    Grid<To> want(g.rows, g.cols, nd<To>());
                                    for (std::size_t i = 0; i < g.v.size(); ++i)
                                    {
                                        if (auto const it = lut.find(g.v[i]); it != lut.end() && !is_nd(g.v[i]))
                                        {
                                            want.v[i] = it->second;
                                        }
                                    }
                                    return !problem.empty() ? problem : !same(got, want) ? got.str() : !same(later, want) ? "later: " + later.str() : "ok";
                                }, 256, false, table == 7);
                            ops().back().name += std::format(" table {}", table);
                        }
                    });
                each(List<std::int32_t, std::uint64_t, std::uint8_t>{}, [&]<typename C>(std::type_identity<C>)
                    {
                        other<C>("unique", 2, 3, {nd<C>(), C(0), C(1), C(7)}, [=](Grid<C> const& g, Layout const& l) -> std::string
                            {
                                auto const got = vp::unique(to_lue(g, l.prows, l.pcols)).get();
                                std::set<C> want;
                                for (auto const v : g.v)
                                {
                                    if (!is_nd(v))
                                    {
                                        want.insert(v);
                                    }
                                }
                                return got == want ? "ok" : std::format("{} values", got.size());
                            }, 256);
                    });
                each(List<std::int32_t, std::uint64_t>{}, [&]<typename C>(std::type_identity<C>)
                    {
                        auto const check_zones = [](Grid<C> const& g, Grid<double> const& got, bool unit) -> std::string
                        {
                            std::map<C, double> values;
                            std::set<double> different;
                            for (std::size_t i = 0; i < g.v.size(); ++i)
                            {
                                if (is_nd(g.v[i]) != is_nd(got.v[i]))
                                {
                                    return "wrong cells without data: " + got.str();
                                }
                                if (!is_nd(g.v[i]))
                                {
                                    if (values.emplace(g.v[i], got.v[i]).first->second != got.v[i])
                                    {
                                        return "different values in a zone: " + got.str();
                                    }
                                    if (unit && (got.v[i] < 0 || got.v[i] >= 1))
                                    {
                                        return "value outside of [0, 1): " + got.str();
                                    }
                                    different.insert(got.v[i]);
                                }
                            }
                            // Double precision random numbers are different with certainty (almost: 2^-50)
                            return different.size() != values.size() ? "same value in different zones: " + got.str() : "ok";
                        };
                        other<C>("zonal_uniform", 2, 3, {nd<C>(), C(1), C(2)}, [=](Grid<C> const& g, Layout const& l) -> std::string
                            {
                                std::string problem;
                                auto const got = from_lue(vp::zonal_uniform<double>(to_lue(g, l.prows, l.pcols)), &problem);
                                return problem.empty() ? check_zones(g, got, true) : problem;
                            }, 243);
                        other<C>("zonal_normal", 2, 3, {nd<C>(), C(1), C(2)}, [=](Grid<C> const& g, Layout const& l) -> std::string
                            {
                                std::string problem;
                                auto const got = from_lue(vp::zonal_normal<double>(to_lue(g, l.prows, l.pcols)), &problem);
                                return problem.empty() ? check_zones(g, got, false) : problem;
                            }, 243);
                    });
#elif FW_PART == 6
#endif
            }
        };

        Register const registered{};

    }  // namespace
}  // namespace p26
