// P28: serial routes. decreasing_order and first_n (walk).
#define MC_BATCH 4
#define MC_TIMEOUT 300
#include "fw.hpp"
#include "lue/framework/algorithm/serialize/kernel.hpp"

#include "lue/framework/algorithm/definition/decreasing_order.hpp"
#include "lue/framework/algorithm/definition/first_n.hpp"
#include "lue/framework/algorithm/value_policies/decreasing_order.hpp"
#include "lue/framework/algorithm/value_policies/first_n.hpp"
#include "lue/framework/partitioned_route/serialize/serial_route_fragment.hpp"
#include "lue/framework/partitioned_route/serial_route_partition_impl.hpp"
#include "lue/framework/partitioned_route/server/serial_route_partition_impl.hpp"

using namespace fw;

namespace {

    namespace vp = lue::value_policies;

    long const everything = -1;

    struct Layout
    {
            long rows, cols, prows, pcols;

            auto nr_partitions() const -> long
            {
                return (rows / prows) * (cols / pcols);
            }
    };

    using Routes = std::map<long, std::vector<long>>;  // Per route, cells in order

    auto str(Routes const& routes) -> std::string
    {
        std::string s;
        for (auto const& [id, cells] : routes)
        {
            s += std::format("{}{}:", s.empty() ? "" : " ", id);
            for (auto const cell : cells)
            {
                s += std::format(" {}", cell);
            }
        }
        return "{" + s + "}";
    }

    // Follow the routes, from partition to partition. All fragments must be visited, each once.
    template<typename ID>
    auto follow(lue::SerialRoute<ID, 2> const& route, Grid<ID> const& g, std::string& problem) -> Routes
    {
        auto wrong = [&](std::string const& s)
        {
            if (problem.empty())
            {
                problem = s;
            }
        };
        if (static_cast<long>(route.shape()[0]) != g.rows || static_cast<long>(route.shape()[1]) != g.cols)
        {
            wrong("the shape differs from that of the array");
        }
        struct Part
        {
                long row, col, rows, cols;
                std::map<ID, std::vector<lue::SerialRouteFragment<2>>> fragments;
                std::map<ID, std::size_t> visited;
        };
        std::map<hpx::id_type, Part> parts;
        Grid<int> seen(g.rows, g.cols);
        for (auto const& partition : route.partitions())
        {
            partition.wait();
            auto const offset = partition.offset().get();
            auto const shape = partition.shape().get();
            Part p{static_cast<long>(offset[0]), static_cast<long>(offset[1]), static_cast<long>(shape[0]), static_cast<long>(shape[1]), {}, {}};
            lue::Count nr{0};
            auto const ids = partition.route_ids().get();
            if (partition.nr_routes().get() != static_cast<lue::Count>(ids.size()))
            {
                wrong("nr_routes differs from the number of routes");
            }
            for (auto const id : ids)
            {
                p.fragments[id] = partition.route_fragments(id).get();
                nr += static_cast<lue::Count>(p.fragments[id].size());
            }
            if (partition.nr_route_fragments().get() != nr)
            {
                wrong("nr_route_fragments differs from the number of fragments");
            }
            for (long r = 0; r < p.rows; ++r)
            {
                for (long c = 0; c < p.cols; ++c)
                {
                    if (!g.inside(p.row + r, p.col + c) || seen(p.row + r, p.col + c)++)
                    {
                        wrong("partitions do not divide the array");
                    }
                }
            }
            parts[partition.get_id()] = p;
        }
        if (std::find(seen.v.begin(), seen.v.end(), 0) != seen.v.end())
        {
            wrong("not all cells are in a partition");
        }
        Routes result;
        auto const starts = route.starts().get();
        for (auto const& [id, location] : starts)
        {
            auto& cells = result[static_cast<long>(id)];
            auto where = location;
            for (bool last = false; !last && problem.empty();)
            {
                auto const it = parts.find(where.get());
                if (it == parts.end())
                {
                    wrong("a fragment is in a partition that is not in the route");
                    break;
                }
                auto& p = it->second;
                if (p.visited[id] >= p.fragments[id].size())
                {
                    wrong(std::format("route {}: partition has fewer fragments than visits", static_cast<long>(id)));
                    break;
                }
                auto const& fragment = p.fragments[id][p.visited[id]++];
                for (auto const i : fragment.cell_idxs())
                {
                    if (i < 0 || i >= static_cast<lue::Index>(p.rows * p.cols))
                    {
                        wrong("a cell is outside of the partition");
                        break;
                    }
                    long const idx = static_cast<long>(i);
                    cells.push_back((p.row + idx / p.cols) * g.cols + p.col + idx % p.cols);
                }
                last = fragment.is_last();
                if (!last)
                {
                    where = fragment.next_fragment_location();
                }
            }
        }
        for (auto const& [location, p] : parts)
        {
            for (auto const& [id, fragments] : p.fragments)
            {
                if (auto const it = p.visited.find(id); it == p.visited.end() || it->second != fragments.size())
                {
                    wrong(std::format("route {}: some fragments are not reached", static_cast<long>(id)));
                }
            }
        }
        if (static_cast<std::size_t>(route.nr_routes()) != result.size())
        {
            wrong("nr_routes differs from the number of routes");
        }
        return result;
    }

    // What must hold for the routes
    template<typename ID, typename E>
    auto judge(Routes const& got, Grid<ID> const& zones, Grid<E> const& values, long n) -> std::string
    {
        std::map<long, std::vector<E>> want;
        for (long i = 0; i < zones.size(); ++i)
        {
            auto const k = static_cast<std::size_t>(i);
            if (!is_nd(zones.v[k]) && !is_nd(values.v[k]))
            {
                want[static_cast<long>(zones.v[k])].push_back(values.v[k]);
            }
        }
        if (got.size() != want.size())
        {
            return std::format("{} routes instead of {}", got.size(), want.size());
        }
        for (auto& [id, w] : want)
        {
            std::sort(w.begin(), w.end(), std::greater<>{});
            if (n != everything && static_cast<long>(w.size()) > n)
            {
                w.resize(static_cast<std::size_t>(n));
            }
            auto const it = got.find(id);
            if (it == got.end())
            {
                return std::format("no route {}", id);
            }
            std::vector<E> g;
            std::set<long> cells;
            for (auto const c : it->second)
            {
                auto const k = static_cast<std::size_t>(c);
                if (c < 0 || c >= zones.size() || is_nd(zones.v[k]) || static_cast<long>(zones.v[k]) != id || is_nd(values.v[k]))
                {
                    return std::format("cell {} must not be in route {}", c, id);
                }
                if (!cells.insert(c).second)
                {
                    return std::format("cell {} is twice in route {}", c, id);
                }
                g.push_back(values.v[k]);
            }
            if (g != w)
            {
                return std::format("route {} does not visit {} cells from high to low", id, w.size());
            }
        }
        return "ok";
    }

    template<typename ID>
    auto judge_first_n(Routes const& routes, lue::PartitionedArray<std::uint8_t, 2> const& array, Grid<ID> const& zones, long m) -> std::string
    {
        Grid<std::uint8_t> want(zones.rows, zones.cols, nd<std::uint8_t>());
        for (auto const& [id, cells] : routes)
        {
            for (std::size_t i = 0; i < cells.size() && static_cast<long>(i) < m; ++i)
            {
                want.v[static_cast<std::size_t>(cells[i])] = 1;
            }
        }
        std::string problem;
        auto const got = from_lue(array, &problem);
        return !problem.empty() ? problem : same(got, want) ? "ok" : std::format("first {}: {} instead of {}", m, got.str(), want.str());
    }

    // ms: lengths of the walks
    template<typename ID, typename E, bool zonal>
    void observe(mc::Rec& rec, Plan const& plan, Layout const& l, Grid<ID> zones, Grid<E> const& values, long n, std::vector<long> const& ms)
    {
        if (!zonal)
        {
            std::fill(zones.v.begin(), zones.v.end(), ID{0});
        }
        std::string const op = zonal ? "decreasing_order(zone, value)" : "decreasing_order(value)";
        explore(
            rec,
            op + (ms.empty() ? "" : " and first_n"),
            plan,
            [&]() -> std::string
            {
                lue::Count const max = n == everything ? std::numeric_limits<lue::Count>::max() : static_cast<lue::Count>(n);
                lue::SerialRoute<ID, 2> route;
                if constexpr (zonal)
                {
                    route = vp::decreasing_order(to_lue(zones, l.prows, l.pcols), to_lue(values, l.prows, l.pcols), max);
                }
                else
                {
                    route = vp::decreasing_order<ID>(to_lue(values, l.prows, l.pcols), max);
                }
                // Without waiting for the routes to be ready
                std::vector<lue::PartitionedArray<std::uint8_t, 2>> arrays;
                for (auto const m : ms)
                {
                    arrays.push_back(vp::first_n<std::uint8_t>(route, static_cast<lue::Count>(m)));
                }
                std::string problem;
                auto const routes = follow(route, zones, problem);
                auto result = !problem.empty() ? problem : judge(routes, zones, values, n);
                for (std::size_t i = 0; i < arrays.size() && result == "ok"; ++i)
                {
                    result = judge_first_n(routes, arrays[i], zones, ms[i]);
                }
                return result == "ok" ? result : result + ": " + str(routes);
            },
            "ok",
            std::format(
                "{} of values {}{}, at most {} cells, in {}x{} partitions",
                op,
                values.str(),
                zonal ? ", zones " + zones.str() : "",
                n,
                l.prows,
                l.pcols));
    }

    template<typename ID, typename E>
    auto convert(Grid<int> const& g) -> Grid<E>
    {
        Grid<E> result(g.rows, g.cols);
        std::transform(g.v.begin(), g.v.end(), result.v.begin(), [](int v) { return v == nd<int>() ? nd<E>() : static_cast<E>(v); });
        return result;
    }

    void observe(mc::Rec& rec, Plan const& plan, std::string const& kind, Layout const& l, Grid<int> const& zones, Grid<int> const& values, long n, std::vector<long> const& ms)
    {
        if (kind == "zones uint8 float32")
        {
            observe<std::uint8_t, float, true>(rec, plan, l, convert<int, std::uint8_t>(zones), convert<int, float>(values), n, ms);
        }
        else if (kind == "zones int32 int32")
        {
            observe<std::int32_t, std::int32_t, true>(rec, plan, l, zones, values, n, ms);
        }
        else if (kind == "zones uint64 float64")
        {
            observe<std::uint64_t, double, true>(rec, plan, l, convert<int, std::uint64_t>(zones), convert<int, double>(values), n, ms);
        }
        else if (kind == "global int32 float32")
        {
            observe<std::int32_t, float, false>(rec, plan, l, zones, convert<int, float>(values), n, ms);
        }
        else
        {
            observe<std::uint32_t, std::int32_t, false>(rec, plan, l, convert<int, std::uint32_t>(zones), values, n, ms);
        }
    }

    auto const kinds = std::vector<std::string>{
        "zones uint8 float32", "global int32 float32", "zones int32 int32", "global uint32 int32", "zones uint64 float64"};

    int const none = nd<int>();

    // What can be in a cell: {zone, value}
    auto alphabet(bool global, bool thorough) -> std::vector<std::pair<int, int>>
    {
        if (global)
        {
            return {{0, none}, {0, -2}, {0, 0}, {0, 3}, {0, 5}};
        }
        if (thorough)
        {
            return {{none, 4}, {1, none}, {1, -2}, {1, 0}, {1, 3}, {2, -2}, {2, 0}, {2, 3}};
        }
        return {{none, 4}, {1, none}, {1, -2}, {1, 3}, {2, -2}, {2, 3}};
    }

    struct Set
    {
            long rows, cols;
            bool thorough;
    };

    auto const sets = std::vector<Set>{{1, 1, false}, {1, 2, false}, {2, 1, false}, {1, 3, false}, {3, 1, false}, {2, 2, false}, {1, 4, false}, {4, 1, true}, {2, 3, true}, {1, 5, true}};

    auto layouts(long rows, long cols) -> std::vector<Layout>
    {
        std::vector<Layout> result;
        for (long r = 1; r <= rows; ++r)
        {
            for (long c = 1; c <= cols; ++c)
            {
                result.push_back({rows, cols, r, c});
            }
        }
        return result;
    }

    auto nr(Set const& s, bool global, bool thorough) -> long
    {
        long result = 1;
        for (long i = 0; i < s.rows * s.cols; ++i)
        {
            result *= static_cast<long>(alphabet(global, thorough).size());
        }
        return result;
    }

    // Larger arrays
    auto nr_patterns() -> long
    {
        return 16;
    }

    auto pattern(long rows, long cols, long i) -> std::pair<Grid<int>, Grid<int>>
    {
        Grid<int> zones(rows, cols), values(rows, cols);
        for (long r = 0; r < rows; ++r)
        {
            for (long c = 0; c < cols; ++c)
            {
                long const k = r * cols + c, n = rows * cols;
                int v = 0;
                switch (i % 8)
                {
                    case 0:
                        v = static_cast<int>(k);  // Increasing
                        break;
                    case 1:
                        v = static_cast<int>(n - k - n / 2);  // Decreasing, to below zero
                        break;
                    case 2:
                        v = 7;  // All the same
                        break;
                    case 3:
                        v = static_cast<int>((k * 7 + 3) % (n + 1)) - 3;  // All over the place
                        break;
                    case 4:
                        v = k % 3 == 1 ? none : static_cast<int>((k * 5) % 4) - 1;
                        break;
                    case 5:
                        v = r == 0 ? none : -static_cast<int>((r + c) % 3) - 1;  // Only negative
                        break;
                    case 6:
                        v = static_cast<int>(n - (2 * k % n + 2 * k / n));  // Taking turns
                        break;
                    default:
                        v = none;
                }
                int z = 0;
                switch (i % 5)
                {
                    case 0:
                        z = 1;
                        break;
                    case 1:
                        z = static_cast<int>(k % 3);
                        break;
                    case 2:
                        z = static_cast<int>(2 * r / rows * 2 + 2 * c / cols) + 1;
                        break;
                    case 3:
                        z = k % 4 == 2 ? none : static_cast<int>((r + 2 * c) % 4);
                        break;
                    default:
                        z = static_cast<int>(k) + 3;  // All different
                }
                zones(r, c) = z;
                values(r, c) = v;
            }
        }
        return {zones, values};
    }

    auto is_global(std::string const& kind) -> bool
    {
        return kind.starts_with("global");
    }

}  // namespace

void enumerate(std::string const& tier, mc::Emit const& emit)
{
    bool const thorough = tier == "thorough";
    for (std::size_t k = 0; k < kinds.size(); ++k)
    {
        for (std::size_t s = 0; s < sets.size(); ++s)
        {
            if ((sets[s].thorough && !thorough) || (k > 1 && sets[s].rows * sets[s].cols > 3))
            {
                continue;
            }
            long const total = nr(sets[s], is_global(kinds[k]), thorough);
            for (long i = 0; i < total; i += 500)
            {
                emit(std::format("{}|{}|values|{}|{}|{}", tier, kinds[k], s, i, std::min(i + 500, total)));
            }
        }
        for (long r = 1; r <= (thorough ? 6 : 4); ++r)
        {
            for (long c = 1; c <= (thorough ? 6 : 4); ++c)
            {
                emit(std::format("{}|{}|layout|{}|{}", tier, kinds[k], r, c));
            }
        }
    }
    for (std::size_t k = 0; k < kinds.size(); ++k)
    {
        for (auto const& [rows, cols, prows, pcols] : {std::array{1, 2, 1, 1}, {1, 4, 1, 2}, {1, 3, 1, 1}, {2, 2, 1, 1}})
        {
            for (long i = 0; i < nr_patterns(); ++i)
            {
                for (std::string kind : {"schedule", "preempt"})
                {
                    if (thorough || (k < 2 && (cols == 2 || i % 3 == 0 || rows == 1)))
                    {
                        emit(std::format("{}|{}|{}|{}|{}|{}|{}|{}|1", tier, kinds[k], kind, rows, cols, prows, pcols, i));
                    }
                    if ((thorough && k < 2 && (cols < 4 || i % 4 == 1)) || (k < 2 && rows == 1 && cols == 2 && i < 4 && kind == "schedule"))
                    {
                        emit(std::format("{}|{}|{}|{}|{}|{}|{}|{}|2", tier, kinds[k], kind, rows, cols, prows, pcols, i));
                    }
                }
            }
        }
    }
}

void run(std::string const& c, mc::Rec& rec)
{
    auto const w = mc::words(c, '|');
    bool const thorough = w[0] == "thorough";
    if (w[2] == "values")
    {
        auto const& s = sets[std::stoul(w[3])];
        auto const cells = alphabet(is_global(w[1]), thorough);
        auto const all_layouts = layouts(s.rows, s.cols);
        for (long i = std::stol(w[4]); i < std::stol(w[5]); ++i)
        {
            Grid<int> zones(s.rows, s.cols), values(s.rows, s.cols);
            long k = i;
            for (std::size_t j = 0; j < values.v.size(); ++j)
            {
                std::tie(zones.v[j], values.v[j]) = cells[static_cast<std::size_t>(k) % cells.size()];
                k /= static_cast<long>(cells.size());
            }
            for (std::size_t j = 0; j < all_layouts.size(); ++j)
            {
                auto const& l = all_layouts[j];
                Plan plan;
                plan.localities = {l.nr_partitions() > 1 ? 1 + static_cast<int>((static_cast<std::size_t>(i) + j) % 2) : 1};
                for (long n : {everything, 0L, 1L, 2L, 3L})
                {
                    if (n == everything || n < s.rows * s.cols)
                    {
                        observe(rec, plan, w[1], l, zones, values, n, {std::array{0L, 1L, 2L, 9L}[static_cast<std::size_t>(i + n + 1) % 4]});
                    }
                }
            }
        }
    }
    else if (w[2] == "layout")
    {
        long const rows = std::stol(w[3]), cols = std::stol(w[4]);
        for (auto const& l : layouts(rows, cols))
        {
            for (long i = 0; i < nr_patterns(); ++i)
            {
                auto const [zones, values] = pattern(rows, cols, i);
                Plan plan;
                plan.localities = {1, 2, 3};
                std::erase_if(plan.localities, [&](int k) { return k > l.nr_partitions(); });
                for (long n : {everything, 1L, rows * cols / 2, rows * cols})
                {
                    observe(rec, plan, w[1], l, zones, values, n, {rows * cols, rows * cols / 2, 1, 0});
                }
            }
        }
    }
    else
    {
        Layout const l{std::stol(w[3]), std::stol(w[4]), std::stol(w[5]), std::stol(w[6])};
        auto const i = std::stol(w[7]);
        auto const [zones, values] = pattern(l.rows, l.cols, i);
        Plan plan;
        plan.localities = {1, 2};
        plan.deviations = std::stoi(w[8]);
        plan.preempt = w[2] == "preempt";
        plan.max_schedules = thorough ? 200000 : 50000;
        observe(rec, plan, w[1], l, zones, values, everything, {});
        observe(rec, plan, w[1], l, zones, values, l.rows * l.cols / 2, {});
        observe(rec, plan, w[1], l, zones, values, everything, {1 + i % 2 * (l.cols - 1)});
    }
}

auto crash_key(std::string const& c) -> std::string
{
    auto const w = mc::words(c, '|');
    return is_global(w[1]) ? "decreasing_order(value) and first_n" : "decreasing_order(zone, value) and first_n";
}

MC_MAIN
