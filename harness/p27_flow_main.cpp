// P27: see p27_flow.hpp
#define MC_BATCH 2
#define MC_TIMEOUT 300
#include "p27_flow.hpp"

using namespace p27;

namespace {

    // Sets of networks. In each cell of the array one out of a number of directions.
    auto directions(std::string const& set, long rows, long cols, long cell) -> std::vector<D>
    {
        std::vector<D> result;
        for (D const d : {sink, D(1), D(2), D(3), D(4), D(6), D(7), D(8), D(9)})
        {
            Grid<D> g(rows, cols);
            g.v[static_cast<std::size_t>(cell)] = d;
            if (set == "all" || to(g, cell) != -2)
            {
                result.push_back(d);
            }
        }
        if (set != "full")  // Every cell drains within the array
        {
            result.push_back(no_flow());
        }
        return result;
    }

    struct Networks
    {
            std::string set;
            long rows, cols;
            std::string tier;  // many: quick for the operations this holds for
    };

    auto const all_networks = std::vector<Networks>{
        {"all", 1, 1, ""},
        {"all", 1, 2, ""},
        {"all", 2, 1, ""},
        {"all", 1, 3, "many"},
        {"all", 3, 1, "many"},
        {"within", 2, 2, ""},
        {"all", 2, 2, "many"},
        {"within", 1, 4, "many"},
        {"within", 4, 1, "many"},
        {"within", 2, 3, "many"},
        {"within", 3, 2, "many"},
        {"within", 2, 4, "thorough many"},
        {"within", 4, 2, "thorough many"},
        {"full", 3, 3, "thorough many"}};

    auto nr(Networks const& n) -> long
    {
        long result = 1;
        for (long i = 0; i < n.rows * n.cols; ++i)
        {
            result *= static_cast<long>(directions(n.set, n.rows, n.cols, i).size());
        }
        return result;
    }

    auto layouts(long rows, long cols) -> std::vector<Layout>
    {
        std::vector<Layout> result{{rows, cols, 1, 1}};
        if (rows * cols > 1)
        {
            result.push_back({rows, cols, rows, cols});
        }
        if (rows > 1 && cols > 1)
        {
            result.push_back({rows, cols, rows, 1});
            result.push_back({rows, cols, 1, cols});
        }
        if (cols > 2)
        {
            result.push_back({rows, cols, 1, 2});
        }
        if (rows > 2)
        {
            result.push_back({rows, cols, 2, 1});
        }
        return result;
    }

    // Networks in larger arrays
    auto patterns(long rows, long cols) -> std::vector<Grid<D>>
    {
        std::vector<Grid<D>> result;
        auto add = [&](auto const& direction)
        {
            Grid<D> g(rows, cols);
            for (long r = 0; r < rows; ++r)
            {
                for (long c = 0; c < cols; ++c)
                {
                    g.v[static_cast<std::size_t>(r * cols + c)] = direction(r, c);
                }
            }
            if (order(g) && std::none_of(result.begin(), result.end(), [&](auto const& o) { return o.v == g.v; }))
            {
                result.push_back(g);
            }
        };
        auto step = [](long dr, long dc) { return static_cast<D>(5 - 3 * dr + dc); };
        auto sign = [](long v) -> long { return v > 0 ? 1 : v < 0 ? -1 : 0; };
        // Towards a cell, all others drain into it
        for (long sr : {0L, rows / 2, rows - 1})
        {
            for (long sc : {0L, cols / 2, cols - 1})
            {
                add([&](long r, long c) { return step(sign(sr - r), sign(sc - c)); });
                // First along the row, then along the column
                add([&](long r, long c) { return c != sc ? step(0, sign(sc - c)) : step(sign(sr - r), 0); });
            }
        }
        // In one direction, out of the array
        for (D const d : {1, 2, 3, 4, 6, 7, 8, 9})
        {
            add([&](long, long) { return d; });
        }
        // A single stream that visits all cells: boustrophedon, by row and by column, both ways
        add([&](long r, long c) { return r % 2 == 0 ? (c == cols - 1 ? D(2) : D(6)) : (c == 0 ? D(2) : D(4)); });
        add([&](long r, long c) { return r % 2 == 0 ? (c == 0 ? (r == 0 ? sink : D(8)) : D(4)) : (c == cols - 1 ? D(8) : D(6)); });
        add([&](long r, long c) { return c % 2 == 0 ? (r == rows - 1 ? D(6) : D(2)) : (r == 0 ? D(6) : D(8)); });
        // Spirals: inwards (clockwise)
        add(
            [&](long r, long c)
            {
                long const k = std::min({r, c, rows - 1 - r, cols - 1 - c});
                long const r0 = k, r1 = rows - 1 - k, c0 = k, c1 = cols - 1 - k;
                if (r0 == r1)
                {
                    return c < c1 ? D(6) : sink;
                }
                if (c0 == c1)
                {
                    return r < r1 ? D(2) : sink;
                }
                if (r == r0 && c < c1)
                {
                    return D(6);
                }
                if (c == c1 && r < r1)
                {
                    return D(2);
                }
                if (r == r1 && c > c0)
                {
                    return D(4);
                }
                // Left column, upwards, until the cell below the start of this ring
                if (r > r0 + 1)
                {
                    return D(8);
                }
                return c1 > c0 + 1 && r1 > r0 + 1 ? D(6) : sink;
            });
        // A comb, zigzags and pits, with and without no-data
        add([&](long r, long c) { return r == rows - 1 ? (c == cols - 1 ? sink : D(6)) : (c % 2 == 0 ? D(2) : c < cols - 1 ? D(3) : D(2)); });
        add([&](long r, long c) { return (r + c) % 3 == 2 ? sink : (r + c) % 3 == 1 && c + 1 < cols ? D(6) : r + 1 < rows ? D(2) : sink; });
        add(
            [&](long r, long c)
            { return (r * 2 + c) % 5 == 4 ? no_flow() : c + 1 < cols && (r * 2 + c + 1) % 5 != 4 ? D(6) : r + 1 < rows && (r * 2 + 2 + c) % 5 != 4 ? D(2) : sink; });
        add([&](long r, long c) { return r % 2 == 0 ? (c % 2 == 0 ? D(3) : D(1)) : (c % 2 == 0 ? D(1) : D(3)); });
        add([&](long, long) { return no_flow(); });
        return result;
    }

}  // namespace

void enumerate(std::string const& tier, mc::Emit const& emit)
{
    bool const thorough = tier == "thorough";
    for (auto const& op : ops())
    {
        for (std::size_t k = 0; k < all_networks.size(); ++k)
        {
            auto const& n = all_networks[k];
            if ((n.tier == "thorough" && !thorough) || (n.tier == "many" && !thorough && !op.many) || (n.tier == "thorough many" && !(thorough && op.many)))
            {
                continue;
            }
            long const total = nr(n);
            long const step = total > 100000 ? 20000 : 1000;
            for (long i = 0; i < total; i += step)
            {
                emit(std::format("{}|{}|networks|{}|{}|{}", tier, op.name, k, i, std::min(i + step, total)));
            }
        }
        // What can be around a cell: no-data, draining into it, or not
        if (op.many)
        {
            for (long i = 0; i < 9; ++i)
            {
                for (long j = 0; j < 3; ++j)
                {
                    emit(std::format("{}|{}|windows|{}|{}", tier, op.name, i, j));
                }
            }
        }
        for (long r = 1; r <= 7; ++r)
        {
            for (long c = 1; c <= 7; ++c)
            {
                if (op.focal ? r >= 3 && c >= 3 && (thorough || (r != 5 && c != 5)) : r <= (thorough ? 6 : 4) && c <= (thorough ? 6 : 4))
                {
                    emit(std::format("{}|{}|layout|{}|{}", tier, op.name, r, c));
                }
            }
        }
    }
    for (auto const& op : ops())
    {
        for (auto const& [rows, cols] : {std::pair{1L, 2L}, {1L, 3L}, {2L, 2L}, {2L, 3L}})
        {
            long const size = op.focal ? 3 : 1;
            for (std::size_t i = 0; i < patterns(rows * size, cols * size).size(); ++i)
            {
                for (std::string kind : {"schedule", "preempt"})
                {
                    bool const one = rows == 1;
                    bool const quick = op.focal ? one && cols == 2 && i == 1 && kind == "schedule"
                                       : op.many ? (one ? i % 2 == 1 : rows == 2 && cols == 2 && i % 4 == 1 && kind == "schedule")
                                                 : one && i == 1;
                    bool const deep = op.focal ? cols == 2 && i < 6 && (one || kind == "schedule") : op.many || one || (cols == 2 && i % 3 == 1);
                    if (quick || (thorough && deep))
                    {
                        emit(std::format("{}|{}|{}|{}|{}|{}|1", tier, op.name, kind, rows, cols, i));
                    }
                    if (thorough && !op.focal && cols * rows < 4 && i % 3 == 1 && op.many)
                    {
                        emit(std::format("{}|{}|{}|{}|{}|{}|2", tier, op.name, kind, rows, cols, i));
                    }
                }
            }
        }
    }
}

void run(std::string const& c, mc::Rec& rec)
{
    auto const w = mc::words(c, '|');
    bool const thorough = w[0] == "thorough";
    auto const op = std::find_if(ops().begin(), ops().end(), [&](auto const& o) { return o.name == w[1]; });
    if (w[2] == "networks")
    {
        auto const& n = all_networks[std::stoul(w[3])];
        std::vector<std::vector<D>> alphabet;
        for (long i = 0; i < n.rows * n.cols; ++i)
        {
            alphabet.push_back(directions(n.set, n.rows, n.cols, i));
        }
        auto const all_layouts = layouts(n.rows, n.cols);
        for (long i = std::stol(w[4]); i < std::stol(w[5]); ++i)
        {
            Grid<D> g(n.rows, n.cols);
            long k = i;
            for (std::size_t j = 0; j < g.v.size(); ++j)
            {
                g.v[j] = alphabet[j][static_cast<std::size_t>(k) % alphabet[j].size()];
                k /= static_cast<long>(alphabet[j].size());
            }
            if (!order(g))
            {
                continue;
            }
            for (std::size_t j = 0; j < all_layouts.size(); ++j)
            {
                auto const& l = all_layouts[j];
                Plan plan;
                plan.localities = {l.nr_partitions() > 1 ? 1 + static_cast<int>((static_cast<std::size_t>(i) + j) % 2) : 1};
                plan.both_orders = false;
                op->run(rec, plan, l, g, i);
            }
        }
    }
    else if (w[2] == "windows")
    {
        long const focal = std::stol(w[3]);
        for (long i = std::stol(w[4]); i < 6561; i += 3)
        {
            Grid<D> g(3, 3);
            long k = i;
            for (long j = 0; j < 9; ++j)
            {
                if (j == 4)
                {
                    g.v[4] = static_cast<D>(focal + 1);
                    continue;
                }
                // Direction from the cell to the focal cell, or in the opposite direction
                D const d = static_cast<D>(5 + 3 * (j / 3 - 1) - (j % 3 - 1));
                g.v[static_cast<std::size_t>(j)] = k % 3 == 0 ? no_flow() : k % 3 == 1 ? d : static_cast<D>(10 - d);
                k /= 3;
            }
            if (order(g))
            {
                Plan plan;
                plan.localities = {1};
                plan.both_orders = false;
                op->run(rec, plan, {3, 3, 3, 3}, g, i);
            }
        }
    }
    else if (w[2] == "layout")
    {
        long const rows = std::stol(w[3]), cols = std::stol(w[4]);
        auto const networks = patterns(rows, cols);
        for (long pr = op->focal ? 3 : 1; pr <= rows; ++pr)
        {
            for (long pc = op->focal ? 3 : 1; pc <= cols; ++pc)
            {
                Layout const l{rows, cols, pr, pc};
                for (std::size_t i = 0; i < networks.size(); ++i)
                {
                    Plan plan;
                    plan.localities = {1, 2, 3};
                    std::erase_if(plan.localities, [&](int k) { return k > l.nr_partitions(); });
                    if (!thorough && !op->many && plan.localities.size() > 1)
                    {
                        plan.localities = {plan.localities[i % plan.localities.size()]};
                    }
                    op->run(rec, plan, l, networks[i], static_cast<long>(i));
                }
            }
        }
    }
    else
    {
        long const rows = std::stol(w[3]), cols = std::stol(w[4]);
        auto const i = std::stoul(w[5]);
        long const size = op->focal ? 3 : 1;
        auto const g = patterns(rows * size, cols * size).at(i);
        Plan plan;
        plan.localities = {1, 2};
        plan.deviations = std::stoi(w[6]);
        plan.preempt = w[2] == "preempt";
        plan.max_schedules = thorough ? 200000 : 50000;
        op->run(rec, plan, {rows * size, cols * size, size, size}, g, 0);
    }
}

auto crash_key(std::string const& c) -> std::string
{
    return mc::words(c, '|')[1];
}

MC_MAIN
