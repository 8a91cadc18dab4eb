// P26: global and zonal operations, clumps, identifiers and reclassification. Registry of operations; each part of
// the operations is compiled on its own (-DFW_PART).
#pragma once
#include "fw.hpp"
#include <map>
#include <set>

namespace p26 {

    using namespace fw;

    struct Op
    {
            std::string name;
            // Kinds of runs: "values <first> <last>", "layout <rows> <cols> <prows> <pcols>", "schedule", "preempt"
            std::function<void(mc::Rec&, std::vector<std::string> const&, std::string const& tier)> run;
            long nr_values;  // Number of grids in all "values" runs
            long step;       // Number of them in one case
            long nr_values_thorough{0};
            std::string values{"values"};
            bool more{true};  // Layouts and schedules as well
    };

    inline auto ops() -> std::vector<Op>&
    {
        static std::vector<Op> v;
        return v;
    }

    // The n-th grid over an alphabet
    template<typename E>
    auto nth(long rows, long cols, long n, std::vector<E> const& alphabet) -> Grid<E>
    {
        Grid<E> g(rows, cols);
        long const k = static_cast<long>(alphabet.size());
        for (auto& v : g.v)
        {
            v = alphabet[static_cast<std::size_t>(n % k)];
            n /= k;
        }
        return g;
    }

    template<typename E>
    auto cycle(long rows, long cols, long a, long b, std::vector<E> const& alphabet) -> Grid<E>
    {
        Grid<E> g(rows, cols);
        for (long i = 0; i < g.size(); ++i)
        {
            g.v[static_cast<std::size_t>(i)] = alphabet[static_cast<std::size_t>((i * i + a * i + b) % static_cast<long>(alphabet.size()))];
        }
        return g;
    }

    inline auto power(long base, long n) -> long
    {
        return n == 0 ? 1 : base * power(base, n - 1);
    }

    struct Layout
    {
            long rows, cols, prows, pcols;

            auto nr_partitions() const -> long
            {
                return (rows / prows) * (cols / pcols);
            }
    };

    inline auto localities(Layout const& l, std::vector<int> wanted) -> std::vector<int>
    {
        std::erase_if(wanted, [&](int k) { return k > l.nr_partitions(); });
        return wanted;
    }

    // Runs f on every layout and plan of a kind of run; f(plan, layout, n), n: number of the grid, or -1 - variant
    template<typename F>
    void runs(std::vector<std::string> const& kind, std::string const& tier, long rows, long cols, F const& f)
    {
        if (kind[0].starts_with("values"))
        {
            std::vector<Layout> layouts{{rows, cols, 1, 1}, {rows, cols, rows, cols}};
            if (cols > 2)
            {
                layouts.push_back({rows, cols, rows, 1});
            }
            if (rows > 1 && cols > 1)
            {
                layouts.push_back({rows, cols, 1, 2});
            }
            for (long n = std::stol(kind[1]); n < std::stol(kind[2]); ++n)
            {
                for (std::size_t i = 0; i < layouts.size(); ++i)
                {
                    Plan plan;
                    plan.localities = localities(layouts[i], {1 + static_cast<int>((n + static_cast<long>(i)) % 2)});
                    if (plan.localities.empty())
                    {
                        plan.localities = {1};
                    }
                    plan.both_orders = false;
                    f(plan, layouts[i], n);
                }
            }
        }
        else if (kind[0] == "layout")
        {
            Layout const l{std::stol(kind[1]), std::stol(kind[2]), std::stol(kind[3]), std::stol(kind[4])};
            Plan plan;
            plan.localities = localities(l, {1, 2, 3});
            for (long variant = 0; variant < 4; ++variant)
            {
                f(plan, l, -1 - variant);
            }
        }
        else
        {
            Layout const l{2, 3, 1, 1};
            Plan plan;
            plan.localities = {1, 2};
            plan.deviations = tier == "thorough" ? 2 : 1;
            plan.preempt = kind[0] == "preempt";
            plan.max_schedules = tier == "thorough" ? 300000 : 100000;
            f(plan, l, -1);
        }
    }

    // A grid of a run
    template<typename E>
    auto grid(Layout const& l, long n, std::vector<E> const& alphabet, long salt = 0) -> Grid<E>
    {
        return n >= 0 ? nth(l.rows, l.cols, n, alphabet) : cycle(l.rows, l.cols, salt + 1 - n, salt - n / 2, alphabet);
    }

    inline auto where(std::string const& name, std::string const& in, Layout const& l) -> std::string
    {
        return std::format("{} of {} in {}x{} partitions", name, in, l.prows, l.pcols);
    }

    // One value for a whole array
    template<typename E, typename R, typename F, typename O>
    void global(std::string const& op_name, F f, O oracle, std::vector<E> alphabet = {}, double tolerance = 0)
    {
        auto const name = op_name + "(" + lue::as_string<E> + ")";
        if (alphabet.empty())
        {
            alphabet = {nd<E>(), E(0), E(1), E(5)};
        }
        ops().push_back(
            {name,
             [=](mc::Rec& rec, std::vector<std::string> const& kind, std::string const& tier)
             {
                 runs(
                     kind,
                     tier,
                     2,
                     3,
                     [&](Plan const& plan, Layout const& l, long n)
                     {
                         auto const g = grid(l, n, alphabet);
                         std::vector<E> valid;
                         for (E const v : g.v)
                         {
                             if (!is_nd(v))
                             {
                                 valid.push_back(v);
                             }
                         }
                         R const want = valid.empty() ? nd<R>() : oracle(valid);
                         explore(
                             rec,
                             op_name,
                             plan,
                             [&]
                             {
                                 R const got = from_scalar(f(to_lue(g, l.prows, l.pcols)));
                                 return same(got, want, tolerance) ? show(want) : show(got);
                             },
                             show(want),
                             where(name, g.str(), l));
                     });
             },
             power(static_cast<long>(alphabet.size()), 6),
             256});
    }

    // One value for each zone. f(array, zones). Values in the zone that take part -> result
    template<typename E, typename Z, typename R, typename F, typename O>
    void zonal(std::string const& op_name, F f, O oracle, std::vector<E> alphabet = {}, double tolerance = 0)
    {
        auto const name = op_name + "(" + lue::as_string<E> + ", " + lue::as_string<Z> + ")";
        if (alphabet.empty())
        {
            alphabet = {nd<E>(), E(3), E(5)};
        }
        std::vector<Z> const zone_alphabet{nd<Z>(), Z(1), Z(2)};
        long const nr_grids = power(static_cast<long>(alphabet.size()), 4);
        ops().push_back(
            {name,
             [=](mc::Rec& rec, std::vector<std::string> const& kind, std::string const& tier)
             {
                 runs(
                     kind,
                     tier,
                     2,
                     2,
                     [&](Plan const& plan, Layout const& l, long n)
                     {
                         auto const g = grid(l, n < 0 ? n : n % nr_grids, alphabet);
                         auto const z = grid(l, n < 0 ? n : n / nr_grids, zone_alphabet, 5);
                         std::map<Z, std::vector<E>> values;
                         for (std::size_t i = 0; i < g.v.size(); ++i)
                         {
                             if (!is_nd(g.v[i]) && !is_nd(z.v[i]))
                             {
                                 values[z.v[i]].push_back(g.v[i]);
                             }
                         }
                         Grid<R> want(l.rows, l.cols);
                         for (std::size_t i = 0; i < g.v.size(); ++i)
                         {
                             want.v[i] = is_nd(z.v[i]) || !values.contains(z.v[i]) ? nd<R>() : R(oracle(values[z.v[i]]));
                         }
                         fw::check<R>(
                             rec,
                             op_name,
                             plan,
                             [&] { return f(to_lue(g, l.prows, l.pcols), to_lue(z, l.prows, l.pcols)); },
                             want,
                             where(name, g.str() + " by zones " + z.str(), l),
                             tolerance);
                     });
             },
             nr_grids * power(3, 4),
             243});
    }

    // Anything else: the output is compared with observe(f(array), grid, layout) == "ok"
    template<typename E, typename F>
    void other(
        std::string const& op_name, long rows, long cols, std::vector<E> alphabet, F observe, long step, bool thorough_only = false,
        bool more = true)
    {
        auto const name = op_name + "(" + lue::as_string<E> + ")";
        long const nr = power(static_cast<long>(alphabet.size()), rows * cols);
        ops().push_back(
            {name + (more ? "" : std::format(" {}x{} of {}", rows, cols, alphabet.size())),
             [=](mc::Rec& rec, std::vector<std::string> const& kind, std::string const& tier)
             {
                 runs(
                     kind,
                     tier,
                     rows,
                     cols,
                     [&](Plan const& plan, Layout const& l, long n)
                     {
                         auto const g = grid(l, n, alphabet);
                         explore(rec, op_name, plan, [&] { return observe(g, l); }, "ok", where(name, g.str(), l));
                     });
             },
             thorough_only ? 0 : nr,
             step,
             nr,
             "values",
             more});
    }

}  // namespace p26
