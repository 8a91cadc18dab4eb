// P23: structure of partitioned arrays, and all ways to create one. Registry of operations; each part is compiled on
// its own (-DFW_PART).
#pragma once
#include "fw.hpp"
#include <map>
#include <set>

namespace p23 {

    using namespace fw;

    using lue::Count;
    using lue::Index;
    using lue::Rank;

    struct Op
    {
            std::string name;
            long nr;  // Number of inputs
            long nr_thorough;
            long step;  // Number of inputs in one case
            std::function<void(mc::Rec&, long i, bool thorough)> run;
    };

    inline auto ops() -> std::vector<Op>&
    {
        static std::vector<Op> v;
        return v;
    }

    inline void add(
        std::string const& name, long nr, long nr_thorough, long step, std::function<void(mc::Rec&, long, bool)> run)
    {
        ops().push_back({name, nr, nr_thorough, step, std::move(run)});
    }

    template<Rank rank>
    using S = lue::Shape<Count, rank>;

    template<std::size_t n>
    auto text(std::array<Count, n> const& s) -> std::string
    {
        std::string t;
        for (auto const v : s)
        {
            t += std::format("{}{}", t.empty() ? "" : "x", v);
        }
        return t;
    }

    // The i-th array in which all elements are in [low, low + n)
    template<Rank rank>
    auto nth_shape(long i, long n, Count low = 0) -> S<rank>
    {
        S<rank> s{};
        for (auto& v : s)
        {
            v = low + i % n;
            i /= n;
        }
        return s;
    }

    inline auto power(long base, long n) -> long
    {
        return n == 0 ? 1 : base * power(base, n - 1);
    }

    // Layouts of arrays of up to max x max cells in partitions
    struct Layout
    {
            long rows, cols, prows, pcols;

            auto nr_partitions() const -> long
            {
                return (rows / prows) * (cols / pcols);
            }

            auto str() const -> std::string
            {
                return std::format("{}x{} cells in {}x{} partitions", rows, cols, prows, pcols);
            }
    };

    inline auto layouts(long max) -> std::vector<Layout> const&
    {
        static std::map<long, std::vector<Layout>> all;
        auto& v = all[max];
        if (v.empty())
        {
            for (long r = 1; r <= max; ++r)
            {
                for (long c = 1; c <= max; ++c)
                {
                    for (long pr = 1; pr <= r; ++pr)
                    {
                        for (long pc = 1; pc <= c; ++pc)
                        {
                            v.push_back({r, c, pr, pc});
                        }
                    }
                }
            }
        }
        return v;
    }

    inline auto localities(Layout const& l, std::vector<int> wanted) -> std::vector<int>
    {
        std::erase_if(wanted, [&](int k) { return k > l.nr_partitions(); });
        return wanted;
    }

    // Runs f(rec, plan, layout) for all layouts on 1 - 3 localities, and for all schedules with few deviations
    template<typename F>
    void add_layouts(std::string const& name, long max, long max_thorough, F f, bool schedules = true)
    {
        add(name, static_cast<long>(layouts(max).size()), static_cast<long>(layouts(max_thorough).size()), 16,
            [=](mc::Rec& rec, long i, bool thorough)
            {
                auto const l = layouts(thorough ? max_thorough : max)[static_cast<std::size_t>(i)];
                Plan plan;
                plan.localities = localities(l, thorough ? std::vector<int>{1, 2, 3, 5} : std::vector<int>{1, 2, 3});
                f(rec, plan, l);
            });
        if (schedules)
        {
            add(name + ", schedules", 2, 2, 1,
                [=](mc::Rec& rec, long i, bool thorough)
                {
                    Plan plan;
                    plan.localities = {1, 2};
                    plan.deviations = thorough ? 2 : 1;
                    plan.preempt = i == 1;
                    plan.max_schedules = thorough ? 300000 : 30000;
                    f(rec, plan, Layout{2, 3, 1, 1});
                    f(rec, plan, Layout{3, 5, 2, 2});
                });
        }
    }

    // Problems in the structure of an array, or empty
    template<typename E, Rank rank>
    auto structure(lue::PartitionedArray<E, rank> const& array, S<rank> const& shape, S<rank> const& pshape) -> std::string
    {
        if (array.shape() != shape)
        {
            return "shape of array is " + text(array.shape());
        }
        auto const& partitions = array.partitions();
        auto const& where = array.localities();
        S<rank> nr{};
        for (Rank d = 0; d < rank; ++d)
        {
            nr[d] = shape[d] / pshape[d];
        }
        if (partitions.shape() != nr)
        {
            return "shape in partitions is " + text(partitions.shape());
        }
        if (where.shape() != nr)
        {
            return "shape of localities is " + text(where.shape());
        }
        for (Index i = 0; i < partitions.nr_elements(); ++i)
        {
            partitions[i].wait();
            auto const offset = partitions[i].offset(hpx::launch::sync);
            auto const extent = partitions[i].shape(hpx::launch::sync);
            Index rest = i;
            for (Rank d = rank; d-- > 0;)
            {
                Index const idx = rest % nr[d];
                rest /= nr[d];
                Count const want = idx + 1 < nr[d] ? pshape[d] : shape[d] - idx * pshape[d];
                if (offset[d] != idx * pshape[d] || extent[d] != want)
                {
                    return std::format("partition {}: wrong offset {} or shape {}", i, text(offset), text(extent));
                }
            }
            if (!where[i])
            {
                return std::format("partition {}: no locality", i);
            }
            if (!(hpx::get_colocation_id(hpx::launch::sync, partitions[i].get_id()) == where[i]))
            {
                return std::format("partition {} is not on the locality it should be on", i);
            }
        }
        return "";
    }

    // All localities have partitions
    template<typename E, Rank rank>
    auto distribution(lue::PartitionedArray<E, rank> const& array) -> std::string
    {
        std::set<std::string> used;
        for (Index i = 0; i < array.localities().nr_elements(); ++i)
        {
            used.insert(std::to_string(array.localities()[i].locality()));
        }
        return used.size() == hpx::find_all_localities().size() ? "" : std::format("{} localities used", used.size());
    }

    inline auto shape_of(Layout const& l) -> S<2>
    {
        return {l.rows, l.cols};
    }

    inline auto pshape_of(Layout const& l) -> S<2>
    {
        return {l.prows, l.pcols};
    }

    // Values and structure of array, or "ok" if it is as expected
    template<typename E>
    auto compare(Array<E> const& array, Grid<E> const& want, Layout const& l) -> std::string
    {
        if (auto const s = structure<E, 2>(array, shape_of(l), pshape_of(l)); !s.empty())
        {
            return s;
        }
        std::string problem;
        auto const got = from_lue(array, &problem);
        return !problem.empty() ? problem : same(got, want) ? "ok" : got.str();
    }

    template<typename E>
    auto cycle(long rows, long cols, std::vector<E> const& alphabet) -> Grid<E>
    {
        Grid<E> g(rows, cols);
        for (std::size_t i = 0; i < g.v.size(); ++i)
        {
            g.v[i] = alphabet[(i * i + i / 2) % alphabet.size()];
        }
        return g;
    }

    template<typename E>
    auto numbered(long rows, long cols) -> Grid<E>
    {
        Grid<E> g(rows, cols);
        for (std::size_t i = 0; i < g.v.size(); ++i)
        {
            g.v[i] = static_cast<E>(i + 1);
        }
        return g;
    }

}  // namespace p23
