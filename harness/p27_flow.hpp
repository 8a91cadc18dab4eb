// P27: flow routing. Registry of operations; each part of the operations is compiled on its own (-DFW_PART).
#pragma once
#include "fw.hpp"
#include <optional>

namespace p27 {

    using namespace fw;

    using D = std::uint8_t;  // Flow direction: position on the numeric keypad

    inline constexpr D sink = 5;

    inline auto no_flow() -> D
    {
        return nd<D>();
    }

    struct Layout
    {
            long rows, cols, prows, pcols;

            auto nr_partitions() const -> long
            {
                return (rows / prows) * (cols / pcols);
            }
    };

    // Where the material in a cell goes: index of a cell, -1: the cell is a sink, -2: out of the array, -3: no-data
    inline auto to(Grid<D> const& g, long cell) -> long
    {
        D const d = g.v[static_cast<std::size_t>(cell)];
        if (d == no_flow())
        {
            return -3;
        }
        if (d == sink)
        {
            return -1;
        }
        long const r = cell / g.cols + (d >= 7 ? -1 : d >= 4 ? 0 : 1);
        long const c = cell % g.cols + ((d - 1) % 3 - 1);
        return r < 0 || r >= g.rows || c < 0 || c >= g.cols ? -2 : r * g.cols + c;
    }

    // Cells in downstream order, or nothing if it is not a valid flow direction network
    inline auto order(Grid<D> const& g) -> std::optional<std::vector<long>>
    {
        long const n = g.size();
        std::vector<int> count(static_cast<std::size_t>(n));
        for (long i = 0; i < n; ++i)
        {
            if (long const t = to(g, i); t >= 0)
            {
                if (to(g, t) == -3)
                {
                    return {};
                }
                ++count[static_cast<std::size_t>(t)];
            }
        }
        std::vector<long> result;
        for (long i = 0; i < n; ++i)
        {
            if (count[static_cast<std::size_t>(i)] == 0 && to(g, i) != -3)
            {
                result.push_back(i);
            }
        }
        for (std::size_t k = 0; k < result.size(); ++k)
        {
            if (long const t = to(g, result[k]); t >= 0 && --count[static_cast<std::size_t>(t)] == 0)
            {
                result.push_back(t);
            }
        }
        for (long i = 0, valid = 0; i < n; ++i)
        {
            valid += to(g, i) != -3;
            if (i == n - 1 && valid != static_cast<long>(result.size()))
            {
                return {};
            }
        }
        return result;
    }

    inline auto counts(Grid<D> const& g) -> std::vector<int>
    {
        std::vector<int> count(static_cast<std::size_t>(g.size()));
        for (long i = 0; i < g.size(); ++i)
        {
            if (long const t = to(g, i); t >= 0)
            {
                ++count[static_cast<std::size_t>(t)];
            }
        }
        return count;
    }

    struct Op
    {
            std::string name;
            // Runs the operation for a network; salt selects the other arguments
            std::function<void(mc::Rec&, Plan const&, Layout const&, Grid<D> const&, long salt)> run;
            bool many;          // Also for the larger sets of networks
            bool focal{false};  // Partitions of fewer than 3x3 cells are refused
    };

    inline auto ops() -> std::vector<Op>&
    {
        static std::vector<Op> v;
        return v;
    }

    // A grid with values of an alphabet
    template<typename E>
    auto cycle(Layout const& l, long a, long b, std::vector<E> const& alphabet) -> Grid<E>
    {
        Grid<E> g(l.rows, l.cols);
        for (long i = 0; i < g.size(); ++i)
        {
            g.v[static_cast<std::size_t>(i)] =
                alphabet[static_cast<std::size_t>((i * i + a * i + b) % static_cast<long>(alphabet.size()))];
        }
        return g;
    }

    // Each kind of routing: what leaves a cell and what remains in it, given what arrives from upstream. No-data travels
    // downstream.
    template<typename E, typename F>
    auto route(Grid<D> const& g, F const& cell) -> std::pair<Grid<E>, Grid<E>>
    {
        Grid<E> outflow(g.rows, g.cols), remainder(g.rows, g.cols);
        std::vector<E> from_upstream(static_cast<std::size_t>(g.size()), E{0});
        for (long i = 0; i < g.size(); ++i)
        {
            outflow.v[static_cast<std::size_t>(i)] = remainder.v[static_cast<std::size_t>(i)] = nd<E>();
        }
        auto const cells = order(g);
        for (long const i : cells.value())
        {
            auto const k = static_cast<std::size_t>(i);
            if (!is_nd(from_upstream[k]))
            {
                std::tie(outflow.v[k], remainder.v[k]) = cell(k, from_upstream[k]);
            }
            if (long const t = to(g, i); t >= 0)
            {
                auto& f = from_upstream[static_cast<std::size_t>(t)];
                f = is_nd(f) || is_nd(outflow.v[k]) ? nd<E>() : f + outflow.v[k];
            }
        }
        return {outflow, remainder};
    }

    // Result of f, an array, or want in case the partitions are too small and that is what f says
    template<typename E, typename F>
    auto unless_too_small(Layout const& l, F const& f, Grid<E> const& want) -> std::string
    {
        std::string problem;
        try
        {
            auto const g = from_lue(f(), &problem);
            return !problem.empty() ? problem : same(g, want) ? "ok" : g.str() + " instead of " + want.str();
        }
        catch (std::runtime_error const& e)
        {
            if ((l.prows < 3 || l.pcols < 3) && std::string{e.what()}.find("too small") != std::string::npos)
            {
                return "ok";
            }
            throw;
        }
    }

    inline auto where(std::string const& name, Grid<D> const& g, std::string const& rest, Layout const& l) -> std::string
    {
        return std::format("{} with flow directions {}{} in {}x{} partitions", name, g.str(), rest.empty() ? "" : ", " + rest, l.prows, l.pcols);
    }

    // Result of an observation: "ok", or the arrays
    template<typename E>
    auto compare(lue::PartitionedArray<E, 2> const& got, Grid<E> const& want, double tolerance = 0) -> std::string
    {
        std::string problem;
        auto const g = from_lue(got, &problem);
        if (!problem.empty())
        {
            return problem;
        }
        return same(g, want, tolerance) ? "ok" : g.str() + " instead of " + want.str();
    }

}  // namespace p27
