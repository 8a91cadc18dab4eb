// P25: focal operations. Registry of operations with their oracles; each part of the operations is compiled
// on its own (-DFW_PART).
#pragma once
#include "fw.hpp"
#include "lue/framework/algorithm/kernel.hpp"

namespace p25 {

    using namespace fw;

    struct Op
    {
            std::string name;
            std::function<void(mc::Rec&, std::vector<std::string> const&, std::string const& tier)> run;
            bool fixed_kernel;
    };

    inline auto ops() -> std::vector<Op>&
    {
        static std::vector<Op> v;
        return v;
    }

    template<typename W>
    auto to_kernel(Grid<W> const& g) -> lue::Kernel<W, 2>
    {
        lue::Kernel<W, 2> k{lue::ShapeT<lue::Kernel<W, 2>>{g.rows, g.cols}};
        for (long i = 0; i < g.size(); ++i)
        {
            k.data()[i] = g.v[static_cast<std::size_t>(i)];
        }
        return k;
    }

    // A cell and what is around it; outside of the array there is no data
    template<typename E>
    struct Window
    {
            Grid<E> const& g;
            long row, col;

            auto at(long dr, long dc) const -> std::optional<E>
            {
                long const r = row + dr;
                long const c = col + dc;
                if (!g.inside(r, c) || is_nd(g(r, c)))
                {
                    return {};
                }
                return g(r, c);
            }

            auto outside(long dr, long dc) const -> bool
            {
                return !g.inside(row + dr, col + dc);
            }

            // Valid values, with a weight that counts
            template<typename W>
            auto values(Grid<W> const& kernel) const -> std::vector<E>
            {
                std::vector<E> result;
                long const radius = kernel.rows / 2;
                for (long dr = -radius; dr <= radius; ++dr)
                {
                    for (long dc = -radius; dc <= radius; ++dc)
                    {
                        if (auto const v = at(dr, dc); v && kernel(dr + radius, dc + radius) != 0)
                        {
                            result.push_back(*v);
                        }
                    }
                }
                return result;
            }
    };

    inline auto is_prime(long n) -> bool
    {
        for (long d = 2; d * d <= n; ++d)
        {
            if (n % d == 0)
            {
                return false;
            }
        }
        return n > 1;
    }

    // Different values in all cells, with a cell without data now and then
    template<typename E>
    auto content(long rows, long cols, bool all_valid, long modulus = 0) -> Grid<E>
    {
        Grid<E> g(rows, cols);
        long p = 2;
        for (long i = 0; i < g.size(); ++i)
        {
            while (!is_prime(p))
            {
                ++p;
            }
            long const v = modulus ? (p * p / 3) % modulus : p;
            g.v[static_cast<std::size_t>(i)] = !all_valid && i % 5 == 3 ? nd<E>() : static_cast<E>(v);
            ++p;
        }
        return g;
    }

    template<typename W>
    auto box(long radius) -> Grid<W>
    {
        return Grid<W>(2 * radius + 1, 2 * radius + 1, W{1});
    }

    template<typename W>
    auto circle(long radius) -> Grid<W>
    {
        Grid<W> g(2 * radius + 1, 2 * radius + 1, W{0});
        for (long r = -radius; r <= radius; ++r)
        {
            for (long c = -radius; c <= radius; ++c)
            {
                g(r + radius, c + radius) = r * r + c * c <= radius * radius;
            }
        }
        return g;
    }

    // Weights that tell the positions in the kernel apart
    template<typename W>
    auto marked(long radius) -> Grid<W>
    {
        Grid<W> g(2 * radius + 1, 2 * radius + 1);
        for (long i = 0; i < g.size(); ++i)
        {
            g.v[static_cast<std::size_t>(i)] = std::is_floating_point_v<W> ? static_cast<W>((i * i + 3 * i + 1) * (i % 2 ? 1 : -1))
                                                                           : static_cast<W>((i * 5 / 2) % 3 != 0);
        }
        return g;
    }

    // E: input, R: output, W: weight. modulus: number of different values in the input
    template<typename E, typename R, typename W, typename F, typename O>
    void focal(
        std::string const& op_name, F f, O oracle, double tolerance = 0, long modulus = 0, std::vector<E> alphabet = {},
        bool fixed_kernel = false)
    {
        auto const name = op_name + "(" + lue::as_string<E> + ")";
        if (alphabet.empty())
        {
            alphabet = {nd<E>(), E(2), E(7)};
        }
        auto const one = [=](mc::Rec& rec,
                             Plan const& plan,
                             Grid<E> const& in,
                             Grid<W> const& kernel,
                             long prows,
                             long pcols,
                             bool too_small = false)
        {
            Grid<R> want(in.rows, in.cols);
            for (long r = 0; r < in.rows; ++r)
            {
                for (long c = 0; c < in.cols; ++c)
                {
                    std::optional<R> const v = oracle(Window<E>{in, r, c}, kernel);
                    want(r, c) = v ? *v : nd<R>();
                }
            }
            auto const input = std::format(
                "{} of {} in {}x{} partitions, kernel {}",
                name,
                in.size() > 1000 ? "all windows" : in.str(),
                prows,
                pcols,
                kernel.str());
            if (in.size() > 1000)
            {
                // Describe the first cell that differs
                explore(
                    rec,
                    op_name,
                    plan,
                    [&]() -> std::string
                    {
                        std::string problem;
                        auto const got = from_lue(f(to_lue(in, prows, pcols), to_kernel(kernel)), &problem);
                        for (long i = 0; problem.empty() && i < got.size(); ++i)
                        {
                            auto const n = static_cast<std::size_t>(i);
                            if (!same(got.v[n], want.v[n], tolerance))
                            {
                                long const r = i / in.cols, c = i % in.cols;
                                Grid<E> window(3, 3);
                                for (long j = 0; j < 9; ++j)
                                {
                                    window.v[static_cast<std::size_t>(j)] =
                                        in.inside(r + j / 3 - 1, c + j % 3 - 1) ? in(r + j / 3 - 1, c + j % 3 - 1) : nd<E>();
                                }
                                problem = std::format(
                                    "{} instead of {} for a cell with around it {}", show(got.v[n]), show(want.v[n]), window.str());
                            }
                        }
                        return problem.empty() ? "all as expected" : problem;
                    },
                    "all as expected",
                    input);
                return;
            }
            auto const text = want.str();
            explore(
                rec,
                op_name,
                plan,
                [&]() -> std::string
                {
                    std::string problem;
                    try
                    {
                        Grid<R> const got = from_lue(f(to_lue(in, prows, pcols), to_kernel(kernel)), &problem);
                        return !problem.empty() ? problem : same(got, want, tolerance) ? text : got.str();
                    }
                    catch (std::runtime_error const& e)
                    {
                        if (too_small && std::string{e.what()}.find("too small") != std::string::npos)
                        {
                            return text;
                        }
                        throw;
                    }
                },
                text,
                input);
        };

        ops().push_back(
            {name,
             [=](mc::Rec& rec, std::vector<std::string> const& kind, std::string const& tier)
             {
                 Plan plan;
                 plan.localities = {1, 2};
                 if (kind[0] == "windows")
                 {
                     // All 3x3 windows
                     long const n = static_cast<long>(alphabet.size());
                     long const nr_windows = std::lround(std::pow(n, 9));
                     Grid<E> in(3, 3 * nr_windows);
                     for (long w = 0; w < nr_windows; ++w)
                     {
                         long x = w;
                         for (long i = 0; i < 9; ++i, x /= n)
                         {
                             in(i / 3, 3 * w + i % 3) = alphabet[static_cast<std::size_t>(x % n)];
                         }
                     }
                     plan.localities = {1};
                     plan.both_orders = false;
                     one(rec, plan, in, box<W>(1), 3, 20000);
                     rec.count("windows", nr_windows);
                 }
                 else if (kind[0] == "kernels")
                 {
                     auto const in = content<E>(6, 7, false, modulus);
                     plan.localities = {1};
                     plan.both_orders = false;
                     for (long k = std::stol(kind[1]); k < std::stol(kind[2]); ++k)
                     {
                         Grid<W> kernel(3, 3);
                         for (long i = 0; i < 9; ++i)
                         {
                             kernel.v[static_cast<std::size_t>(i)] = static_cast<W>((k >> i) & 1);
                         }
                         one(rec, plan, in, kernel, 3, 3);
                     }
                 }
                 else if (kind[0] == "layout")
                 {
                     long const rows = std::stol(kind[1]), cols = std::stol(kind[2]);
                     long const prows = std::stol(kind[3]), pcols = std::stol(kind[4]);
                     long const nr_partitions = (rows / prows) * (cols / pcols);
                     std::erase_if(plan.localities, [&](int k) { return k > nr_partitions; });
                     for (long radius = 0; radius <= (fixed_kernel ? 1 : 3); ++radius)
                     {
                         if (fixed_kernel && radius != 1)
                         {
                             continue;
                         }
                         // Partitions must not be smaller than the kernel
                         bool const too_small = prows < 2 * radius + 1 || pcols < 2 * radius + 1;
                         if (radius > 1 && too_small && prows + pcols > 4)
                         {
                             continue;
                         }
                         one(rec, plan, content<E>(rows, cols, true, modulus), marked<W>(radius), prows, pcols, too_small);
                         if (radius && !fixed_kernel)
                         {
                             one(rec, plan, content<E>(rows, cols, false, modulus), circle<W>(radius), prows, pcols, too_small);
                         }
                     }
                 }
                 else if (kind[0] == "positions")
                 {
                     // One position at a time of a kernel of radius 2
                     plan.localities = {2};
                     for (long i = 0; i < 25; ++i)
                     {
                         Grid<W> kernel(5, 5);
                         kernel.v[static_cast<std::size_t>(i)] = 1;
                         one(rec, plan, content<E>(11, 10, true, modulus), kernel, 5, 5);
                         one(rec, plan, content<E>(10, 16, false, modulus), kernel, 5, 5);
                     }
                 }
                 else
                 {
                     bool const preempt = kind[0] == "preempt";
                     plan.deviations = 1;
                     plan.preempt = preempt;
                     plan.max_schedules = 1000000;
                     one(rec, plan, content<E>(3, 6, false, modulus), box<W>(1), 3, 3);
                     if (tier == "thorough")
                     {
                         one(rec, plan, content<E>(6, 6, false, modulus), box<W>(1), 3, 3);
                         plan.deviations = 2;
                         one(rec, plan, content<E>(3, 6, false, modulus), box<W>(1), 3, 3);
                     }
                 }
             },
             fixed_kernel});
    }

}  // namespace p25
