// P24: local operations. Registry of operations with their oracles; each part of the operations is compiled
// on its own (-DFW_PART).
#pragma once
#include "fw.hpp"

namespace p24 {

    using namespace fw;

    struct Op
    {
            std::string name;
            // Kind of run: "values", or "layout <rows> <cols> <prows> <pcols>", or "schedule <deviations>"
            std::function<void(mc::Rec&, std::vector<std::string> const&, std::string const& tier)> run;
            bool layouts;
    };

    inline auto ops() -> std::vector<Op>&
    {
        static std::vector<Op> v;
        return v;
    }

    template<typename E>
    auto alphabet() -> std::vector<E>
    {
        using L = std::numeric_limits<E>;
        if constexpr (std::is_floating_point_v<E>)
        {
            // Smallest and largest, overflow and domain boundaries
            return {nd<E>(), L::lowest(), E(-2.5), E(-1), E(-0.5), E(-0.0), E(0.5), E(1), E(1.5), E(3), L::max(), L::min(),
                    E(std::nextafter(E(1), E(2)))};
        }
        else if constexpr (std::is_signed_v<E>)
        {
            return {nd<E>(), E(L::min() + 1), E(-7), E(-2), E(-1), E(0), E(1), E(2), E(5), E(L::max() / 2 + 1), L::max()};
        }
        else
        {
            return {nd<E>(), E(0), E(1), E(2), E(5), E(L::max() / 2), E(L::max() / 2 + 1), E(L::max() - 1)};
        }
    }

    template<typename E>
    auto cycle(long rows, long cols, long shift, std::vector<E> const& values) -> Grid<E>
    {
        Grid<E> g(rows, cols);
        for (long i = 0; i < g.size(); ++i)
        {
            g.v[i] = values[(i * 7 + shift) % values.size()];
        }
        return g;
    }

    template<typename R>
    auto or_nd(std::optional<R> const& r) -> R
    {
        return r ? *r : nd<R>();
    }

    // Exact result, or none if it is not a value of the type
    template<typename E, typename Wide>
    auto fits(Wide const& w) -> std::optional<E>
    {
        using L = std::numeric_limits<E>;
        if constexpr (std::is_floating_point_v<E>)
        {
            return std::isinf(w) ? std::nullopt : std::optional<E>{w};
        }
        else
        {
            return w < static_cast<Wide>(L::min()) || w > static_cast<Wide>(L::max()) ? std::nullopt
                                                                                    : std::optional<E>{static_cast<E>(w)};
        }
    }

    template<typename E>
    using Wide = std::conditional_t<std::is_floating_point_v<E>, E, __int128>;

    struct Layout
    {
            long rows, cols, prows, pcols;
    };

    struct Run
    {
            std::vector<Layout> layouts;
            Plan plan;
    };

    // The layouts and schedules of a kind of run
    inline auto plan(std::vector<std::string> const& kind, std::string const& tier, long n, long m) -> Run
    {
        Run run;
        if (kind[0] == "values")
        {
            run.layouts = {{n, m, 4, 5}};
            run.plan.localities = {1, 2};
        }
        else if (kind[0] == "layout")
        {
            run.layouts = {{std::stol(kind[1]), std::stol(kind[2]), std::stol(kind[3]), std::stol(kind[4])}};
            run.plan.localities = {1, 2, 3};
        }
        else
        {
            run.layouts = {{2, 3, 1, 2}};
            run.plan.localities = {1, 2};
            run.plan.deviations = tier == "thorough" ? 2 : 1;
            run.plan.preempt = kind[0] == "preempt";
            run.plan.max_schedules = tier == "thorough" ? 60000 : 2000;
        }
        // Partitions at the end of a dimension are enlarged. The number of partitions must be at least the number of localities
        auto const& l = run.layouts[0];
        long const nr_partitions = (l.rows / l.prows) * (l.cols / l.pcols);
        std::erase_if(run.plan.localities, [&](int k) { return k > nr_partitions; });
        return run;
    }

    template<typename E, typename R, typename F, typename O>
    void unary(std::string const& name, F f, O oracle, double tolerance = 0, bool layouts = false, std::vector<E> const& extra = {})
    {
        ops().push_back(
            {name + "(" + lue::as_string<E> + ")",
             [=](mc::Rec& rec, std::vector<std::string> const& kind, std::string const& tier)
             {
                 auto values = alphabet<E>();
                 values.insert(values.end(), extra.begin(), extra.end());
                 auto const run = plan(kind, tier, 4, static_cast<long>(values.size()));
                 auto const& l = run.layouts[0];
                 auto const in = cycle<E>(l.rows, l.cols, 0, values);
                 Grid<R> want(l.rows, l.cols);
                 for (long i = 0; i < in.size(); ++i)
                 {
                     want.v[i] = is_nd(in.v[i]) ? nd<R>() : or_nd<R>(oracle(in.v[i]));
                 }
                 check<R>(
                     rec,
                     name,
                     run.plan,
                     [&] { return f(to_lue(in, l.prows, l.pcols)); },
                     want,
                     std::format("{}({}) of {} in {}x{} partitions", name, lue::as_string<E>, in.str(), l.prows, l.pcols),
                     tolerance);
             },
             layouts});
    }

    // forms: 0 only array x array; 1 all forms
    template<typename E, typename R, int forms, typename F, typename O>
    void binary(std::string const& name, F f, O oracle, double tolerance = 0, bool layouts = false)
    {
        auto const full = name + "(" + lue::as_string<E> + ")";
        auto const expected = [=](E const& a, E const& b) -> R
        { return is_nd(a) || is_nd(b) ? nd<R>() : or_nd<R>(oracle(a, b)); };

        ops().push_back(
            {full,
             [=](mc::Rec& rec, std::vector<std::string> const& kind, std::string const& tier)
             {
                 auto const values = alphabet<E>();
                 long const n = static_cast<long>(values.size());
                 auto const run = plan(kind, tier, n, n);
                 auto const& l = run.layouts[0];
                 Grid<E> a(l.rows, l.cols), b(l.rows, l.cols);
                 if (kind[0] == "values")
                 {
                     for (long i = 0; i < n * n; ++i)
                     {
                         a.v[i] = values[i / n];
                         b.v[i] = values[i % n];
                     }
                 }
                 else
                 {
                     a = cycle<E>(l.rows, l.cols, 0, values);
                     b = cycle<E>(l.rows, l.cols, 3, values);
                 }
                 Grid<R> want(l.rows, l.cols);
                 for (long i = 0; i < a.size(); ++i)
                 {
                     want.v[i] = expected(a.v[i], b.v[i]);
                 }
                 check<R>(
                     rec,
                     name,
                     run.plan,
                     [&] { return f(to_lue(a, l.prows, l.pcols), to_lue(b, l.prows, l.pcols)); },
                     want,
                     std::format("{} of {} and {} in {}x{} partitions", full, a.str(), b.str(), l.prows, l.pcols),
                     tolerance);
             },
             layouts});
        if constexpr (forms == 1)
        {
            ops().push_back(
                {full + " with a value",
                 [=](mc::Rec& rec, std::vector<std::string> const& kind, std::string const& tier)
                 {
                     auto const values = alphabet<E>();
                     auto const run = plan(kind, tier, 4, static_cast<long>(values.size()));
                     auto const& l = run.layouts[0];
                     auto const a = cycle<E>(l.rows, l.cols, 0, values);
                     auto const in_text = [&](E const& v)
                     {
                         return std::format(
                             "{} of {} and the value {} in {}x{} partitions",
                             full,
                             a.str(),
                             show(v),
                             l.prows,
                             l.pcols);
                     };
                     bool const few = kind[0] != "values";
                     for (std::size_t i = 0; i < values.size(); i += few ? values.size() / 2 : 1)
                     {
                         E const v = values[i];
                         Grid<R> left(l.rows, l.cols), right(l.rows, l.cols);
                         for (long i = 0; i < a.size(); ++i)
                         {
                             right.v[i] = expected(a.v[i], v);
                             left.v[i] = expected(v, a.v[i]);
                         }
                         check<R>(
                             rec,
                             name + " array-value",
                             run.plan,
                             [&] { return f(to_lue(a, l.prows, l.pcols), v); },
                             right,
                             in_text(v),
                             tolerance);
                         check<R>(
                             rec,
                             name + " value-array",
                             run.plan,
                             [&] { return f(v, to_lue(a, l.prows, l.pcols)); },
                             left,
                             in_text(v),
                             tolerance);
                         check<R>(
                             rec,
                             name + " array-scalar",
                             run.plan,
                             [&] {
                                 return f(
                                     to_lue(a, l.prows, l.pcols), lue::Scalar<E>{hpx::async([v] { return v; }).share()});
                             },
                             right,
                             in_text(v),
                             tolerance);
                         check<R>(
                             rec,
                             name + " scalar-array",
                             run.plan,
                             [&] {
                                 return f(
                                     lue::Scalar<E>{hpx::async([v] { return v; }).share()}, to_lue(a, l.prows, l.pcols));
                             },
                             left,
                             in_text(v),
                             tolerance);
                         if (!few)
                         {
                             for (E const w : values)
                             {
                                 R const one = expected(v, w);
                                 auto const text = [&](lue::Scalar<R> const& s)
                                 {
                                     R const got = from_scalar(s);
                                     return same(got, one, tolerance) ? show(one) : show(got);
                                 };
                                 auto const input = std::format("{} of scalars {} and {}", full, show(v), show(w));
                                 Plan p;
                                 p.localities = {1};
                                 explore(
                                     rec,
                                     name + " scalar-scalar",
                                     p,
                                     [&] {
                                         return text(f(
                                             lue::Scalar<E>{hpx::async([v] { return v; }).share()}, lue::Scalar<E>{w}));
                                     },
                                     show(one),
                                     input);
                                 explore(
                                     rec, name + " scalar-value", p, [&] { return text(f(lue::Scalar<E>{v}, w)); },
                                     show(one), input);
                                 explore(
                                     rec, name + " value-scalar", p, [&] { return text(f(v, lue::Scalar<E>{w})); },
                                     show(one), input);
                             }
                         }
                     }
                 },
                 layouts});
        }
    }

}  // namespace p24
