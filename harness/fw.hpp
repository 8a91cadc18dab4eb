// Support for harnesses that run the modelling framework's code (source/framework) on hpxmock: every task
// the framework creates is scheduled by us, and every order in which tasks can run, within a bound, is tried.
#pragma once
#include "mc.hpp"
#include <cmath>
#include <limits>
#include <memory>
#include <optional>
#include "lue/framework/algorithm/create_partitioned_array.hpp"
#include "lue/framework/partitioned_array/array_partition_impl.hpp"
#include "lue/framework/partitioned_array/server/array_partition_impl.hpp"
#include "lue/framework/partitioned_array_impl.hpp"

namespace fw {

    template<typename E>
    using Array = lue::PartitionedArray<E, 2>;

    using Shape = lue::Shape<lue::Count, 2>;


    // What no-data looks like in LUE's own output
    template<typename E>
    auto nd() -> E
    {
        if constexpr (std::is_floating_point_v<E>)
        {
            return std::numeric_limits<E>::quiet_NaN();
        }
        else if constexpr (std::is_signed_v<E>)
        {
            return std::numeric_limits<E>::min();
        }
        else
        {
            return std::numeric_limits<E>::max();
        }
    }

    template<typename E>
    auto is_nd(E const& v) -> bool
    {
        if constexpr (std::is_floating_point_v<E>)
        {
            return std::isnan(v);
        }
        else
        {
            return v == nd<E>();
        }
    }

    template<typename E>
    auto show(E const& v) -> std::string
    {
        if (is_nd(v))
        {
            return "-";
        }
        if constexpr (std::is_floating_point_v<E>)
        {
            return std::format("{}", v);
        }
        else
        {
            return std::to_string(v);
        }
    }


    // A plain two-dimensional array
    template<typename E>
    struct Grid
    {
            long rows{0}, cols{0};
            std::vector<E> v;

            Grid() = default;

            Grid(long r, long c, E fill = E{}):
                rows{r},
                cols{c},
                v(static_cast<std::size_t>(r * c), fill)
            {
            }

            Grid(long r, long c, std::vector<E> values):
                rows{r},
                cols{c},
                v{std::move(values)}
            {
            }

            auto operator()(long r, long c) -> E&
            {
                return v[static_cast<std::size_t>(r * cols + c)];
            }

            auto operator()(long r, long c) const -> E const&
            {
                return v[static_cast<std::size_t>(r * cols + c)];
            }

            auto inside(long r, long c) const -> bool
            {
                return r >= 0 && r < rows && c >= 0 && c < cols;
            }

            auto size() const -> long
            {
                return rows * cols;
            }

            auto str() const -> std::string
            {
                std::string s;
                for (long r = 0; r < rows; ++r)
                {
                    s += r ? " / " : "";
                    for (long c = 0; c < cols; ++c)
                    {
                        s += (c ? " " : "") + show((*this)(r, c));
                    }
                }
                return s;
            }
    };

    // Equal, where no-data equals no-data, and with a tolerance (relative) for computations on reals
    template<typename E>
    auto same(E const& a, E const& b, double tolerance = 0) -> bool
    {
        if (is_nd(a) || is_nd(b))
        {
            return is_nd(a) && is_nd(b);
        }
        if (a == b)
        {
            return true;
        }
        if constexpr (std::is_floating_point_v<E>)
        {
            return tolerance > 0 &&
                   std::abs(a - b) <= tolerance * std::max({std::abs(a), std::abs(b), E{1}});
        }
        else
        {
            return false;
        }
    }

    template<typename E>
    auto same(Grid<E> const& a, Grid<E> const& b, double tolerance = 0) -> bool
    {
        if (a.rows != b.rows || a.cols != b.cols || a.v.size() != b.v.size())
        {
            return false;
        }
        for (std::size_t i = 0; i < a.v.size(); ++i)
        {
            if (!same(a.v[i], b.v[i], tolerance))
            {
                return false;
            }
        }
        return true;
    }


    template<typename E>
    struct Handle
    {
            std::shared_ptr<std::vector<E>> values;
    };

    // The array, the way users create one from a buffer (NumPy)
    template<typename E>
    auto to_lue(Grid<E> const& g, long prows, long pcols) -> Array<E>;

    // Everything in the array. Says what is wrong with the array's structure, if anything.
    template<typename E>
    auto from_lue(Array<E> const& array, std::string* problem = nullptr) -> Grid<E>
    {
        auto const shape = array.shape();
        Grid<E> g(static_cast<long>(shape[0]), static_cast<long>(shape[1]));
        Grid<int> seen(g.rows, g.cols);
        auto wrong = [&](std::string const& s)
        {
            if (problem && problem->empty())
            {
                *problem = s;
            }
        };
        auto const& partitions = array.partitions();
        auto const& localities = array.localities();
        if (localities.nr_elements() != partitions.nr_elements())
        {
            wrong("number of localities differs from the number of partitions");
        }
        for (lue::Index i = 0; i < partitions.nr_elements(); ++i)
        {
            auto const& p = partitions[i];
            p.wait();
            if (auto const locality = hpx::get_colocation_id(hpx::launch::sync, p.get_id()).locality();
                locality != localities[i].locality())
            {
                wrong(std::format("partition {} is on locality {} instead of {}", i, locality, localities[i].locality()));
            }
            auto const offset = p.offset(hpx::launch::sync);
            auto const pshape = p.shape(hpx::launch::sync);
            auto const data = p.data(hpx::launch::sync);
            if (data.shape() != pshape)
            {
                wrong(std::format("partition {}: shape of data differs from shape of partition", i));
                continue;
            }
            for (long r = 0; r < static_cast<long>(pshape[0]); ++r)
            {
                for (long c = 0; c < static_cast<long>(pshape[1]); ++c)
                {
                    long const gr = static_cast<long>(offset[0]) + r;
                    long const gc = static_cast<long>(offset[1]) + c;
                    if (!g.inside(gr, gc))
                    {
                        wrong(std::format("partition {}: cell ({}, {}) outside of array", i, gr, gc));
                        continue;
                    }
                    if (seen(gr, gc)++)
                    {
                        wrong(std::format("partition {}: cell ({}, {}) is in two partitions", i, gr, gc));
                    }
                    g(gr, gc) = data(r, c);
                }
            }
        }
        for (auto s : seen.v)
        {
            if (!s)
            {
                wrong("not all cells are in a partition");
            }
        }
        return g;
    }

    template<typename E>
    auto from_scalar(lue::Scalar<E> const& scalar) -> E
    {
        return scalar.future().get();
    }


    // Which schedules to try
    struct Plan
    {
            std::vector<int> localities{1, 2};
            int deviations{0};  // Number of times a schedule may deviate from first-ready-runs-first (or last)
            bool preempt{false};
            long max_schedules{100000};
            bool both_orders{true};
    };

    struct Problem: public std::runtime_error
    {
            using std::runtime_error::runtime_error;
    };

    // f runs as a task and returns what it observed; the observations of all schedules must be want
    template<typename F>
    void explore(
        mc::Rec& rec, std::string const& key, Plan const& plan, F const& f, std::string const& want, std::string const& input)
    {
        auto& rt = hpx::mock::rt();
        if (plan.localities.empty())
        {
            rec.violation("nothing explored", key + ": " + input);  // A mistake in the harness
        }
        for (int const nr_localities : plan.localities)
        {
            for (bool const lifo : {false, true})
            {
                if (lifo && !plan.both_orders)
                {
                    continue;
                }
                struct Node
                {
                        std::vector<std::uint16_t> script;
                        int deviations;
                };
                std::vector<Node> stack{{{}, 0}};
                long nr_schedules = 0;
                while (!stack.empty())
                {
                    Node const node = std::move(stack.back());
                    stack.pop_back();
                    if (++nr_schedules > plan.max_schedules)
                    {
                        rec.count("schedules beyond the cap");
                        break;
                    }
                    rt.reset();
                    rt.nr_localities = static_cast<std::uint32_t>(nr_localities);
                    rt.lifo = lifo;
                    rt.preempt = plan.preempt;
                    rt.script = node.script;

                    std::string got;
                    std::string where = std::format(
                        "{} on {} localities, {} first, choices [",
                        input,
                        nr_localities,
                        lifo ? "last ready" : "first ready");
                    for (auto const c : node.script)
                    {
                        where += std::to_string(c) + " ";
                    }
                    where += "]";

                    std::string failure;
                    bool stuck{false};
                    try
                    {
                        auto const outcome = rt.run(
                            [&]
                            {
                                std::exception_ptr e;
                                try
                                {
                                    got = f();
                                }
                                catch (boost::context::detail::forced_unwind const&)
                                {
                                    throw;
                                }
                                catch (std::exception const& x)
                                {
                                    failure = std::string{"exception: "} + x.what(); for (auto const& l : rt.lost_exceptions) { failure += " (a task failed: " + l + ")"; }
                                }
                            });
                        if (!outcome.finished)
                        {
                            failure = std::format(
                                "the program never finishes: {} tasks are waiting for something that does not happen",
                                outcome.nr_blocked);
                            stuck = true;
                        }
                        else if (outcome.nr_blocked)
                        {
                            failure = std::format(
                                "{} tasks keep waiting for something that does not happen", outcome.nr_blocked);
                            stuck = true;
                        }
                        else if (failure.empty() && !rt.lost_exceptions.empty())
                        {
                            failure = "a task failed: " + rt.lost_exceptions.front();
                        }
                    }
                    catch (hpx::mock::StepLimit const&)
                    {
                        failure = "the program does not end";
                        stuck = true;
                    }

                    rec.trace();
                    rec.trans(static_cast<long>(rt.nr_steps));
                    rec.count("schedules");
                    rec.count("parcels", static_cast<long>(rt.nr_parcels));

                    if (!failure.empty())
                    {
                        if (!(want.starts_with("exception") && failure.starts_with("exception")))
                        {
                            rec.violation(
                                key + (stuck ? " deadlock" : " failure"),
                                where + ": " + failure + "; expected " + want);
                        }
                    }
                    else if (got != want)
                    {
                        rec.violation(key, where + ": got " + got + ", expected " + want);
                    }

                    if (node.deviations < plan.deviations && !stuck)
                    {
                        auto const widths = rt.widths;
                        for (std::size_t p = widths.size(); p-- > node.script.size();)
                        {
                            for (std::uint16_t c = widths[p]; c-- > 1;)
                            {
                                Node child{node.script, node.deviations + 1};
                                child.script.resize(p, 0);
                                child.script.push_back(c);
                                stack.push_back(std::move(child));
                            }
                        }
                    }
                }
            }
        }
        rec.outcome(key + want);
        rec.state(key + input);
        rt.reset();
    }

    // As explore, comparing grids
    template<typename E, typename F>
    void check(
        mc::Rec& rec,
        std::string const& key,
        Plan const& plan,
        F const& f,
        Grid<E> const& want,
        std::string const& input,
        double tolerance = 0)
    {
        auto const text = want.str();
        explore(
            rec,
            key,
            plan,
            [&]() -> std::string
            {
                Array<E> const array = f();
                std::string problem;
                Grid<E> const got = from_lue(array, &problem);
                if (!problem.empty())
                {
                    return problem;
                }
                return same(got, want, tolerance) ? text : got.str();
            },
            text,
            input);
    }

}  // namespace fw


namespace lue::detail {

    template<typename E>
    class ArrayTraits<fw::Handle<E>>
    {

        public:

            using Element = E;
    };

}  // namespace lue::detail


namespace fw {

    template<typename E>
    auto to_lue(Grid<E> const& g, long prows, long pcols) -> Array<E>
    {
        Handle<E> handle{std::make_shared<std::vector<E>>(g.v)};
        return lue::create_partitioned_array(
            Shape{static_cast<lue::Count>(g.rows), static_cast<lue::Count>(g.cols)},
            Shape{static_cast<lue::Count>(prows), static_cast<lue::Count>(pcols)},
            lue::InstantiateFromBuffer<Handle<E>, 2>{handle, [](Handle<E> h) { return h.values->data(); }});
    }

}  // namespace fw
