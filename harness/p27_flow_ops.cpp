// P27: see p27_flow.hpp
#include "p27_flow.hpp"
#include "lue/framework/algorithm/serialize/kernel.hpp"
#if FW_PART == 0
#include "lue/framework/algorithm/definition/accu.hpp"
#include "lue/framework/algorithm/definition/accu_info.hpp"
#include "lue/framework/algorithm/value_policies/accu.hpp"
#include "lue/framework/algorithm/value_policies/accu_info.hpp"
#elif FW_PART == 1
#include "lue/framework/algorithm/definition/accu_threshold.hpp"
#include "lue/framework/algorithm/value_policies/accu_threshold.hpp"
#elif FW_PART == 2
#include "lue/framework/algorithm/definition/accu_capacity.hpp"
#include "lue/framework/algorithm/value_policies/accu_capacity.hpp"
#elif FW_PART == 3
#include "lue/framework/algorithm/definition/accu_fraction.hpp"
#include "lue/framework/algorithm/value_policies/accu_fraction.hpp"
#elif FW_PART == 4
#include "lue/framework/algorithm/definition/accu_trigger.hpp"
#include "lue/framework/algorithm/value_policies/accu_trigger.hpp"
#elif FW_PART == 5
#include "lue/framework/algorithm/definition/downstream.hpp"
#include "lue/framework/algorithm/definition/downstream_distance.hpp"
#include "lue/framework/algorithm/definition/inflow_count.hpp"
#include "lue/framework/algorithm/definition/upstream.hpp"
#include "lue/framework/algorithm/value_policies/downstream.hpp"
#include "lue/framework/algorithm/value_policies/upstream.hpp"
#elif FW_PART == 6
#include "lue/framework/algorithm/definition/kinematic_wave.hpp"
#include "lue/framework/algorithm/value_policies/kinematic_wave.hpp"
#endif

namespace p27 {
    namespace {

        namespace vp = lue::value_policies;

        template<typename E>
        auto inflow_values(long salt) -> std::vector<E>
        {
            switch (salt % 3)
            {
                case 0:
                    return {E(1), E(2), E(4), E(8), E(16)};
                case 1:
                    return {E(1), E(3), E(0), E(9), nd<E>(), E(5), E(2)};
                default:
                    return {E(2), E(0), E(7), E(-1), E(1), E(6), E(4)};
            }
        }

#if FW_PART == 0

        template<typename E>
        void accu(bool scalar, bool many)
        {
            std::string const name = std::format("accu({}, {})", lue::as_string<E>, scalar ? "value" : "array");
            ops().push_back(
                {name,
                 [=](mc::Rec& rec, Plan const& plan, Layout const& l, Grid<D> const& g, long salt)
                 {
                     auto const values = inflow_values<E>(salt);
                     auto const inflow = scalar ? cycle<E>(l, 0, 0, {values[static_cast<std::size_t>(salt) % values.size()]})
                                                : cycle<E>(l, salt, salt / 2, values);
                     auto const want = route<E>(
                                           g,
                                           [&](std::size_t k, E upstream) -> std::pair<E, E>
                                           {
                                               E const v = inflow.v[k];
                                               E const out = is_nd(v) || v < 0 ? nd<E>() : upstream + v;
                                               return {out, out};
                                           })
                                           .first;
                     explore(
                         rec,
                         "accu",
                         plan,
                         [&]
                         {
                             auto const d = to_lue(g, l.prows, l.pcols);
                             auto const one = scalar ? vp::accu(d, lue::Scalar<E>{inflow.v[0]}) : vp::accu(d, to_lue(inflow, l.prows, l.pcols));
                             if (salt % 4 == 0)
                             {
                                 // The same flow directions are used more than once, before the first result is there
                                 auto const two = vp::accu(d, to_lue(inflow, l.prows, l.pcols));
                                 if (auto const s = compare(two, want); s != "ok")
                                 {
                                     return "second time: " + s;
                                 }
                             }
                             return compare(one, want);
                         },
                         "ok",
                         where(name, g, "inflow " + inflow.str(), l));
                 },
                 many});
        }

        struct Info
        {
                Info()
                {
                    ops().push_back(
                        {"accu_info",
                         [=](mc::Rec& rec, Plan const& plan, Layout const& l, Grid<D> const& g, long)
                         {
                             auto const count = counts(g);
                             explore(
                                 rec,
                                 "accu_info",
                                 plan,
                                 [&]() -> std::string
                                 {
                                     std::string problem;
                                     auto const got = from_lue(vp::accu_info(to_lue(g, l.prows, l.pcols)), &problem);
                                     for (long i = 0; problem.empty() && i < g.size(); ++i)
                                     {
                                         auto const k = static_cast<std::size_t>(i);
                                         auto const v = got.v[k];
                                         if (is_nd(v) != (to(g, i) == -3) || (v == lue::ridge_cell) != (to(g, i) != -3 && count[k] == 0) ||
                                             (v == lue::sink_cell && to(g, i) != -1))
                                         {
                                             problem = std::format("cell {} is in class {}", i, show(v));
                                         }
                                     }
                                     return problem.empty() ? "ok" : problem;
                                 },
                                 "ok",
                                 where("accu_info", g, "", l));
                         },
                         false});
                }
        };

        struct Register
        {
                Register()
                {
                    accu<float>(false, true);
                    accu<double>(false, false);
                    accu<double>(true, false);
                    Info{};
                }
        } const register_;

#elif FW_PART <= 4

        // Routing with a second argument
#if FW_PART == 1
        std::string const op_name = "accu_threshold";
#define ROUTE vp::accu_threshold
        template<typename E>
        auto split(E total, E a) -> std::pair<E, E>
        {
            return total > a ? std::pair{total - a, a} : std::pair{E(0), total};
        }
#elif FW_PART == 2
        std::string const op_name = "accu_capacity";
#define ROUTE vp::accu_capacity
        template<typename E>
        auto split(E total, E a) -> std::pair<E, E>
        {
            return {std::min(total, a), std::max(total - a, E(0))};
        }
#elif FW_PART == 3
        std::string const op_name = "accu_fraction";
#define ROUTE vp::accu_fraction
        template<typename E>
        auto split(E total, E a) -> std::pair<E, E>
        {
            return {a * total, (1 - a) * total};
        }
#elif FW_PART == 4
        std::string const op_name = "accu_trigger";
#define ROUTE vp::accu_trigger
        template<typename E>
        auto split(E total, E a) -> std::pair<E, E>
        {
            return total >= a ? std::pair{total, E(0)} : std::pair{E(0), total};
        }
#endif

        template<typename E>
        void accu(bool scalar_inflow, bool scalar_argument, bool many)
        {
            std::string const name =
                std::format("{}({}, {}, {})", op_name, lue::as_string<E>, scalar_inflow ? "value" : "array", scalar_argument ? "value" : "array");
            ops().push_back(
                {name,
                 [=](mc::Rec& rec, Plan const& plan, Layout const& l, Grid<D> const& g, long salt)
                 {
                     auto const values = inflow_values<E>(salt);
                     std::vector<E> arguments =
                         FW_PART == 3 ? std::vector<E>{E(0.5), E(0), E(1), E(0.25), E(0.5)} : std::vector<E>{E(2), E(0), E(4), E(100), E(1)};
                     if (salt % 5 == 3)
                     {
                         arguments.push_back(nd<E>());
                     }
                     if (salt % 5 == 4)
                     {
                         arguments.push_back(E(-2));
                     }
                     if (FW_PART == 3 && salt % 5 == 2)
                     {
                         arguments.push_back(E(1.5));
                     }
                     auto const inflow = scalar_inflow ? cycle<E>(l, 0, 0, {values[static_cast<std::size_t>(salt) % values.size()]})
                                                       : cycle<E>(l, salt, salt / 2, values);
                     auto const argument = scalar_argument ? cycle<E>(l, 0, 0, {arguments[static_cast<std::size_t>(salt / 2) % arguments.size()]})
                                                           : cycle<E>(l, salt / 3, salt, arguments);
                     auto const want = route<E>(
                         g,
                         [&](std::size_t k, E upstream) -> std::pair<E, E>
                         {
                             E const v = inflow.v[k];
                             E const a = argument.v[k];
                             if (is_nd(v) || is_nd(a) || v < 0 || a < 0 || (FW_PART == 3 && a > 1))
                             {
                                 return {nd<E>(), nd<E>()};
                             }
                             return split<E>(upstream + v, a);
                         });
                     explore(
                         rec,
                         op_name,
                         plan,
                         [&]
                         {
                             auto const d = to_lue(g, l.prows, l.pcols);
                             lue::Scalar<E> const v0{inflow.v[0]};
                             lue::Scalar<E> const a0{argument.v[0]};
                             auto const inflow_array = [&] { return to_lue(inflow, l.prows, l.pcols); };
                             auto const argument_array = [&] { return to_lue(argument, l.prows, l.pcols); };
                             auto const [outflow, remainder] = scalar_inflow ? (scalar_argument ? ROUTE(d, v0, a0) : ROUTE(d, v0, argument_array()))
                                                                             : (scalar_argument ? ROUTE(d, inflow_array(), a0)
                                                                                                : ROUTE(d, inflow_array(), argument_array()));
                             auto const o = compare(outflow, want.first);
                             auto const r = compare(remainder, want.second);
                             return o == "ok" && r == "ok" ? "ok" : "outflow " + o + ", remainder " + r;
                         },
                         "ok",
                         where(name, g, "inflow " + inflow.str() + ", " + argument.str(), l));
                 },
                 many});
        }

        struct Register
        {
                Register()
                {
                    accu<double>(false, false, false);
                    accu<float>(false, true, false);
                    accu<double>(true, false, false);
                    accu<float>(true, true, false);
                }
        } const register_;

#elif FW_PART == 5

        template<typename E>
        void upstream()
        {
            std::string const name = std::format("upstream({})", lue::as_string<E>);
            ops().push_back(
                {name,
                 [=](mc::Rec& rec, Plan const& plan, Layout const& l, Grid<D> const& g, long salt)
                 {
                     auto const material = cycle<E>(l, salt, salt / 2, {E(1), E(3), nd<E>(), E(8), E(0), E(5), E(16)});
                     Grid<E> want(l.rows, l.cols);
                     for (long i = 0; i < g.size(); ++i)
                     {
                         want.v[static_cast<std::size_t>(i)] =
                             to(g, i) == -3 || is_nd(material.v[static_cast<std::size_t>(i)]) ? nd<E>() : E(0);
                     }
                     for (long i = 0; i < g.size(); ++i)
                     {
                         if (long const t = to(g, i); t >= 0 && !is_nd(want.v[static_cast<std::size_t>(t)]))
                         {
                             auto const m = material.v[static_cast<std::size_t>(i)];
                             auto& v = want.v[static_cast<std::size_t>(t)];
                             v = is_nd(m) ? nd<E>() : static_cast<E>(v + m);
                         }
                     }
                     explore(
                         rec,
                         "upstream",
                         plan,
                         [&]
                         {
                             return unless_too_small<E>(
                                 l, [&] { return vp::upstream(to_lue(g, l.prows, l.pcols), to_lue(material, l.prows, l.pcols)); }, want);
                         },
                         "ok",
                         where(name, g, "material " + material.str(), l));
                 },
                 std::is_same_v<E, std::int32_t>,
                 true});
        }

        template<typename E>
        void downstream()
        {
            std::string const name = std::format("downstream({})", lue::as_string<E>);
            ops().push_back(
                {name,
                 [=](mc::Rec& rec, Plan const& plan, Layout const& l, Grid<D> const& g, long salt)
                 {
                     auto const material = cycle<E>(l, salt, salt / 2, {E(1), E(3), nd<E>(), E(8), E(0), E(5), E(16)});
                     Grid<E> want(l.rows, l.cols);
                     for (long i = 0; i < g.size(); ++i)
                     {
                         long const t = to(g, i);
                         E const m = material.v[static_cast<std::size_t>(i)];
                         want.v[static_cast<std::size_t>(i)] = t == -3 || is_nd(m) ? nd<E>()
                                                               : t == -1           ? m
                                                               : t == -2           ? E(0)
                                                                                   : material.v[static_cast<std::size_t>(t)];
                     }
                     explore(
                         rec,
                         "downstream",
                         plan,
                         [&]
                         {
                             return unless_too_small<E>(
                                 l, [&] { return vp::downstream(to_lue(g, l.prows, l.pcols), to_lue(material, l.prows, l.pcols)); }, want);
                         },
                         "ok",
                         where(name, g, "material " + material.str(), l));
                 },
                 std::is_same_v<E, std::int32_t>,
                 true});
        }

        template<typename E>
        void distance()
        {
            std::string const name = std::format("downstream_distance({})", lue::as_string<E>);
            ops().push_back(
                {name,
                 [=](mc::Rec& rec, Plan const& plan, Layout const& l, Grid<D> const& g, long salt)
                 {
                     E const size = salt % 2 == 0 ? E(10) : E(0.5);
                     Grid<E> want(l.rows, l.cols);
                     for (std::size_t k = 0; k < g.v.size(); ++k)
                     {
                         D const d = g.v[k];
                         want.v[k] = d == no_flow() ? nd<E>() : d == sink ? E(0) : d % 2 == 0 ? size : std::sqrt(E(2)) * size;
                     }
                     using Policies = lue::policy::downstream_distance::DefaultValuePolicies<D, E>;
                     fw::check<E>(
                         rec,
                         "downstream_distance",
                         plan,
                         [&] { return lue::downstream_distance(Policies{}, to_lue(g, l.prows, l.pcols), size); },
                         want,
                         where(name, g, "", l),
                         1e-6);
                 },
                 false});
        }

        void count()
        {
            using C = std::uint8_t;
            ops().push_back(
                {"inflow_count",
                 [=](mc::Rec& rec, Plan const& plan, Layout const& l, Grid<D> const& g, long salt)
                 {
                     auto const count = counts(g);
                     Grid<C> want(l.rows, l.cols);
                     for (long i = 0; i < g.size(); ++i)
                     {
                         auto const k = static_cast<std::size_t>(i);
                         want.v[k] = to(g, i) == -3 ? nd<C>() : static_cast<C>(count[k]);
                     }
                     using Policies = lue::policy::inflow_count::DefaultValuePolicies<C, D>;
                     explore(
                         rec,
                         "inflow_count",
                         plan,
                         [&]
                         {
                             auto const d = to_lue(g, l.prows, l.pcols);
                             auto const one = lue::inflow_count<C>(Policies{}, d);
                             if (salt % 4 == 0)
                             {
                                 auto const two = lue::inflow_count<C>(Policies{}, d);
                                 if (auto const s = compare(two, want); s != "ok")
                                 {
                                     return "second time: " + s;
                                 }
                             }
                             return compare(one, want);
                         },
                         "ok",
                         where("inflow_count", g, "", l));
                 },
                 true});
        }

        struct Register
        {
                Register()
                {
                    upstream<std::int32_t>();
                    upstream<double>();
                    downstream<std::int32_t>();
                    downstream<float>();
                    distance<float>();
                    distance<double>();
                    count();
                }
        } const register_;

#elif FW_PART == 6

        // New discharge: the q for which dt / dx * q + alpha * q^beta is what is known, by bisection
        template<typename E>
        auto discharge(E upstream, E current, E inflow, E alpha, E beta, E dt, E dx) -> E
        {
            if (upstream + current == 0 && inflow == 0)
            {
                return 0;
            }
            long double const a = alpha, b = beta, t = static_cast<long double>(dt) / dx;
            long double const known = t * upstream + a * std::pow(static_cast<long double>(current), b) + static_cast<long double>(dt) * inflow;
            long double low = 0, high = 1e6;
            for (int i = 0; i < 200; ++i)
            {
                long double const q = (low + high) / 2;
                (t * q + a * std::pow(q, b) < known ? low : high) = q;
            }
            return static_cast<E>(low);
        }

        template<typename E>
        void wave(bool scalars)
        {
            std::string const name = std::format("kinematic_wave({}, {})", lue::as_string<E>, scalars ? "values" : "arrays");
            ops().push_back(
                {name,
                 [=](mc::Rec& rec, Plan const& plan, Layout const& l, Grid<D> const& g, long salt)
                 {
                     // Current outflow is positive: see issue 703 for the iterations for dry cells
                     bool const bad = salt % 3 == 1;
                     auto const current = cycle<E>(l, salt, salt / 2, bad ? std::vector<E>{1, 2, 0.5, nd<E>(), 3, -1} : std::vector<E>{1, 2, 0.5, 4});
                     auto const inflow = cycle<E>(l, salt / 2, salt, salt % 4 == 2 ? std::vector<E>{0.25, 0, 1, -1, 2, nd<E>()} : std::vector<E>{0.25, 0, 1, 2});
                     auto const alpha = scalars ? cycle<E>(l, 0, 0, {1.5}) : cycle<E>(l, 1, salt, {1.5, 1, 2});
                     auto const beta = scalars ? cycle<E>(l, 0, 0, {0.6}) : cycle<E>(l, 2, salt, {0.6, 1, 1.5});
                     auto const length =
                         scalars ? cycle<E>(l, 0, 0, {10}) : cycle<E>(l, 1, salt, salt % 5 == 3 ? std::vector<E>{10, 0, 4, 5} : std::vector<E>{10, 20, 4});
                     E const dt = 15;
                     auto const want = route<E>(
                                           g,
                                           [&](std::size_t k, E upstream) -> std::pair<E, E>
                                           {
                                               E q = nd<E>();
                                               if (!is_nd(current.v[k]) && !is_nd(inflow.v[k]) && current.v[k] >= 0 && inflow.v[k] >= 0 && length.v[k] > 0)
                                               {
                                                   q = discharge<E>(upstream, current.v[k], inflow.v[k], alpha.v[k], beta.v[k], dt, length.v[k]);
                                               }
                                               return {q, q};
                                           })
                                           .first;
                     fw::check<E>(
                         rec,
                         "kinematic_wave",
                         plan,
                         [&]
                         {
                             auto const d = to_lue(g, l.prows, l.pcols);
                             auto const c = to_lue(current, l.prows, l.pcols);
                             auto const i = to_lue(inflow, l.prows, l.pcols);
                             using S = lue::Scalar<E>;
                             return scalars ? vp::kinematic_wave(d, c, i, S{alpha.v[0]}, S{beta.v[0]}, S{dt}, S{length.v[0]})
                                            : vp::kinematic_wave(
                                                  d, c, i, to_lue(alpha, l.prows, l.pcols), to_lue(beta, l.prows, l.pcols), S{dt}, to_lue(length, l.prows, l.pcols));
                         },
                         want,
                         where(name, g, "current outflow " + current.str() + ", inflow " + inflow.str(), l),
                         sizeof(E) == 4 ? 1e-3 : 1e-6);
                 },
                 false});
        }

        struct Register
        {
                Register()
                {
                    wave<double>(false);
                    wave<double>(true);
                    wave<float>(true);
                }
        } const register_;

#endif

    }  // namespace
}  // namespace p27
