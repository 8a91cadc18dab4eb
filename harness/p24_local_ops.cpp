// P24: see p24_local.hpp
#include "p24_local.hpp"
#if FW_PART == 0 || FW_PART == 1 || FW_PART == 2
#include "lue/framework/algorithm/definition/add.hpp"
#include "lue/framework/algorithm/definition/divide.hpp"
#include "lue/framework/algorithm/definition/modulus.hpp"
#include "lue/framework/algorithm/definition/multiply.hpp"
#include "lue/framework/algorithm/definition/subtract.hpp"
#include "lue/framework/algorithm/value_policies/add.hpp"
#include "lue/framework/algorithm/value_policies/divide.hpp"
#include "lue/framework/algorithm/value_policies/modulus.hpp"
#include "lue/framework/algorithm/value_policies/multiply.hpp"
#include "lue/framework/algorithm/value_policies/subtract.hpp"
#elif FW_PART == 3 || FW_PART == 4
#include "lue/framework/algorithm/definition/equal_to.hpp"
#include "lue/framework/algorithm/definition/greater_than.hpp"
#include "lue/framework/algorithm/definition/greater_than_equal_to.hpp"
#include "lue/framework/algorithm/definition/less_than.hpp"
#include "lue/framework/algorithm/definition/less_than_equal_to.hpp"
#include "lue/framework/algorithm/definition/not_equal_to.hpp"
#include "lue/framework/algorithm/value_policies/comparison.hpp"
#elif FW_PART == 5
#include "lue/framework/algorithm/definition/logical_and.hpp"
#include "lue/framework/algorithm/definition/logical_exclusive_or.hpp"
#include "lue/framework/algorithm/definition/logical_inclusive_or.hpp"
#include "lue/framework/algorithm/definition/logical_not.hpp"
#include "lue/framework/algorithm/definition/close_to.hpp"
#include "lue/framework/algorithm/definition/pow.hpp"
#include "lue/framework/algorithm/definition/atan2.hpp"
#include "lue/framework/algorithm/value_policies/atan2.hpp"
#include "lue/framework/algorithm/value_policies/close_to.hpp"
#include "lue/framework/algorithm/value_policies/logical.hpp"
#include "lue/framework/algorithm/value_policies/pow.hpp"
#elif FW_PART == 6
#include "lue/framework/algorithm/definition/abs.hpp"
#include "lue/framework/algorithm/definition/acos.hpp"
#include "lue/framework/algorithm/definition/asin.hpp"
#include "lue/framework/algorithm/definition/atan.hpp"
#include "lue/framework/algorithm/definition/ceil.hpp"
#include "lue/framework/algorithm/definition/cos.hpp"
#include "lue/framework/algorithm/definition/exp.hpp"
#include "lue/framework/algorithm/definition/floor.hpp"
#include "lue/framework/algorithm/definition/log.hpp"
#include "lue/framework/algorithm/definition/log10.hpp"
#include "lue/framework/algorithm/definition/negate.hpp"
#include "lue/framework/algorithm/definition/round.hpp"
#include "lue/framework/algorithm/definition/sin.hpp"
#include "lue/framework/algorithm/definition/sqrt.hpp"
#include "lue/framework/algorithm/definition/tan.hpp"
#include "lue/framework/algorithm/definition/trunc.hpp"
#include "lue/framework/algorithm/value_policies/abs.hpp"
#include "lue/framework/algorithm/value_policies/acos.hpp"
#include "lue/framework/algorithm/value_policies/asin.hpp"
#include "lue/framework/algorithm/value_policies/atan.hpp"
#include "lue/framework/algorithm/value_policies/ceil.hpp"
#include "lue/framework/algorithm/value_policies/cos.hpp"
#include "lue/framework/algorithm/value_policies/exp.hpp"
#include "lue/framework/algorithm/value_policies/floor.hpp"
#include "lue/framework/algorithm/value_policies/log.hpp"
#include "lue/framework/algorithm/value_policies/log10.hpp"
#include "lue/framework/algorithm/value_policies/negate.hpp"
#include "lue/framework/algorithm/value_policies/round.hpp"
#include "lue/framework/algorithm/value_policies/sin.hpp"
#include "lue/framework/algorithm/value_policies/sqrt.hpp"
#include "lue/framework/algorithm/value_policies/tan.hpp"
#include "lue/framework/algorithm/value_policies/trunc.hpp"
#elif FW_PART == 7
#include "lue/framework/algorithm/definition/cast.hpp"
#include "lue/framework/algorithm/definition/valid.hpp"
#include "lue/framework/algorithm/value_policies/cast.hpp"
#include "lue/framework/algorithm/value_policies/valid.hpp"
#elif FW_PART == 8
#include "lue/framework/algorithm/definition/cell_index.hpp"
#include "lue/framework/algorithm/definition/unique_id.hpp"
#include "lue/framework/algorithm/definition/where.hpp"
#include "lue/framework/algorithm/value_policies/cell_index.hpp"
#include "lue/framework/algorithm/value_policies/unique_id.hpp"
#include "lue/framework/algorithm/value_policies/where.hpp"
#endif

using namespace p24;

namespace {

    namespace vp = lue::value_policies;

    template<typename... E>
    struct List
    {
    };

    template<typename... E, typename F>
    void each(List<E...>, F const& f)
    {
        (f(std::type_identity<E>{}), ...);
    }

#define U1(name) [](auto const& a) { return vp::name(a); }
#define B2(name) [](auto const& a, auto const& b) { return vp::name(a, b); }
#define C2(name) [](auto const& a, auto const& b) { return vp::name<std::uint8_t>(a, b); }

#if FW_PART == 0 || FW_PART == 1 || FW_PART == 2
    template<typename E, int forms>
    void arithmetic(bool layouts)
    {
        using W = Wide<E>;
        binary<E, E, forms>("add", B2(add), [](E a, E b) { return fits<E>(W(a) + W(b)); }, 0, layouts);
        binary<E, E, forms>("subtract", B2(subtract), [](E a, E b) { return fits<E>(W(a) - W(b)); });
        binary<E, E, forms>("multiply", B2(multiply), [](E a, E b) { return fits<E>(W(a) * W(b)); });
        binary<E, E, forms>(
            "divide",
            B2(divide),
            [](E a, E b) -> std::optional<E>
            {
                if (b == 0)
                {
                    return {};
                }
                return fits<E>(W(a) / W(b));
            });
        binary<E, E, forms>(
            "modulus",
            B2(modulus),
            [](E a, E b) -> std::optional<E>
            {
                if (b == 0)
                {
                    return {};
                }
                if constexpr (std::is_floating_point_v<E>)
                {
                    return std::fmod(a, b);
                }
                else
                {
                    return fits<E>(W(a) % W(b));
                }
            });
        if constexpr (forms == 1)
        {
            using namespace lue::value_policies;
            binary<E, E, 0>(
                "operator +", [](auto const& a, auto const& b) { return a + b; },
                [](E a, E b) { return fits<E>(W(a) + W(b)); });
            binary<E, E, 1>(
                "operator -", [](auto const& a, auto const& b) { return a - b; },
                [](E a, E b) { return fits<E>(W(a) - W(b)); });
            binary<E, E, 0>(
                "operator *", [](auto const& a, auto const& b) { return a * b; },
                [](E a, E b) { return fits<E>(W(a) * W(b)); });
            // Operations whose operands are still being computed
            binary<E, E, 0>(
                "a * b + a - b",
                [](auto const& a, auto const& b) { return a * b + a - b; },
                [](E a, E b) -> std::optional<E>
                {
                    auto const ok = [](std::optional<E> x) { return x && !is_nd(*x); };
                    auto const m = fits<E>(W(a) * W(b));
                    if (!ok(m))
                    {
                        return {};
                    }
                    auto const s = fits<E>(W(*m) + W(a));
                    if (!ok(s))
                    {
                        return {};
                    }
                    return fits<E>(W(*s) - W(b));
                },
                0,
                layouts);
        }
    }
#endif

    struct Register
    {
            Register()
            {
#if FW_PART == 0
                arithmetic<std::int32_t, 1>(true);
#elif FW_PART == 1
                arithmetic<double, 1>(false);
#elif FW_PART == 2
                arithmetic<std::uint8_t, 0>(false);
                arithmetic<std::uint32_t, 0>(false);
                arithmetic<std::int64_t, 0>(false);
                arithmetic<std::uint64_t, 0>(false);
                arithmetic<float, 0>(false);
#elif FW_PART == 3 || FW_PART == 4
                using Types = List<
#if FW_PART == 3
                    std::int32_t
#else
                    std::uint8_t,
                    std::uint64_t,
                    std::int64_t,
                    float,
                    double
#endif
                >;
                each(Types{}, [&]<typename E>(std::type_identity<E>)
                        {
                            constexpr int forms = std::is_same_v<E, std::int32_t>;
                            using R = std::optional<std::uint8_t>;
                            binary<E, std::uint8_t, forms>("equal_to", C2(equal_to), [](E a, E b) -> R { return a == b; });
                            binary<E, std::uint8_t, forms>(
                                "not_equal_to", C2(not_equal_to), [](E a, E b) -> R { return a != b; });
                            binary<E, std::uint8_t, forms>("less_than", C2(less_than), [](E a, E b) -> R { return a < b; });
                            binary<E, std::uint8_t, forms>(
                                "less_than_equal_to", C2(less_than_equal_to), [](E a, E b) -> R { return a <= b; });
                            binary<E, std::uint8_t, forms>(
                                "greater_than", C2(greater_than), [](E a, E b) -> R { return a > b; });
                            binary<E, std::uint8_t, forms>(
                                "greater_than_equal_to", C2(greater_than_equal_to), [](E a, E b) -> R { return a >= b; });
                        });
#elif FW_PART == 5
                each(List<std::int32_t, std::uint8_t>{}, [&]<typename E>(std::type_identity<E>)
                        {
                            constexpr int forms = std::is_same_v<E, std::int32_t>;
                            using R = std::optional<std::uint8_t>;
                            binary<E, std::uint8_t, forms>(
                                "logical_and", C2(logical_and), [](E a, E b) -> R { return a != 0 && b != 0; });
                            binary<E, std::uint8_t, forms>(
                                "logical_inclusive_or",
                                C2(logical_inclusive_or),
                                [](E a, E b) -> R { return a != 0 || b != 0; });
                            binary<E, std::uint8_t, forms>(
                                "logical_exclusive_or",
                                C2(logical_exclusive_or),
                                [](E a, E b) -> R { return (a != 0) != (b != 0); });
                            unary<E, std::uint8_t>(
                                "logical_not",
                                [](auto const& a) { return vp::logical_not<std::uint8_t>(a); },
                                [](E a) -> R { return a == 0; });
                        });
                each(List<float, double>{}, [&]<typename E>(std::type_identity<E>)
                        {
                            constexpr int forms = std::is_same_v<E, double>;
                            using R = std::optional<std::uint8_t>;
                            binary<E, std::uint8_t, forms>(
                                "close_to",
                                C2(close_to),
                                [](E a, E b) -> R
                                { return std::abs(a - b) <= (E(1e-8) + E(1e-5) * std::abs(b)); });
                            binary<E, E, forms>(
                                "pow", B2(pow), [](E a, E b) -> std::optional<E> { return std::pow(a, b); }, 1e-6);
                            binary<E, E, 0>(
                                "atan2", B2(atan2), [](E a, E b) -> std::optional<E> { return std::atan2(a, b); }, 1e-6);
                        });
#elif FW_PART == 6
                each(List<float, double>{}, [&]<typename E>(std::type_identity<E>)
                        {
                            using R = std::optional<E>;
                            unary<E, E>("acos", U1(acos), [](E a) -> R { return a < -1 || a > 1 ? R{} : std::acos(a); }, 1e-6);
                            unary<E, E>("asin", U1(asin), [](E a) -> R { return a < -1 || a > 1 ? R{} : std::asin(a); }, 1e-6);
                            unary<E, E>("atan", U1(atan), [](E a) -> R { return std::atan(a); }, 1e-6);
                            unary<E, E>("ceil", U1(ceil), [](E a) -> R { return std::ceil(a); });
                            unary<E, E>("floor", U1(floor), [](E a) -> R { return std::floor(a); });
                            unary<E, E>("round", U1(round), [](E a) -> R { return std::round(a); });
                            unary<E, E>("trunc", U1(trunc), [](E a) -> R { return std::trunc(a); });
                            unary<E, E>("cos", U1(cos), [](E a) -> R { return std::cos(a); }, 1e-6);
                            unary<E, E>("sin", U1(sin), [](E a) -> R { return std::sin(a); }, 1e-6);
                            unary<E, E>("tan", U1(tan), [](E a) -> R { return std::tan(a); }, 1e-6);
                            unary<E, E>("exp", U1(exp), [](E a) -> R { return fits<E>(std::exp(a)); }, 1e-6);
                            unary<E, E>("log", U1(log), [](E a) -> R { return a < 0 ? R{} : std::log(a); }, 1e-6);
                            unary<E, E>("log10", U1(log10), [](E a) -> R { return a < 0 ? R{} : std::log10(a); }, 1e-6);
                            unary<E, E>("sqrt", U1(sqrt), [](E a) -> R { return a < 0 ? R{} : std::sqrt(a); }, 1e-6);
                        });
                each(List<std::int32_t, std::int64_t, float, double>{}, [&]<typename E>(std::type_identity<E>)
                        {
                            using R = std::optional<E>;
                            unary<E, E>("abs", U1(abs), [](E a) -> R { return a < 0 ? E(-a) : a; });
                            unary<E, E>(
                                "negate", U1(negate), [](E a) -> R { return E(-a); }, 0, std::is_same_v<E, std::int32_t>);
                        });
#elif FW_PART == 7
                each(List<std::uint8_t, std::uint32_t, std::uint64_t, std::int32_t, std::int64_t, float, double>{}, [&]<typename E>(std::type_identity<E>)
                        {
                            ops().push_back(
                                {std::string{"valid("} + lue::as_string<E> + ")",
                                 [=](mc::Rec& rec, std::vector<std::string> const& kind, std::string const& tier)
                                 {
                                     auto const values = alphabet<E>();
                                     auto const run = plan(kind, tier, 4, static_cast<long>(values.size()));
                                     auto const& l = run.layouts[0];
                                     auto const in = cycle<E>(l.rows, l.cols, 0, values);
                                     Grid<std::uint8_t> want(l.rows, l.cols);
                                     for (long i = 0; i < in.size(); ++i)
                                     {
                                         want.v[i] = !is_nd(in.v[i]);
                                     }
                                     check<std::uint8_t>(
                                         rec,
                                         "valid",
                                         run.plan,
                                         [&] { return vp::valid<std::uint8_t>(to_lue(in, l.prows, l.pcols)); },
                                         want,
                                         std::format("valid({}) of {}", lue::as_string<E>, in.str()));
                                 },
                                 std::is_same_v<E, double>});
                            // Around the bounds of the types to cast to
                            std::vector<E> extra;
                            if constexpr (std::is_floating_point_v<E>)
                            {
                                for (int const e : {8, 31, 32, 63, 64})
                                {
                                    E const b = std::ldexp(E{1}, e);
                                    extra.insert(
                                        extra.end(),
                                        {b, std::nextafter(b, E{0}), std::nextafter(b, 2 * b), -b, std::nextafter(-b, -2 * b),
                                         std::nextafter(-b, E{0})});
                                }
                            }
                            auto const cast = [&]<typename R>(std::type_identity<R>)
                            {
                                unary<E, R>(
                                    std::string{"cast to "} + lue::as_string<R>,
                                    [](auto const& a) { return vp::cast<R>(a); },
                                    [](E a) -> std::optional<R>
                                    {
                                        using L = std::numeric_limits<R>;
                                        if constexpr (std::is_integral_v<R>)
                                        {
                                            if constexpr (std::is_integral_v<E>)
                                            {
                                                return fits<R>(static_cast<__int128>(a));
                                            }
                                            else
                                            {
                                                long double const w = a;
                                                return w < static_cast<long double>(L::min()) ||
                                                               w > static_cast<long double>(L::max())
                                                           ? std::optional<R>{}
                                                           : std::optional<R>{static_cast<R>(a)};
                                            }
                                        }
                                        else if constexpr (std::is_floating_point_v<E>)
                                        {
                                            return a < static_cast<long double>(L::lowest()) ||
                                                           a > static_cast<long double>(L::max())
                                                       ? std::optional<R>{}
                                                       : std::optional<R>{static_cast<R>(a)};
                                        }
                                        else
                                        {
                                            return static_cast<R>(a);
                                        }
                                    },
                                    0,
                                    false,
                                    extra);
                            };
                            cast(std::type_identity<std::uint8_t>{});
                            cast(std::type_identity<std::uint32_t>{});
                            cast(std::type_identity<std::uint64_t>{});
                            cast(std::type_identity<std::int32_t>{});
                            cast(std::type_identity<std::int64_t>{});
                            cast(std::type_identity<float>{});
                            cast(std::type_identity<double>{});
                        });
#elif FW_PART == 8
                wheres<std::uint8_t, std::int32_t>();
                wheres<std::int32_t, double>();
                wheres<std::uint8_t, std::uint8_t>();
                ids<std::uint8_t, std::uint64_t>();
                ids<std::int32_t, std::int64_t>();
#endif
            }

#if FW_PART == 8
            // Conditions, true and false values: all combinations
            template<typename C, typename E>
            void wheres()
            {
                auto const name = std::string{"where("} + lue::as_string<C> + ", " + lue::as_string<E> + ")";
                ops().push_back(
                    {name,
                     [=](mc::Rec& rec, std::vector<std::string> const& kind, std::string const& tier)
                     {
                         std::vector<C> const cs{nd<C>(), 0, 1, 5};
                         std::vector<E> const es{nd<E>(), 0, 7};
                         auto const run = plan(kind, tier, 4, 9);
                         auto const& l = run.layouts[0];
                         Grid<C> c(l.rows, l.cols);
                         Grid<E> t(l.rows, l.cols), f(l.rows, l.cols), want(l.rows, l.cols);
                         for (long i = 0; i < c.size(); ++i)
                         {
                             long const j = kind[0] == "values" ? i : i * 7;
                             c.v[i] = cs[j % 4];
                             t.v[i] = es[j / 4 % 3];
                             f.v[i] = es[j / 12 % 3];
                         }
                         auto const where = [](C const& c, E const& t, E const& f) -> E
                         { return is_nd(c) ? nd<E>() : c ? t : f; };
                         auto const in = std::format(
                             "{} of {}, {} and {} in {}x{} partitions",
                             name,
                             c.str(),
                             t.str(),
                             f.str(),
                             l.prows,
                             l.pcols);
                         auto const test = [&](std::string const& form, auto const& call, auto const& expected)
                         {
                             for (long i = 0; i < c.size(); ++i)
                             {
                                 want.v[i] = expected(i);
                             }
                             check<E>(
                                 rec, "where " + form, run.plan, call, want, in + " (" + form + ")");
                         };
                         auto const lc = [&] { return to_lue(c, l.prows, l.pcols); };
                         auto const lt = [&] { return to_lue(t, l.prows, l.pcols); };
                         auto const lf = [&] { return to_lue(f, l.prows, l.pcols); };
                         auto const scalar = [](E v) { return lue::Scalar<E>{hpx::async([v] { return v; }).share()}; };
                         test("array array", [&] { return vp::where(lc(), lt(), lf()); },
                             [&](long i) { return where(c.v[i], t.v[i], f.v[i]); });
                         test("array none", [&] { return vp::where(lc(), lt()); },
                             [&](long i) { return where(c.v[i], t.v[i], nd<E>()); });
                         for (E const v : es)
                         {
                             auto const s = " " + show(v);
                             test("array scalar" + s, [&] { return vp::where(lc(), lt(), scalar(v)); },
                                 [&](long i) { return where(c.v[i], t.v[i], v); });
                             test("scalar array" + s, [&] { return vp::where(lc(), scalar(v), lf()); },
                                 [&](long i) { return where(c.v[i], v, f.v[i]); });
                             test("array value" + s, [&] { return vp::where(lc(), lt(), v); },
                                 [&](long i) { return where(c.v[i], t.v[i], v); });
                             test("value array" + s, [&] { return vp::where(lc(), v, lf()); },
                                 [&](long i) { return where(c.v[i], v, f.v[i]); });
                             test("value none" + s, [&] { return vp::where(lc(), v); },
                                 [&](long i) { return where(c.v[i], v, nd<E>()); });
                             if (kind[0] == "values")
                             {
                                 for (E const w : es)
                                 {
                                     auto const s2 = s + " " + show(w);
                                     auto const e = [&](long i) { return where(c.v[i], v, w); };
                                     test("value value" + s2, [&] { return vp::where(lc(), v, w); }, e);
                                     test("scalar value" + s2, [&] { return vp::where(lc(), scalar(v), w); }, e);
                                     test("value scalar" + s2, [&] { return vp::where(lc(), v, scalar(w)); }, e);
                                     test("scalar scalar" + s2, [&] { return vp::where(lc(), scalar(v), scalar(w)); }, e);
                                 }
                             }
                         }
                     },
                     std::is_same_v<E, std::int32_t>});
            }

            // IDs depend on the order in which partitions get handled; that they are unique does not
            template<typename C, typename E>
            void ids()
            {
                auto const suffix = std::string{"("} + lue::as_string<C> + ", " + lue::as_string<E> + ")";
                ops().push_back(
                    {"unique_id" + suffix,
                     [=](mc::Rec& rec, std::vector<std::string> const& kind, std::string const& tier)
                     {
                         auto run = plan(kind, tier, 5, 5);
                         auto const& l = run.layouts[0];
                         for (int shift = 0; shift < 3; ++shift)
                         {
                             auto const c = cycle<C>(
                                 l.rows,
                                 l.cols,
                                 shift,
                                 shift == 0 ? std::vector<C>{1, 1, 0, 1, nd<C>(), 1} : std::vector<C>{1, 0, nd<C>()});
                             explore(
                                 rec,
                                 "unique_id",
                                 run.plan,
                                 [&]() -> std::string
                                 {
                                     std::string problem;
                                     auto const got =
                                         from_lue(vp::unique_id<E>(to_lue(c, l.prows, l.pcols)), &problem);
                                     std::set<E> seen;
                                     for (long i = 0; i < c.size(); ++i)
                                     {
                                         bool const ok = is_nd(c.v[i])     ? is_nd(got.v[i])
                                                         : c.v[i] == C{0} ? got.v[i] == E{0}
                                                                          : got.v[i] > E{0} && !is_nd(got.v[i]) &&
                                                                                seen.insert(got.v[i]).second;
                                         if (!ok)
                                         {
                                             return got.str();
                                         }
                                     }
                                     return problem.empty() ? "unique" : problem;
                                 },
                                 "unique",
                                 std::format("unique_id of {} in {}x{} partitions", c.str(), l.prows, l.pcols));
                         }
                     },
                     std::is_same_v<C, std::uint8_t>});
                ops().push_back(
                    {"cell_index" + suffix,
                     [=](mc::Rec& rec, std::vector<std::string> const& kind, std::string const& tier)
                     {
                         auto const run = plan(kind, tier, 5, 7);
                         auto const& l = run.layouts[0];
                         auto const c = cycle<C>(l.rows, l.cols, 0, {1, 0, 1, nd<C>(), 2});
                         for (long dimension = 0; dimension < 2; ++dimension)
                         {
                             Grid<E> want(l.rows, l.cols);
                             for (long i = 0; i < c.size(); ++i)
                             {
                                 want.v[i] = is_nd(c.v[i]) || c.v[i] == C{0}
                                                 ? nd<E>()
                                                 : static_cast<E>(dimension == 0 ? i / l.cols : i % l.cols);
                             }
                             check<E>(
                                 rec,
                                 "cell_index",
                                 run.plan,
                                 [&] { return vp::cell_index<E>(to_lue(c, l.prows, l.pcols), dimension); },
                                 want,
                                 std::format(
                                     "cell_index({}) of {} in {}x{} partitions", dimension, c.str(), l.prows, l.pcols));
                         }
                     },
                     std::is_same_v<C, std::uint8_t>});
            }
#endif
    } register_;

}  // namespace
