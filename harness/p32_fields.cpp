// P32: operations on fields, the C++ API. Fields contain arrays, scalars, or literals, of one of the element types. Each
// operation is called with all combinations of these.
#define MC_BATCH 40
#include "fw.hpp"
#include "lue/framework/algorithm/serialize/kernel.hpp"
#include "lue/framework/algorithm/open_simplex_noise.hpp"
#include "lue/framework/algorithm/value_policies/open_simplex_noise.hpp"
#include "lue/framework/api/cxx/field.hpp"
#include "lue/framework/api/cxx/kernel.hpp"
#include "lue/framework/api/cxx.hpp"
#include "lue/framework/api/cxx/focal_operation.hpp"
#include <gdal_priv.h>
#include <filesystem>

using namespace fw;
namespace api = lue::api;


namespace {

    double const none{std::numeric_limits<double>::quiet_NaN()};  // No-data

    struct Layout
    {
            long rows, cols, prows, pcols;
    };

    struct Operand
    {
            char kind;  // Array, Scalar, Literal
            char type;  // u(int8), i(nt32), f(loat64)
    };

    template<typename F>
    auto with_type(char const type, F const& f)
    {
        return type == 'u'   ? f(std::type_identity<std::uint8_t>{})
               : type == 'i' ? f(std::type_identity<std::int32_t>{})
                             : f(std::type_identity<double>{});
    }

    template<typename E>
    auto constexpr type_of() -> char
    {
        return std::is_same_v<E, std::uint8_t> ? 'u' : std::is_same_v<E, std::int32_t> ? 'i' : 'f';
    }

    template<typename E>
    auto to_element(double const v) -> E
    {
        return std::isnan(v) ? nd<E>() : static_cast<E>(v);
    }

    template<typename E>
    auto to_double(E const& v) -> double
    {
        return is_nd(v) ? none : static_cast<double>(v);
    }

    // What is in the array passed as an operation's slot'th argument, and in the scalar and the literal
    auto array_values(int const slot, char const type) -> std::vector<double>
    {
        switch (slot)
        {
            case 0:
                return type == 'u'   ? std::vector<double>{0, 1, 2, 3, none, 6}
                       : type == 'i' ? std::vector<double>{-2, 2, 0, 3, none, 6}
                                     : std::vector<double>{-2, 0.5, 3, 4, none, 2.5};
            case 1:
                return type == 'u'   ? std::vector<double>{2, 2, none, 3, 1, 0}
                       : type == 'i' ? std::vector<double>{2, -3, none, 3, -1, 0}
                                     : std::vector<double>{2, 2, none, 4, 1.5, 0};
            default:
                return {7, 8, 9, 10, none, 11};
        }
    }

    auto single_value(int const slot, char const kind) -> double
    {
        double const values[3][2] = {{3, 2}, {2, 3}, {12, 13}};
        return values[slot][kind == 'S' ? 0 : 1];
    }

    auto values(int const slot, Operand const& o) -> std::vector<double>
    {
        return o.kind == 'A' ? array_values(slot, o.type) : std::vector<double>{single_value(slot, o.kind)};
    }

    auto make(std::vector<double> const& v, Operand const& o, Layout const& l) -> api::Field
    {
        return with_type(
            o.type,
            [&]<typename E>(std::type_identity<E>) -> api::Field
            {
                if (o.kind == 'A')
                {
                    Grid<E> g(l.rows, l.cols);
                    std::ranges::transform(v, g.v.begin(), to_element<E>);
                    return to_lue(g, l.prows, l.pcols);
                }
                if (o.kind == 'S')
                {
                    return lue::Scalar<E>{to_element<E>(v[0])};
                }
                return to_element<E>(v[0]);
            });
    }

    auto text(char const kind, char const type, std::vector<double> const& v, Layout const& l) -> std::string
    {
        std::string s{std::string{kind} + type};
        if (kind == 'A')
        {
            s += std::format(" {}x{}", l.rows, l.cols);
        }
        for (auto const x : v)
        {
            s += std::isnan(x) ? std::string{" -"} : std::format(" {:.9g}", x + 0.0);  // No negative zeros
        }
        return s;
    }

    auto text(api::Field const& field) -> std::string
    {
        return std::visit(
            []<typename T>(T const& v) -> std::string
            {
                if constexpr (std::is_arithmetic_v<T>)
                {
                    return text('L', type_of<T>(), {to_double(v)}, {});
                }
                else if constexpr (requires { v.partitions(); })
                {
                    using E = lue::ElementT<T>;
                    std::string problem;
                    auto const g = from_lue<E>(v, &problem);
                    std::vector<double> d;
                    for (auto const x : g.v)
                    {
                        d.push_back(to_double(x));
                    }
                    return problem.empty() ? text('A', type_of<E>(), d, {g.rows, g.cols, 0, 0}) : problem;
                }
                else
                {
                    auto const x = from_scalar(v);
                    return text('S', type_of<std::decay_t<decltype(x)>>(), {to_double(x)}, {});
                }
            },
            field.variant());
    }


    using Value = std::optional<double>;
    using Fields = std::vector<api::Field>;

    struct Operation
    {
            std::string name;
            std::size_t arity;
            std::string types;  // Element types the operation is defined for
            char result;        // Type of result. =: same as argument's
            std::string form;   // all: a result for all kinds of fields. array: only for arrays. where: see there
            std::function<api::Field(Fields const&)> f;
            std::function<Value(std::vector<double> const&, char)> value;
    };

    auto operations() -> std::vector<Operation> const&
    {
        static auto const result = []
        {
            std::vector<Operation> r;
            auto unary = [&](std::string const& name, std::string const& types, char const result, auto const f, auto const value)
            {
                r.push_back({name, 1, types, result, "all", [f](Fields const& a) -> api::Field { return f(a[0]); },
                             [value](std::vector<double> const& v, char) -> Value { return value(v[0]); }});
            };
            auto binary = [&](std::string const& name, std::string const& types, char const result, auto const f, auto const value,
                              std::string const& form = "all")
            {
                r.push_back({name, 2, types, result, form, [f](Fields const& a) -> api::Field { return f(a[0], a[1]); },
                             [value](std::vector<double> const& v, char const t) -> Value
                             {
                                 if constexpr (requires { value(v[0], v[1], t); })
                                 {
                                     return value(v[0], v[1], t);
                                 }
                                 else
                                 {
                                     return value(v[0], v[1]);
                                 }
                             }});
            };
#define U(op) [](api::Field const& a) { return api::op(a); }
#define B(op) [](api::Field const& a, api::Field const& b) { return api::op(a, b); }
#define O1(op) [](api::Field const& a) { return op a; }
#define O2(op) [](api::Field const& a, api::Field const& b) { return a op b; }

            using D = double;
            auto negate = [](D a) -> Value { return -a; };
            auto logical_not = [](D a) -> Value { return a == 0; };
            unary("abs", "if", '=', U(abs), [](D a) -> Value { return std::abs(a); });
            unary("acos", "f", '=', U(acos), [](D a) { return std::abs(a) > 1 ? Value{} : std::acos(a); });
            unary("asin", "f", '=', U(asin), [](D a) { return std::abs(a) > 1 ? Value{} : std::asin(a); });
            unary("atan", "f", '=', U(atan), [](D a) -> Value { return std::atan(a); });
            unary("ceil", "f", '=', U(ceil), [](D a) -> Value { return std::ceil(a); });
            unary("cos", "f", '=', U(cos), [](D a) -> Value { return std::cos(a); });
            unary("exp", "f", '=', U(exp), [](D a) -> Value { return std::exp(a); });
            unary("floor", "f", '=', U(floor), [](D a) -> Value { return std::floor(a); });
            unary("log", "f", '=', U(log), [](D a) { return a <= 0 ? Value{} : std::log(a); });
            unary("log10", "f", '=', U(log10), [](D a) { return a <= 0 ? Value{} : std::log10(a); });
            unary("negate", "if", '=', U(negate), negate);
            unary("-", "if", '=', O1(-), negate);
            unary("round", "f", '=', U(round), [](D a) -> Value { return std::round(a); });
            unary("sin", "f", '=', U(sin), [](D a) -> Value { return std::sin(a); });
            unary("sqrt", "f", '=', U(sqrt), [](D a) { return a < 0 ? Value{} : std::sqrt(a); });
            unary("tan", "f", '=', U(tan), [](D a) -> Value { return std::tan(a); });
            unary("trunc", "f", '=', U(trunc), [](D a) -> Value { return std::trunc(a); });
            unary("logical_not", "ui", 'u', U(logical_not), logical_not);
            unary("!", "ui", 'u', O1(!), logical_not);
            unary("valid", "uif", 'u', U(valid), [](D a) -> Value { return !std::isnan(a); });

            auto add = [](D a, D b) -> Value { return a + b; };
            auto subtract = [](D a, D b) -> Value { return a - b; };
            auto multiply = [](D a, D b) -> Value { return a * b; };
            auto divide = [](D a, D b, char const t) { return b == 0 ? Value{} : t == 'f' ? a / b : std::trunc(a / b); };
            auto modulus = [](D a, D b) { return b == 0 ? Value{} : std::fmod(a, b); };
            auto eq = [](D a, D b) -> Value { return a == b; };
            auto ne = [](D a, D b) -> Value { return a != b; };
            auto lt = [](D a, D b) -> Value { return a < b; };
            auto le = [](D a, D b) -> Value { return a <= b; };
            auto gt = [](D a, D b) -> Value { return a > b; };
            auto ge = [](D a, D b) -> Value { return a >= b; };
            auto conjunction = [](D a, D b) -> Value { return a != 0 && b != 0; };
            auto disjunction = [](D a, D b) -> Value { return a != 0 || b != 0; };
            auto exclusive = [](D a, D b) -> Value { return (a != 0) != (b != 0); };
            binary("add", "uif", '=', B(add), add);
            binary("+", "uif", '=', O2(+), add);
            binary("subtract", "uif", '=', B(subtract), subtract);
            binary("-", "uif", '=', O2(-), subtract);
            binary("multiply", "uif", '=', B(multiply), multiply);
            binary("*", "uif", '=', O2(*), multiply);
            binary("divide", "uif", '=', B(divide), divide);
            binary("/", "uif", '=', O2(/), divide);
            binary("modulus", "uif", '=', B(modulus), modulus);
            binary("%", "uif", '=', O2(%), modulus);
            binary("pow", "f", '=', B(pow), [](D a, D b) -> Value { return std::pow(a, b); });
            binary("atan2", "f", '=', B(atan2), [](D a, D b) -> Value { return std::atan2(a, b); }, "arrays");
            binary("equal_to", "uif", 'u', B(equal_to), eq);
            binary("==", "uif", 'u', O2(==), eq);
            binary("not_equal_to", "uif", 'u', B(not_equal_to), ne);
            binary("!=", "uif", 'u', O2(!=), ne);
            binary("less_than", "uif", 'u', B(less_than), lt);
            binary("<", "uif", 'u', O2(<), lt);
            binary("less_than_equal_to", "uif", 'u', B(less_than_equal_to), le);
            binary("<=", "uif", 'u', O2(<=), le);
            binary("greater_than", "uif", 'u', B(greater_than), gt);
            binary(">", "uif", 'u', O2(>), gt);
            binary("greater_than_equal_to", "uif", 'u', B(greater_than_equal_to), ge);
            binary(">=", "uif", 'u', O2(>=), ge);
            binary("logical_and", "ui", 'u', B(logical_and), conjunction);
            binary("&&", "ui", 'u', O2(&&), conjunction);
            binary("logical_inclusive_or", "ui", 'u', B(logical_inclusive_or), disjunction);
            binary("||", "ui", 'u', O2(||), disjunction);
            binary("logical_exclusive_or", "ui", 'u', B(logical_exclusive_or), exclusive);
            binary("close_to", "f", 'u', B(close_to), [](D a, D b) -> Value { return std::abs(a - b) <= 1e-8 + 1e-5 * std::abs(b); });

            binary("where", "uif", '=', B(where), [](D a, D b) { return a != 0 ? b : Value{}; }, "where");
            r.push_back({"where", 3, "uif", '=', "where", [](Fields const& a) { return api::where(a[0], a[1], a[2]); },
                         [](std::vector<double> const& v, char) -> Value { return v[0] != 0 ? v[1] : v[2]; }});
            return r;
        }();
        return result;
    }

    // Type of the result, if the operation is defined for these
    auto defined(Operation const& op, std::vector<Operand> const& operands) -> std::optional<char>
    {
        std::size_t const first{op.form == "where" ? 1u : 0u};
        char const type{operands[first].type};
        for (std::size_t i = 0; i < operands.size(); ++i)
        {
            if ((i >= first && operands[i].type != type) || (op.form == "arrays" && operands[i].kind != 'A'))
            {
                return {};
            }
        }
        if (first && !(operands[0].kind == 'A' && operands[0].type == 'u'))  // The condition
        {
            return {};
        }
        return op.types.contains(type) ? std::optional{op.result == '=' ? type : op.result} : std::nullopt;
    }

    auto expected(Operation const& op, std::vector<Operand> const& operands, Layout const& l) -> std::string
    {
        auto const type = defined(op, operands);
        if (!type)
        {
            return "refused";
        }
        std::vector<std::vector<double>> v;
        std::size_t n{1};
        for (std::size_t i = 0; i < operands.size(); ++i)
        {
            v.push_back(values(static_cast<int>(i), operands[i]));
            n = std::max(n, v.back().size());
        }
        std::vector<double> result;
        for (std::size_t c = 0; c < n; ++c)
        {
            std::vector<double> arguments;
            bool valid{true};
            for (auto const& x : v)
            {
                arguments.push_back(x[x.size() == 1 ? 0 : c]);
                valid = valid && !std::isnan(arguments.back());
            }
            auto const value = valid || op.name == "valid" ? op.value(arguments, operands.back().type) : Value{};
            result.push_back(!value || (*type == 'u' && *value < 0) ? none : *value);
        }
        return text(n == 1 ? 'S' : 'A', *type, result, l);
    }

    auto const kinds = std::string{"ASL"};
    auto const types = std::string{"uif"};

    template<typename F>
    void combinations(std::size_t const arity, F const& f, std::vector<Operand> const& so_far = {})
    {
        if (so_far.size() == arity)
        {
            f(so_far);
            return;
        }
        for (char const k : kinds)
        {
            for (char const t : types)
            {
                auto next = so_far;
                next.push_back({k, t});
                combinations(arity, f, next);
            }
        }
    }

    auto str(std::vector<Operand> const& operands) -> std::string
    {
        std::string s;
        for (auto const& o : operands)
        {
            s += (s.empty() ? "" : ",") + std::string{o.kind} + o.type;
        }
        return s;
    }

    template<typename F>
    auto or_refused(F const& f) -> std::string
    {
        try
        {
            return f();
        }
        catch (std::runtime_error const& e)
        {
            if (std::getenv("VERIF_DEBUG"))
            {
                std::fprintf(stderr, "%s\n", e.what());
            }
            return "refused";
        }
    }


    // Creating fields
    void create(mc::Rec& rec, Plan const& plan, std::string const& what)
    {
        Shape const shape{4, 6};
        long const n{24};
        Layout const l{4, 6, 0, 0};
        combinations(
            1,
            [&](std::vector<Operand> const& o)
            {
                auto const v = single_value(0, o[0].kind);
                bool const array = o[0].kind == 'A';
                auto const key = what + " " + str(o);
                if (what == "create_array" || what == "create_array_partitions")
                {
                    bool const partitions = what == "create_array_partitions";
                    explore(
                        rec, what, plan,
                        [&]
                        {
                            return or_refused(
                                [&]
                                {
                                    auto const fill = make(values(0, o[0]), o[0], {2, 3, 2, 3});
                                    auto const f = partitions ? api::create_array(shape, Shape{2, 2}, fill) : api::create_array(shape, fill);
                                    std::string s;
                                    if (partitions)
                                    {
                                        std::visit(
                                            [&]<typename T>(T const& a)
                                            {
                                                if constexpr (requires { a.partitions(); })
                                                {
                                                    s = std::format(" in {}x{}", a.partitions().shape()[0], a.partitions().shape()[1]);
                                                }
                                            },
                                            f.variant());
                                    }
                                    return text(f) + s;
                                });
                        },
                        array ? "refused" : text('A', o[0].type, std::vector<double>(n, v), l) + (partitions ? " in 2x3" : ""), key);
                }
                else if (what == "create_scalar" && o[0].kind == 'L')
                {
                    explore(
                        rec, what, plan,
                        [&]
                        {
                            return with_type(
                                o[0].type,
                                [&]<typename E>(std::type_identity<E>) { return text(api::create_scalar(api::Literal{to_element<E>(v)})); });
                        },
                        text('S', o[0].type, {v}, l), key);
                }
            });
        if (what.starts_with("uniform"))
        {
            combinations(
                2,
                [&](std::vector<Operand> const& o)
                {
                    bool const defined = o[0].type == o[1].type && o[0].kind == o[1].kind && o[0].kind != 'A' && o[0].type != 'u';
                    explore(
                        rec, what, plan,
                        [&]
                        {
                            return or_refused(
                                [&]
                                {
                                    auto const low = make(o[0].kind == 'A' ? values(0, o[0]) : std::vector<double>{2}, o[0], {2, 3, 2, 3});
                                    auto const high = make(o[1].kind == 'A' ? values(1, o[1]) : std::vector<double>{5}, o[1], {2, 3, 2, 3});
                                    auto const f = what == "uniform" ? api::uniform(shape, low, high) : api::uniform(shape, Shape{2, 2}, low, high);
                                    return std::visit(
                                        []<typename T>(T const& a) -> std::string
                                        {
                                            if constexpr (requires { a.partitions(); })
                                            {
                                                auto const g = from_lue<lue::ElementT<T>>(a);
                                                bool ok{true};
                                                for (auto const x : g.v)
                                                {
                                                    ok = ok && x >= 2 && x <= 5;
                                                }
                                                return std::format("{} {}x{} {}", type_of<lue::ElementT<T>>(), g.rows, g.cols, ok ? "within range" : g.str());
                                            }
                                            else
                                            {
                                                return "not an array";
                                            }
                                        },
                                        f.variant());
                                });
                        },
                        defined ? std::format("{} 4x6 within range", o[0].type) : "refused", what + " " + str(o));
                });
        }
    }

    void noise(mc::Rec& rec, Plan const& plan, Layout const& l)
    {
        combinations(
            2,
            [&](std::vector<Operand> const& o)
            {
                bool const defined = str(o) == "Af,Af";
                auto const want = "the same";
                explore(
                    rec, "open_simplex_noise", plan,
                    [&]
                    {
                        return or_refused(
                            [&]() -> std::string
                            {
                                auto const x = make(values(0, o[0]), o[0], l);
                                auto const y = make(values(1, o[1]), o[1], l);
                                auto const got = text(api::open_simplex_noise(x, y, 5));
                                using A = Array<double>;
                                auto const same = text(
                                    lue::value_policies::open_simplex_noise(std::get<A>(x.variant()), std::get<A>(y.variant()), 5));
                                return got == same ? want : got + " instead of " + same;
                            });
                    },
                    defined ? want : "refused", str(o));
            });
    }

    void focal(mc::Rec& rec, Plan const& plan, Layout const& l)
    {
        combinations(
            1,
            [&](std::vector<Operand> const& o)
            {
                std::vector<double> v, want;
                for (long i = 0; i < l.rows * l.cols; ++i)
                {
                    v.push_back(static_cast<double>(i * i % 7));
                }
                for (long r = 0; r < l.rows; ++r)
                {
                    for (long c = 0; c < l.cols; ++c)
                    {
                        double sum{0}, n{0};
                        for (long i = std::max(r - 1, 0l); i <= std::min(r + 1, l.rows - 1); ++i)
                        {
                            for (long j = std::max(c - 1, 0l); j <= std::min(c + 1, l.cols - 1); ++j)
                            {
                                sum += v[static_cast<std::size_t>(i * l.cols + j)];
                                ++n;
                            }
                        }
                        want.push_back(sum / n);
                    }
                }
                explore(
                    rec, "focal_mean", plan,
                    [&]
                    {
                        return or_refused(
                            [&]
                            {
                                lue::Kernel<std::uint8_t, 2> kernel{lue::Kernel<std::uint8_t, 2>::Shape{{3, 3}}, std::uint8_t{1}};
                                return text(api::focal_mean(make(v, o[0], l), api::BooleanKernel{std::move(kernel)}));
                            });
                    },
                    str(o) == "Af" ? text('A', 'f', want, l) : "refused", str(o));
            });
    }

    void accu(mc::Rec& rec, Plan const& plan, Layout const& l)
    {
        combinations(
            1,
            [&](std::vector<Operand> const& o)
            {
                // All cells flow to the east
                std::vector<double> v, want;
                for (long i = 0; i < l.rows * l.cols; ++i)
                {
                    v.push_back(o[0].kind == 'A' ? static_cast<double>(1 + i * i % 7) : 3.0);
                    want.push_back(v.back() + (i % l.cols ? want.back() : 0));
                }
                bool const defined = o[0].type == 'f' && o[0].kind != 'L';
                explore(
                    rec, "accu", plan,
                    [&]
                    {
                        return or_refused(
                            [&]
                            {
                                Grid<std::uint8_t> directions(l.rows, l.cols, 6);
                                for (long r = 0; r < l.rows; ++r)
                                {
                                    directions(r, l.cols - 1) = 5;
                                }
                                api::FlowDirectionField const flow{to_lue(directions, l.prows, l.pcols)};
                                return text(api::accu(flow, make(v, o[0], l)));
                            });
                    },
                    defined ? text('A', 'f', want, l) : "refused", str(o));
            });
    }


    std::array<double, 6> const transform{10, 2, 0, 20, 0, -2};

    void make_raster(std::string const& path, GDALDataType const type, std::vector<double> const& v, Layout const& l)
    {
        auto* driver = GetGDALDriverManager()->GetDriverByName("GTiff");
        auto* ds = driver->Create(path.c_str(), static_cast<int>(l.cols), static_cast<int>(l.rows), 1, type, nullptr);
        auto t = transform;
        ds->SetGeoTransform(t.data());
        auto copy = v;
        (void)ds->GetRasterBand(1)->RasterIO(
            GF_Write, 0, 0, static_cast<int>(l.cols), static_cast<int>(l.rows), copy.data(), static_cast<int>(l.cols), static_cast<int>(l.rows), GDT_Float64, 0, 0, nullptr);
        GDALClose(ds);
    }

    auto show_raster(std::string const& path) -> std::string
    {
        auto* ds = static_cast<GDALDataset*>(GDALOpen(path.c_str(), GA_ReadOnly));
        if (!ds)
        {
            return "no raster";
        }
        auto* band = ds->GetRasterBand(1);
        int const rows{ds->GetRasterYSize()}, cols{ds->GetRasterXSize()};
        std::vector<double> v(static_cast<std::size_t>(rows * cols));
        (void)band->RasterIO(GF_Read, 0, 0, cols, rows, v.data(), cols, rows, GDT_Float64, 0, 0, nullptr);
        int has{0};
        double const no_data{band->GetNoDataValue(&has)};
        for (auto& x : v)
        {
            x = has && x == no_data ? none : x;
        }
        std::array<double, 6> t{};
        bool const placed = ds->GetGeoTransform(t.data()) == CE_None && t == transform;
        auto const type = band->GetRasterDataType();
        GDALClose(ds);
        return text('A', type == GDT_Byte ? 'u' : type == GDT_Int32 ? 'i' : type == GDT_Float64 ? 'f' : '?', v, {rows, cols, 0, 0}) + (placed ? " placed" : "");
    }

    void from_gdal(mc::Rec& rec, Plan const& plan, int const type_id, bool const partitions)
    {
        auto const type = static_cast<GDALDataType>(type_id);
        Layout const l{3, 4, 0, 0};
        std::vector<double> const v{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};
        auto const path = rec.scratch + "/raster.tif";
        make_raster(path, type, v, l);
        char const element = type == GDT_Byte ? 'u' : type == GDT_Int32 ? 'i' : type == GDT_Float64 ? 'f' : ' ';
        explore(
            rec, "from_gdal", plan,
            [&] { return or_refused([&] { return text(partitions ? api::from_gdal(path, Shape{3, 2}) : api::from_gdal(path)); }); },
            element == ' ' ? "refused" : text('A', element, v, l), std::format("{} {}", GDALGetDataTypeName(type), partitions));
        std::filesystem::remove(path);
    }

    void to_gdal(mc::Rec& rec, Plan const& plan, Layout const& l, bool const with_clone)
    {
        auto const clone = rec.scratch + "/clone.tif";
        auto const path = rec.scratch + "/result.tif";
        combinations(
            1,
            [&](std::vector<Operand> const& o)
            {
                make_raster(clone, GDT_Float32, std::vector<double>(static_cast<std::size_t>(l.rows * l.cols)), l);
                auto const v = values(0, o[0]);
                explore(
                    rec, "to_gdal", plan,
                    [&]
                    {
                        std::filesystem::remove(path);
                        return or_refused(
                            [&]
                            {
                                auto const field = make(v, o[0], l);
                                (with_clone ? api::to_gdal(field, path, clone) : api::to_gdal(field, path)).get();
                                return show_raster(path);
                            });
                    },
                    o[0].kind == 'A' ? text('A', o[0].type, v, l) + (with_clone ? " placed" : "") : "refused", str(o) + (with_clone ? " with clone" : ""));
                std::filesystem::remove(path);
                std::filesystem::remove(clone);
            });
    }

    std::vector<Layout> const layouts{{2, 3, 2, 3}, {2, 3, 1, 3}, {2, 3, 2, 1}, {2, 3, 1, 2}};

}  // Anonymous namespace


void enumerate(std::string const& tier, mc::Emit const& emit)
{
    for (std::size_t i = 0; i < operations().size(); ++i)
    {
        emit(std::format("{}|operation|{}|0", tier, i));
        for (std::size_t l = 0; l < layouts.size(); ++l)
        {
            emit(std::format("{}|schedules|{}|{}", tier, i, l));
        }
    }
    for (std::string const what : {"create_array", "create_array_partitions", "create_scalar", "uniform", "uniform_partitions"})
    {
        emit(std::format("{}|create|{}|0", tier, what));
    }
    for (std::size_t l = 0; l < layouts.size(); ++l)
    {
        emit(std::format("{}|noise|x|{}", tier, l));
        emit(std::format("{}|accu|x|{}", tier, l));
        emit(std::format("{}|to_gdal|x|{}", tier, l));
        emit(std::format("{}|to_gdal_clone|x|{}", tier, l));
    }
    emit(std::format("{}|focal|x|0", tier));
    for (int t = 1; t < GDT_TypeCount; ++t)
    {
        emit(std::format("{}|from_gdal|{}|0", tier, t));
        emit(std::format("{}|from_gdal|{}|1", tier, t));
    }
}


void run(std::string const& c, mc::Rec& rec)
{
    CPLSetErrorHandler(CPLQuietErrorHandler);
    GDALAllRegister();
    auto const w = mc::words(c, '|');
    bool const thorough = w[0] == "thorough";
    Plan plan;
    plan.localities = thorough ? std::vector{1, 2, 3} : std::vector{1, 2};
    auto const number = std::stoul(w[3]);
    auto fit = [&](Layout const& l) { std::erase_if(plan.localities, [&](int k) { return k > (l.rows / l.prows) * (l.cols / l.pcols); }); };

    if (w[1] == "operation")
    {
        auto const& op = operations()[std::stoul(w[2])];
        Layout const l{2, 3, 1, 3};
        plan.localities = {1};
        plan.both_orders = false;
        combinations(
            op.arity,
            [&](std::vector<Operand> const& operands)
            {
                explore(
                    rec, op.name, plan,
                    [&]
                    {
                        Fields fields;
                        for (std::size_t i = 0; i < operands.size(); ++i)
                        {
                            fields.push_back(make(values(static_cast<int>(i), operands[i]), operands[i], l));
                        }
                        return or_refused([&] { return text(op.f(fields)); });
                    },
                    expected(op, operands, l), op.name + " " + str(operands));
            });
    }
    else if (w[1] == "schedules")
    {
        auto const& op = operations()[std::stoul(w[2])];
        auto const l = layouts[number];
        plan.deviations = thorough && (l.rows / l.prows) * (l.cols / l.pcols) < 3 ? 2 : 1;
        fit(l);
        combinations(
            op.arity,
            [&](std::vector<Operand> const& operands)
            {
                if (!defined(op, operands) || (operands[0].kind != 'A' && number))
                {
                    return;
                }
                explore(
                    rec, op.name, plan,
                    [&]
                    {
                        Fields fields;
                        for (std::size_t i = 0; i < operands.size(); ++i)
                        {
                            fields.push_back(make(values(static_cast<int>(i), operands[i]), operands[i], l));
                        }
                        auto const result = op.f(fields);
                        fields.clear();  // The result does not need the arguments to be kept
                        return text(result);
                    },
                    expected(op, operands, l), op.name + " " + str(operands));
            });
    }
    else if (w[1] == "create")
    {
        create(rec, plan, w[2]);
    }
    else if (w[1] == "noise")
    {
        fit(layouts[number]);
        noise(rec, plan, layouts[number]);
    }
    else if (w[1] == "accu")
    {
        plan.deviations = layouts[number].prows == 2 && layouts[number].pcols == 3 ? 1 : 0;
        plan.localities = {1};
        accu(rec, plan, layouts[number]);
    }
    else if (w[1] == "focal")
    {
        focal(rec, plan, {6, 6, 3, 3});
    }
    else if (w[1] == "from_gdal")
    {
        from_gdal(rec, plan, std::stoi(w[2]), number);
    }
    else
    {
        plan.localities = {1};
        to_gdal(rec, plan, layouts[number], w[1] == "to_gdal_clone");
    }
}

auto crash_key(std::string const& c) -> std::string
{
    return mc::words(c, '|')[1];
}

MC_MAIN
