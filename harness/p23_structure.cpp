// P23: building blocks of partitioned arrays. No tasks are involved here.
#include "p23_arrays.hpp"
#include "lue/framework/algorithm/create_partitioned_array.hpp"
#include "lue/framework/core/domain_decomposition.hpp"
#include "lue/framework/core/hilbert_curve.hpp"
#include "lue/framework/core/hyperslab.hpp"
#include "lue/framework/core/index_util.hpp"
#include "lue/framework/core/linear_curve.hpp"
#include "lue/framework/core/math.hpp"

namespace p23 {
    namespace {

        template<typename F>
        auto caught(F const& f) -> std::string
        {
            try
            {
                f();
                return "";
            }
            catch (std::runtime_error const& e)
            {
                return "refused";
            }
            catch (std::exception const& e)
            {
                return std::string{"error: "} + e.what();
            }
        }

        template<Rank rank>
        void shapes(long max, long max_partition)
        {
            auto const n = power(max + 1, rank);
            auto const m = power(max_partition + 1, rank);
            add(std::format("partition_shapes of rank {}", rank), n, n, 8, [=](mc::Rec& rec, long i, bool)
                {
                    auto const shape = nth_shape<rank>(i, max + 1);
                    for (long k = 0; k < m; ++k)
                    {
                        auto const pshape = nth_shape<rank>(k, max_partition + 1);
                        auto const input = text(shape) + " in partitions of " + text(pshape);
                        bool ok = true;
                        for (Rank d = 0; d < rank; ++d)
                        {
                            ok = ok && shape[d] > 0 && pshape[d] > 0 && pshape[d] <= shape[d];
                        }
                        lue::Array<S<rank>, rank> got;
                        auto const error = caught([&] { got = lue::partition_shapes(shape, pshape); });
                        rec.trace();
                        rec.trans();
                        rec.outcome(ok ? input : "refused");
                        if (!ok)
                        {
                            rec.expect("partition_shapes", error == "refused", input + ": not refused: " + error);
                            continue;
                        }
                        if (!error.empty())
                        {
                            rec.violation("partition_shapes", input + ": " + error);
                            continue;
                        }
                        for (Rank d = 0; d < rank; ++d)
                        {
                            if (got.shape()[d] != shape[d] / pshape[d])
                            {
                                rec.violation("partition_shapes", input + ": " + text(got.shape()) + " partitions");
                            }
                        }
                        for (Index j = 0; j < got.nr_elements(); ++j)
                        {
                            Index rest = j;
                            for (Rank d = rank; d-- > 0;)
                            {
                                Index const idx = rest % got.shape()[d];
                                rest /= got.shape()[d];
                                if (got[j][d] != (idx + 1 < got.shape()[d] ? pshape[d] : shape[d] - idx * pshape[d]))
                                {
                                    rec.violation("partition_shapes", input + ": partition " + std::to_string(j) + " is " + text(got[j]));
                                }
                            }
                        }
                    }
                });
        }

        template<Rank rank>
        void default_shapes()
        {
            std::vector<Count> const extents{1, 2, 3, 5, 8, 10, 100, 1999, 2000, 2001, 3999, 4000, 8000, 100000, 4000000, 100000000};
            long const n = power(static_cast<long>(extents.size()), rank);
            add(std::format("default_partition_shape of rank {}", rank), n, n, 32, [=](mc::Rec& rec, long i, bool)
                {
                    auto shape = nth_shape<rank>(i, static_cast<long>(extents.size()));
                    for (auto& e : shape)
                    {
                        e = extents[static_cast<std::size_t>(e)];
                    }
                    for (Count const nr_threads : {1, 2, 3, 4, 7, 16, 128, 1000})
                    {
                        auto const input = std::format("{} for {} threads", text(shape), nr_threads);
                        S<rank> got{};
                        auto const error = caught([&] { got = lue::default_partition_shape(shape, nr_threads); });
                        rec.trace();
                        rec.trans();
                        rec.outcome(input);
                        if (!error.empty())
                        {
                            rec.violation("default_partition_shape", input + ": " + error);
                            continue;
                        }
                        for (Rank d = 0; d < rank; ++d)
                        {
                            if (got[d] < 1 || got[d] > shape[d] || (nr_threads > 1 && got[d] != got[0]) || (nr_threads == 1 && got[d] != shape[d]))
                            {
                                rec.violation("default_partition_shape", input + ": " + text(got));
                            }
                        }
                    }
                });
        }

        template<Rank rank>
        void indices(long max)
        {
            long const n = power(max, rank);
            add(std::format("indices of rank {}", rank), n, n, 16, [=](mc::Rec& rec, long i, bool)
                {
                    auto const shape = nth_shape<rank>(i, max, 1);
                    Index const nr = lue::nr_elements(shape);
                    for (Index idx = 0; idx < nr; ++idx)
                    {
                        auto const idxs = lue::linear_idx_to_idxs(idx, shape);
                        Index want = 0;
                        bool inside = true;
                        for (Rank d = 0; d < rank; ++d)
                        {
                            inside = inside && idxs[d] >= 0 && idxs[d] < shape[d];
                            want = want * shape[d] + idxs[d];
                        }
                        rec.trace();
                        rec.trans();
                        rec.outcome(std::format("{} in {}", idx, text(shape)));
                        rec.expect("linear_idx_to_idxs", inside && want == idx, std::format("{} in {}", idx, text(shape)));
                        rec.expect("idxs_to_linear_idx", inside && lue::idxs_to_linear_idx<Index>(idxs, shape) == idx, std::format("{} in {}", idx, text(shape)));
                    }
                });
        }

        template<Rank rank>
        struct Visited
        {
                std::vector<std::array<Index, rank>> cells;
                bool ordered{true};

                template<typename... Idxs>
                void operator()(Index idx, Idxs... idxs)
                {
                    ordered = ordered && idx == static_cast<Index>(cells.size());
                    cells.push_back({idxs...});
                }
        };

        template<Rank rank, typename F>
        void curve(std::string const& name, long max, long max_thorough, F const& f)
        {
            add(std::format("{} of rank {}", name, rank), power(max + 1, rank), power(max_thorough + 1, rank), 16, [=](mc::Rec& rec, long i, bool thorough)
                {
                    auto const shape = nth_shape<rank>(i, (thorough ? max_thorough : max) + 1);
                    Visited<rank> v;
                    f(shape, v);
                    std::set<std::array<Index, rank>> different;
                    bool inside = true, near = true;
                    for (std::size_t k = 0; k < v.cells.size(); ++k)
                    {
                        different.insert(v.cells[k]);
                        for (Rank d = 0; d < rank; ++d)
                        {
                            inside = inside && v.cells[k][d] >= 0 && v.cells[k][d] < shape[d];
                            near = near && (k == 0 || std::abs(v.cells[k][d] - v.cells[k - 1][d]) <= 1);
                        }
                    }
                    rec.trace();
                    rec.trans(static_cast<long>(v.cells.size()));
                    rec.outcome(name + text(shape));
                    rec.expect(name, inside, text(shape) + ": cells outside of the array are visited");
                    rec.expect(name, v.ordered, text(shape) + ": cells are not numbered in the order they are visited");
                    rec.expect(name, static_cast<Count>(different.size()) == lue::nr_elements(shape) && different.size() == v.cells.size(),
                        std::format("{}: {} cells visited, {} different ones", text(shape), v.cells.size(), different.size()));
                    // Partitions that are near each other end up on the same locality
                    rec.expect(name, near || name != "hilbert_curve", text(shape) + ": subsequent cells are not near each other");
                });
        }

        template<Rank rank>
        void hyperslabs(long max)
        {
            long const n = power(max, rank);
            add(std::format("hyperslabs of rank {}", rank), n, n, 4, [=](mc::Rec& rec, long i, bool)
                {
                    auto const center = nth_shape<rank>(i, max);
                    for (long k = 0; k < n; ++k)
                    {
                        auto const shape = nth_shape<rank>(k, max, 1);
                        auto const input = "center " + text(center) + ", shape " + text(shape);
                        std::optional<lue::Hyperslab<rank>> got;
                        auto const error = caught([&] { got = lue::Hyperslab<rank>{center, shape}; });
                        bool ok = true;
                        for (Rank d = 0; d < rank; ++d)
                        {
                            ok = ok && center[d] >= shape[d] / 2;
                        }
                        rec.trace();
                        rec.trans();
                        rec.outcome(ok ? input : "refused");
                        if (!ok || !error.empty())
                        {
                            rec.expect("hyperslab", error == (ok ? "" : "refused"), input + ": " + error);
                            continue;
                        }
                        for (Rank d = 0; d < rank; ++d)
                        {
                            rec.expect("hyperslab", got->offsets()[d] == center[d] - shape[d] / 2 && got->counts()[d] == shape[d] && got->strides()[d] == 1,
                                input + ": offsets " + text(got->offsets()) + ", counts " + text(got->counts()));
                        }
                        rec.expect("hyperslab", !got->is_strided(), input + " is strided");
                        for (long a = 0; a < power(max + 2, rank); ++a)
                        {
                            auto const array = nth_shape<rank>(a, max + 2, 1);
                            bool contained = true;
                            for (Rank d = 0; d < rank; ++d)
                            {
                                contained = contained && center[d] - shape[d] / 2 + shape[d] <= array[d];
                            }
                            rec.trans();
                            rec.expect("hyperslab", got->is_contained_by(array) == contained, input + ", in array " + text(array));
                        }
                    }
                });
        }

        // Elements that remain after erasing / slicing
        template<Rank rank>
        auto select(S<rank> const& shape, std::function<bool(S<rank> const&)> const& keep) -> std::vector<int>
        {
            std::vector<int> v;
            for (Index j = 0; j < lue::nr_elements(shape); ++j)
            {
                S<rank> idxs{};
                Index rest = j;
                for (Rank d = rank; d-- > 0;)
                {
                    idxs[d] = rest % shape[d];
                    rest /= shape[d];
                }
                if (keep(idxs))
                {
                    v.push_back(static_cast<int>(j));
                }
            }
            return v;
        }

        template<Rank rank>
        auto iota(S<rank> const& shape) -> lue::ArrayPartitionData<int, rank>
        {
            lue::ArrayPartitionData<int, rank> data{shape};
            for (Index i = 0; i < data.nr_elements(); ++i)
            {
                data[i] = static_cast<int>(i);
            }
            return data;
        }

        template<typename Data>
        auto values(Data const& data) -> std::vector<int>
        {
            return {data.begin(), data.end()};
        }

        template<Rank rank>
        void erasing(long max)
        {
            long const n = power(max, rank);
            add(std::format("erase from rank {}", rank), n, n, 4, [=](mc::Rec& rec, long i, bool)
                {
                    auto const shape = nth_shape<rank>(i, max, 1);
                    for (Rank d = 0; d < rank; ++d)
                    {
                        for (Index begin = 0; begin <= shape[d]; ++begin)
                        {
                            for (Index end = begin; end <= shape[d]; ++end)
                            {
                                auto const input = std::format("erase [{}, {}) along dimension {} from {}", begin, end, d, text(shape));
                                std::vector<int> got;
                                S<rank> want_shape{shape};
                                want_shape[d] -= end - begin;
                                S<rank> got_shape{};
                                std::vector<int> again;
                                auto const error = caught([&]
                                    {
                                        auto data = iota<rank>(shape);
                                        data.erase(d, begin, end);
                                        got_shape = data.shape();
                                        got = values(data);
                                        // The result can be used as any other
                                        auto copy = lue::deep_copy(data);
                                        again = values(copy);
                                        data.reshape(shape);
                                        for (Index k = 0; k < data.nr_elements(); ++k)
                                        {
                                            data[k] = static_cast<int>(k);
                                        }
                                        if (values(data) != values(iota<rank>(shape)))
                                        {
                                            throw std::logic_error("after reshaping to the original shape: " + std::to_string(values(data).size()) + " values");
                                        }
                                    });
                                auto const want = select<rank>(shape, [&](S<rank> const& idxs) { return idxs[d] < begin || idxs[d] >= end; });
                                rec.trace();
                                rec.trans();
                                rec.outcome(input);
                                rec.expect("erase", error.empty(), input + ": " + error);
                                rec.expect("erase", !error.empty() || (got == want && again == want && got_shape == want_shape), input);
                            }
                        }
                    }
                });
        }

        template<Rank rank>
        void slicing(long max)
        {
            long const n = power(max, rank);
            add(std::format("slices of rank {}", rank), n, n, 4, [=](mc::Rec& rec, long i, bool)
                {
                    auto const shape = nth_shape<rank>(i, max, 1);
                    auto const begins_end = power(max + 1, rank);
                    for (long b = 0; b < begins_end; ++b)
                    {
                        for (long e = 0; e < begins_end; ++e)
                        {
                            auto const begin = nth_shape<rank>(b, max + 1);
                            auto const end = nth_shape<rank>(e, max + 1);
                            typename lue::ArrayPartitionData<int, rank>::Slices slices;
                            bool ok = true;
                            S<rank> want_shape{};
                            for (Rank d = 0; d < rank; ++d)
                            {
                                ok = ok && begin[d] <= end[d] && end[d] <= shape[d];
                                slices[d] = {begin[d], end[d]};
                                want_shape[d] = end[d] - begin[d];
                            }
                            if (!ok)
                            {
                                continue;
                            }
                            auto const input = "slice " + text(begin) + " - " + text(end) + " of " + text(shape);
                            std::vector<int> got, before;
                            S<rank> got_shape{};
                            auto const error = caught([&]
                                {
                                    auto data = iota<rank>(shape);
                                    auto slice = data.slice(slices);
                                    got_shape = slice.shape();
                                    got = values(slice);
                                    if (!slice.empty())
                                    {
                                        slice[0] = 99;
                                    }
                                    before = values(data);
                                });
                            auto const want = select<rank>(shape, [&](S<rank> const& idxs)
                                {
                                    for (Rank d = 0; d < rank; ++d)
                                    {
                                        if (idxs[d] < begin[d] || idxs[d] >= end[d])
                                        {
                                            return false;
                                        }
                                    }
                                    return true;
                                });
                            rec.trace();
                            rec.trans();
                            rec.outcome(input);
                            rec.expect("slice", error.empty() && got == want && got_shape == want_shape, input + ": " + error);
                            rec.expect("slice", before == values(iota<rank>(shape)), input + ": the original changed");
                        }
                    }
                });
        }

        // Sequences of operations on three handles to (shared) values, compared with a model
        struct Handles
        {
                struct Ref
                {
                        S<2> shape{0, 0};
                        std::shared_ptr<std::vector<int>> values{std::make_shared<std::vector<int>>()};
                };

                using Data = lue::ArrayPartitionData<int, 2>;

                std::array<Data, 3> real;
                std::array<Ref, 3> model;
                int next{1};

                static constexpr int nr_ops = 3 * 3 + 3 * 9 + 3 + 3 * 2;

                // Returns false if the operation is not allowed
                auto apply(int op) -> bool
                {
                    static constexpr std::array<S<2>, 3> shapes{S<2>{2, 2}, S<2>{1, 3}, S<2>{0, 2}};
                    if (op < 9)
                    {
                        int const h = op / 3;
                        auto const shape = shapes[static_cast<std::size_t>(op % 3)];
                        real[h] = Data{shape, next};
                        model[h] = {shape, std::make_shared<std::vector<int>>(lue::nr_elements(shape), next)};
                        ++next;
                        return true;
                    }
                    op -= 9;
                    if (op < 27)
                    {
                        int const kind = op / 9, to = op / 3 % 3, from = op % 3;
                        if (kind == 1 && to == from)
                        {
                            return false;
                        }
                        if (kind == 0)
                        {
                            real[to] = real[from];
                            model[to] = model[from];
                        }
                        else if (kind == 1)
                        {
                            real[to] = std::move(real[from]);
                            if (to != from)
                            {
                                model[to] = std::move(model[from]);
                                model[from] = {};
                            }
                        }
                        else
                        {
                            real[to] = lue::deep_copy(real[from]);
                            model[to] = {model[from].shape, std::make_shared<std::vector<int>>(*model[from].values)};
                        }
                        return true;
                    }
                    op -= 27;
                    if (op < 3)
                    {
                        if (model[op].values->empty())
                        {
                            return false;
                        }
                        auto const& shape = model[op].shape;
                        real[op](shape[0] - 1, 0) = 100 + next;
                        (*model[op].values)[static_cast<std::size_t>((shape[0] - 1) * shape[1])] = 100 + next;
                        ++next;
                        return true;
                    }
                    op -= 3;
                    int const h = op / 2;
                    if (model[h].values.use_count() != 1)
                    {
                        return false;  // Reshaping shared values is not allowed
                    }
                    S<2> const shape = op % 2 ? S<2>{3, 1} : S<2>{0, 0};
                    real[h].reshape(shape);
                    std::fill(real[h].begin(), real[h].end(), next);
                    model[h] = {shape, std::make_shared<std::vector<int>>(lue::nr_elements(shape), next)};
                    ++next;
                    return true;
                }

                static auto name(int op) -> std::string
                {
                    if (op < 9)
                    {
                        return std::format("h{} = new #{}", op / 3, op % 3);
                    }
                    op -= 9;
                    if (op < 27)
                    {
                        return std::format("h{} = {}h{}", op / 3 % 3, op / 9 == 0 ? "" : op / 9 == 1 ? "move " : "deep copy of ", op % 3);
                    }
                    op -= 27;
                    return op < 3 ? std::format("write to h{}", op) : std::format("reshape h{} to {}", (op - 3) / 2, op % 2 ? "0x0" : "3x1");
                }

                auto compare() -> std::string
                {
                    for (int h = 0; h < 3; ++h)
                    {
                        if (real[h].shape() != model[h].shape && (lue::nr_elements(real[h].shape()) || lue::nr_elements(model[h].shape)))
                        {
                            return std::format("shape of h{} is {}", h, text(real[h].shape()));
                        }
                        if (values(real[h]) != *model[h].values)
                        {
                            return std::format("values of h{} are wrong", h);
                        }
                        for (int k = 0; k < 3; ++k)
                        {
                            if ((real[h] == real[k]) != (model[h].shape == model[k].shape && *model[h].values == *model[k].values))
                            {
                                return std::format("comparison of h{} and h{} is wrong", h, k);
                            }
                        }
                        for (Index r = 0; r < model[h].shape[0]; ++r)
                        {
                            for (Index c = 0; c < model[h].shape[1]; ++c)
                            {
                                if (std::as_const(real[h])(r, c) != (*model[h].values)[static_cast<std::size_t>(r * model[h].shape[1] + c)])
                                {
                                    return std::format("cell ({}, {}) of h{} is wrong", r, c, h);
                                }
                            }
                        }
                    }
                    return "";
                }
        };

        // Same for arrays, which own their values
        struct Owners
        {
                using A = lue::Array<int, 2>;

                struct Value
                {
                        S<2> shape{0, 0};
                        std::vector<int> values;
                };

                std::array<A, 2> real;
                std::array<Value, 2> model;
                int next{1};

                static constexpr int nr_ops = 2 * 3 + 2 * 8 + 2 + 2 * 3;

                auto fresh(int n) -> std::vector<int>
                {
                    std::vector<int> v;
                    for (int i = 0; i < n; ++i)
                    {
                        v.push_back(next++);
                    }
                    return v;
                }

                auto apply(int op) -> bool
                {
                    static constexpr std::array<S<2>, 3> shapes{S<2>{2, 2}, S<2>{1, 3}, S<2>{0, 2}};
                    if (op < 6)
                    {
                        int const h = op / 3;
                        auto const shape = shapes[static_cast<std::size_t>(op % 3)];
                        auto v = fresh(static_cast<int>(lue::nr_elements(shape)));
                        model[h] = {shape, v};
                        real[h] = A(shape, v.begin(), v.end());
                        return true;
                    }
                    op -= 6;
                    if (op < 16)
                    {
                        int const kind = op / 4, to = op / 2 % 2, from = op % 2;
                        if (kind == 1 && to == from)
                        {
                            return false;
                        }
                        switch (kind)
                        {
                            case 0:
                                real[to] = std::as_const(real[from]);
                                model[to] = model[from];
                                break;
                            case 1:
                                real[to] = std::move(real[from]);
                                if (to != from)
                                {
                                    model[to] = model[from];
                                    model[from] = {};
                                }
                                break;
                            case 2:
                            {
                                A copy{std::as_const(real[from])};
                                real[to] = copy;
                                model[to] = model[from];
                                break;
                            }
                            default:
                            {
                                A moved{std::move(real[from])};
                                real[to] = moved;
                                auto const value = model[from];
                                model[from] = {};
                                model[to] = value;
                            }
                        }
                        return true;
                    }
                    op -= 16;
                    if (op < 2)
                    {
                        real[op].clear();
                        model[op] = {};
                        return true;
                    }
                    op -= 2;
                    int const h = op / 3;
                    auto const shape = std::array<S<2>, 3>{S<2>{2, 3}, S<2>{1, 1}, S<2>{0, 0}}[static_cast<std::size_t>(op % 3)];
                    real[h].reshape(shape);
                    auto const v = fresh(static_cast<int>(lue::nr_elements(shape)));
                    for (std::size_t i = 0; i < v.size(); ++i)
                    {
                        real[h][i] = v[i];
                    }
                    model[h] = {shape, v};
                    return true;
                }

                static auto name(int op) -> std::string
                {
                    if (op < 6)
                    {
                        return std::format("a{} = new #{}", op / 3, op % 3);
                    }
                    op -= 6;
                    if (op < 16)
                    {
                        return std::format("a{} = {} a{}", op / 2 % 2, std::array{"", "move", "copy of", "moved copy of"}[static_cast<std::size_t>(op / 4)], op % 2);
                    }
                    op -= 16;
                    return op < 2 ? std::format("clear a{}", op) : std::format("reshape a{} #{}", (op - 2) / 3, (op - 2) % 3);
                }

                auto compare() -> std::string
                {
                    for (int h = 0; h < 2; ++h)
                    {
                        auto const& a = std::as_const(real[h]);
                        auto const& m = model[h];
                        if (a.shape() != m.shape || a.nr_elements() != static_cast<Count>(m.values.size()) || a.empty() != m.values.empty())
                        {
                            return std::format("shape of a{} is {}, with {} elements", h, text(a.shape()), a.nr_elements());
                        }
                        if (std::vector<int>(a.begin(), a.end()) != m.values)
                        {
                            return std::format("values of a{} are wrong", h);
                        }
                        for (Index r = 0; r < m.shape[0]; ++r)
                        {
                            for (Index c = 0; c < m.shape[1]; ++c)
                            {
                                if (a(r, c) != m.values[static_cast<std::size_t>(r * m.shape[1] + c)] || a.span()[r, c] != a(r, c))
                                {
                                    return std::format("element ({}, {}) of a{} is wrong", r, c, h);
                                }
                            }
                        }
                    }
                    return "";
                }
        };

        template<typename Model>
        void sequences(std::string const& name, int depth, int depth_thorough)
        {
            long const first = Model::nr_ops;
            add(name, first, first, 1, [=](mc::Rec& rec, long i, bool thorough)
                {
                    int const nr = thorough ? depth_thorough : depth;
                    std::vector<int> sequence(static_cast<std::size_t>(nr), 0);
                    sequence[0] = static_cast<int>(i);
                    while (true)
                    {
                        int done = 0;
                        std::string history;
                        auto const error = caught([&]
                            {
                                Model m;
                                for (; done < nr; ++done)
                                {
                                    if (!m.apply(sequence[static_cast<std::size_t>(done)]))
                                    {
                                        break;
                                    }
                                    if (auto const problem = m.compare(); !problem.empty())
                                    {
                                        throw std::logic_error(problem);
                                    }
                                }
                            });
                        rec.trans(done);
                        rec.trace();
                        if (!error.empty())
                        {
                            for (int k = 0; k <= done && k < nr; ++k)
                            {
                                history += Model::name(sequence[static_cast<std::size_t>(k)]) + "; ";
                            }
                            rec.violation(name, history + error);
                        }
                        // Next sequence: nothing beyond an operation that was refused is of interest
                        int last = std::min(done, nr - 1);
                        while (last > 0 && ++sequence[static_cast<std::size_t>(last)] == Model::nr_ops)
                        {
                            --last;
                        }
                        if (last <= 0)
                        {
                            break;
                        }
                        std::fill(sequence.begin() + last + 1, sequence.end(), 0);
                    }
                    rec.outcome(name + std::to_string(i));
                });
        }

        struct Register
        {
            Register()
            {
                shapes<1>(20, 21);
                shapes<2>(7, 8);
                shapes<3>(3, 4);
                default_shapes<1>();
                default_shapes<2>();
                indices<1>(20);
                indices<2>(7);
                indices<3>(4);
                curve<2>("hilbert_curve", 20, 64, [](S<2> const& s, auto& v) { lue::hilbert_curve<2>(s, std::ref(v)); });
                curve<1>("linear_curve", 20, 64, [](S<1> const& s, auto& v) { lue::linear_curve<1>(s, std::ref(v)); });
                curve<2>("linear_curve", 12, 20, [](S<2> const& s, auto& v) { lue::linear_curve<2>(s, std::ref(v)); });
                curve<3>("linear_curve", 4, 6, [](S<3> const& s, auto& v) { lue::linear_curve<3>(s, std::ref(v)); });
                add("map_to_range", 300, 1500, 10, [](mc::Rec& rec, long i, bool)
                    {
                        Index const n = i + 1;
                        for (Index m = 1; m <= std::min<Index>(n, 64); ++m)
                        {
                            Index last = 0;
                            bool ok = true;
                            std::map<Index, int> nr;
                            for (Index k = 0; k < n; ++k)
                            {
                                Index const got = lue::map_to_range(Index{0}, n - 1, Index{0}, m - 1, k);
                                ok = ok && got >= last && got < m;
                                last = got;
                                ++nr[got];
                                rec.trans();
                            }
                            int least = nr.begin()->second, most = least;
                            for (auto const& [_, k] : nr)
                            {
                                least = std::min(least, k);
                                most = std::max(most, k);
                            }
                            rec.trace();
                            rec.outcome(std::format("{} to {}", n, m));
                            rec.expect("map_to_range", ok && static_cast<Index>(nr.size()) == m,
                                std::format("{} partitions on {} localities: {} localities used", n, m, nr.size()));
                            rec.expect("map_to_range", most - least <= 2, std::format("{} partitions on {} localities: {} to {} of them on one", n, m, least, most));
                        }
                    });
                hyperslabs<1>(8);
                hyperslabs<2>(4);
                erasing<1>(6);
                erasing<2>(4);
                erasing<3>(3);
                slicing<1>(5);
                slicing<2>(4);
                sequences<Handles>("values shared by handles", 3, 4);
                sequences<Owners>("values owned by arrays", 4, 5);
            }
        };

        Register const registered{};

    }  // namespace
}  // namespace p23
