// P25: see p25_focal.hpp
#include "p25_focal.hpp"
#include "lue/framework/algorithm/serialize/kernel.hpp"
#if FW_PART == 0
#include "lue/framework/algorithm/definition/focal_sum.hpp"
#include "lue/framework/algorithm/value_policies/focal_sum.hpp"
#elif FW_PART == 1
#include "lue/framework/algorithm/definition/focal_minimum.hpp"
#include "lue/framework/algorithm/value_policies/focal_minimum.hpp"
#elif FW_PART == 2
#include "lue/framework/algorithm/definition/focal_maximum.hpp"
#include "lue/framework/algorithm/value_policies/focal_maximum.hpp"
#elif FW_PART == 3
#include "lue/framework/algorithm/definition/focal_majority.hpp"
#include "lue/framework/algorithm/value_policies/focal_majority.hpp"
#elif FW_PART == 4
#include "lue/framework/algorithm/definition/focal_diversity.hpp"
#include "lue/framework/algorithm/value_policies/focal_diversity.hpp"
#elif FW_PART == 5
#include "lue/framework/algorithm/definition/focal_high_pass.hpp"
#include "lue/framework/algorithm/definition/focal_mean.hpp"
#include "lue/framework/algorithm/value_policies/focal_high_pass.hpp"
#include "lue/framework/algorithm/value_policies/focal_mean.hpp"
#elif FW_PART == 6
#include "lue/framework/algorithm/definition/convolve.hpp"
#include "lue/framework/algorithm/definition/d8_flow_direction.hpp"
#include "lue/framework/algorithm/value_policies/convolve.hpp"
#include "lue/framework/algorithm/value_policies/d8_flow_direction.hpp"
#elif FW_PART == 7
#include "lue/framework/algorithm/definition/add.hpp"
#include "lue/framework/algorithm/definition/aspect.hpp"
#include "lue/framework/algorithm/definition/convolve.hpp"
#include "lue/framework/algorithm/definition/divide.hpp"
#include "lue/framework/algorithm/definition/gradients.hpp"
#include "lue/framework/algorithm/definition/pow.hpp"
#include "lue/framework/algorithm/definition/slope.hpp"
#include "lue/framework/algorithm/definition/sqrt.hpp"
#include "lue/framework/algorithm/value_policies/aspect.hpp"
#include "lue/framework/algorithm/value_policies/slope.hpp"
#endif

namespace p25 {
    namespace {

        namespace vp = lue::value_policies;

        using B = std::uint8_t;

        template<typename... T>
        struct List
        {
        };

        template<typename... T, typename F>
        void each(List<T...>, F const& f)
        {
            (f(std::type_identity<T>{}), ...);
        }

#define FOCAL(op) [](auto const& a, auto const& k) { return vp::op(a, k); }

        struct Register
        {
            Register()
            {
#if FW_PART == 0
                each(List<std::int32_t, std::uint64_t, double>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        focal<E, E, B>("focal_sum", FOCAL(focal_sum), [](Window<E> const& w, Grid<B> const& k) -> std::optional<E>
                            {
                                auto const v = w.values(k);
                                E sum{0};
                                for (E const x : v)
                                {
                                    sum += x;
                                }
                                return v.empty() ? std::optional<E>{} : sum;
                            }, 1e-9);
                    });
#elif FW_PART == 1
                each(List<std::uint8_t, std::int64_t, float>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        focal<E, E, B>("focal_minimum", FOCAL(focal_minimum), [](Window<E> const& w, Grid<B> const& k) -> std::optional<E>
                            {
                                auto const v = w.values(k);
                                return v.empty() ? std::optional<E>{} : *std::min_element(v.begin(), v.end());
                            }, 0, 0, std::is_signed_v<E> ? std::vector<E>{nd<E>(), E(-3), E(4)} : std::vector<E>{nd<E>(), E(0), E(9)});
                    });
#elif FW_PART == 2
                each(List<std::uint32_t, std::int32_t, double>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        focal<E, E, B>("focal_maximum", FOCAL(focal_maximum), [](Window<E> const& w, Grid<B> const& k) -> std::optional<E>
                            {
                                auto const v = w.values(k);
                                return v.empty() ? std::optional<E>{} : *std::max_element(v.begin(), v.end());
                            }, 0, 0, std::is_signed_v<E> ? std::vector<E>{nd<E>(), E(-9), E(-4)} : std::vector<E>{nd<E>(), E(0), E(9)});
                    });
#elif FW_PART == 3
                each(List<std::uint8_t, std::int32_t>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        focal<E, E, B>("focal_majority", FOCAL(focal_majority), [](Window<E> const& w, Grid<B> const& k) -> std::optional<E>
                            {
                                auto const v = w.values(k);
                                std::optional<E> best;
                                long n = 0;
                                for (E const x : v)
                                {
                                    long const m = std::count(v.begin(), v.end(), x);
                                    if (m > n || (m == n && x < *best))
                                    {
                                        best = x;
                                        n = m;
                                    }
                                }
                                return best;
                            }, 0, 3, std::is_signed_v<E> ? std::vector<E>{nd<E>(), E(-1), E(0), E(2)} : std::vector<E>{nd<E>(), E(0), E(2)});
                    });
#elif FW_PART == 4
                auto const diversity = []<typename E, typename R>(std::type_identity<E>, std::type_identity<R>)
                {
                    focal<E, R, B>("focal_diversity", [](auto const& a, auto const& k) { return vp::focal_diversity<R>(a, k); },
                        [](Window<E> const& w, Grid<B> const& k) -> std::optional<R>
                        {
                            auto const v = w.values(k);
                            return v.empty() ? std::optional<R>{} : static_cast<R>(std::set<E>(v.begin(), v.end()).size());
                        }, 0, 4);
                };
                diversity(std::type_identity<std::int32_t>{}, std::type_identity<std::uint32_t>{});
                diversity(std::type_identity<std::uint8_t>{}, std::type_identity<std::int64_t>{});
#elif FW_PART == 5
                each(List<float, double>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        focal<E, E, B>("focal_mean", FOCAL(focal_mean), [](Window<E> const& w, Grid<B> const& k) -> std::optional<E>
                            {
                                auto const v = w.values(k);
                                double sum{0};
                                for (E const x : v)
                                {
                                    sum += x;
                                }
                                return v.empty() ? std::optional<E>{} : static_cast<E>(sum / static_cast<double>(v.size()));
                            }, 1e-5);
                        focal<E, E, B>("focal_high_pass", FOCAL(focal_high_pass), [](Window<E> const& w, Grid<B> const& k) -> std::optional<E>
                            {
                                Grid<B> neighbours = k;
                                neighbours(k.rows / 2, k.cols / 2) = 0;
                                auto const v = w.values(neighbours);
                                auto const focal = w.at(0, 0);
                                if (!focal || v.empty())
                                {
                                    return {};
                                }
                                E result{0};
                                for (E const x : v)
                                {
                                    result += 2 * *focal - x;
                                }
                                return result;
                            }, 1e-5);
                    });
#elif FW_PART == 6
                each(List<float, double>{}, [&]<typename E>(std::type_identity<E>)
                    {
                        focal<E, E, E>("convolve", FOCAL(convolve), [](Window<E> const& w, Grid<E> const& k) -> std::optional<E>
                            {
                                long const radius = k.rows / 2;
                                E sum{0};
                                bool valid{false};
                                for (long r = -radius; r <= radius; ++r)
                                {
                                    for (long c = -radius; c <= radius; ++c)
                                    {
                                        if (auto const v = w.at(r, c))
                                        {
                                            sum += k(r + radius, c + radius) * *v;
                                            valid = true;
                                        }
                                    }
                                }
                                return valid ? std::optional<E>{sum} : std::optional<E>{};
                            }, 1e-4);
                        // Steepest descent. Cells outside of the array are lower than all other cells.
                        using D = std::uint8_t;
                        focal<E, D, B>("d8_flow_direction", [](auto const& a, auto const&) { return vp::d8_flow_direction<D>(a); },
                            [](Window<E> const& w, Grid<B> const&) -> std::optional<D>
                            {
                                auto const focal = w.at(0, 0);
                                if (!focal)
                                {
                                    return {};
                                }
                                struct Neighbour
                                {
                                        long r, c;
                                        D direction;
                                };
                                // The order is the preference in case of equal drops
                                double best = 0;
                                D direction = 5;
                                for (auto const& n :
                                     {Neighbour{-1, 0, 8}, {0, -1, 4}, {0, 1, 6}, {1, 0, 2}, {-1, -1, 7}, {-1, 1, 9}, {1, -1, 1}, {1, 1, 3}})
                                {
                                    auto const v = w.at(n.r, n.c);
                                    double const drop = w.outside(n.r, n.c) ? 1e300 : v ? double(*focal) - double(*v) : 0;
                                    if (drop > best)
                                    {
                                        best = drop;
                                        direction = n.direction;
                                    }
                                }
                                return direction;
                            }, 0, 11, std::vector<E>{nd<E>(), E(-3), E(0), E(5)}, true);
                    });
#elif FW_PART == 7
                using E = double;
                auto const gradients = [](Window<E> const& w, E cell_size) -> std::optional<std::pair<E, E>>
                {
                    E x{0}, y{0};
                    bool valid{false};
                    for (long r = -1; r <= 1; ++r)
                    {
                        for (long c = -1; c <= 1; ++c)
                        {
                            if (auto const v = w.at(r, c))
                            {
                                valid = true;
                                x += *v * static_cast<E>(c * (r ? 1 : 2));
                                y += *v * static_cast<E>(r * (c ? 1 : 2));
                            }
                        }
                    }
                    if (!valid)
                    {
                        return {};
                    }
                    return std::pair{x / (8 * cell_size), y / (8 * cell_size)};
                };
                focal<E, E, B>("slope", [](auto const& a, auto const&) { return vp::slope(a, 2.5); },
                    [=](Window<E> const& w, Grid<B> const&) -> std::optional<E>
                    {
                        auto const g = gradients(w, 2.5);
                        return g ? std::optional<E>{std::hypot(g->first, g->second)} : std::optional<E>{};
                    }, 1e-9, 0, {}, true);
                // Direction in which the surface dips, in radians, clockwise from the north
                focal<E, E, B>("aspect", [](auto const& a, auto const&) { return vp::aspect(a); },
                    [=](Window<E> const& w, Grid<B> const&) -> std::optional<E>
                    {
                        auto const g = gradients(w, 1);
                        if (!g)
                        {
                            return {};
                        }
                        E const east = -g->first;
                        E const north = g->second;
                        if (east == 0 && north == 0)
                        {
                            return 0;
                        }
                        E const length = std::hypot(east, north);
                        E const angle = std::acos(north / length);
                        return east < 0 ? 2 * 3.14159265358979323846 - angle : angle;
                    }, 1e-6, 0, {nd<E>(), -1, 6}, true);
#endif
            }
        } const registered;

    }  // Anonymous namespace
}  // namespace p25
