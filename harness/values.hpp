// Things the harnesses about values have in common
#pragma once
#include "mc.hpp"
#include "lue/data_model.hpp"
#include "lue/hdf5.hpp"
#include <array>
#include <numeric>

namespace ldm = lue::data_model;
namespace lh5 = lue::hdf5;

using Shape = lh5::Shape;

inline auto size_of(Shape const& s) -> std::size_t
{
    std::size_t n = 1;
    for (auto x : s)
    {
        n *= x;
    }
    return n;
}

inline auto parse_shape(std::string const& s) -> Shape
{
    Shape r;
    if (s != "-")
    {
        for (auto const& w : mc::words(s, 'x'))
        {
            r.push_back(std::stoull(w));
        }
    }
    return r;
}

inline auto show_shape(Shape const& s) -> std::string
{
    std::string r;
    for (auto x : s)
    {
        r += (r.empty() ? "" : "x") + std::to_string(x);
    }
    return r.empty() ? "-" : r;
}

// A different value for every call. Values of small types repeat, but never zero or the no-data value.
template<typename T>
struct Source
{
    long n{0};
    auto operator()() -> T
    {
        ++n;
        if constexpr (sizeof(T) == 1)
        {
            return static_cast<T>(1 + (n % 90));
        }
        else if constexpr (std::is_floating_point_v<T>)
        {
            return static_cast<T>(n) + static_cast<T>(0.25);
        }
        else if constexpr (sizeof(T) == 2)
        {
            return static_cast<T>(1 + (n % 30000));
        }
        else
        {
            return static_cast<T>(n) + (static_cast<T>(n) << (sizeof(T) * 4));
        }
    }
    auto many(std::size_t k) -> std::vector<T>
    {
        std::vector<T> r(k);
        for (auto& x : r)
        {
            x = (*this)();
        }
        return r;
    }
};

template<typename F>
void with_type(std::string const& t, F&& f)
{
    if (t == "i1") f(std::int8_t{});
    else if (t == "u1") f(std::uint8_t{});
    else if (t == "i2") f(std::int16_t{});
    else if (t == "u2") f(std::uint16_t{});
    else if (t == "i4") f(std::int32_t{});
    else if (t == "u4") f(std::uint32_t{});
    else if (t == "i8") f(std::int64_t{});
    else if (t == "u8") f(std::uint64_t{});
    else if (t == "f4") f(float{});
    else if (t == "f8") f(double{});
    else throw std::runtime_error("no type " + t);
}

static std::vector<std::string> const all_types{"i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8"};

template<typename T>
auto show_values(std::vector<T> const& v) -> std::string
{
    std::ostringstream s;
    s << "[";
    for (std::size_t i = 0; i < v.size() && i < 40; ++i)
    {
        s << (i ? " " : "") << +v[i];
    }
    s << (v.size() > 40 ? " ...]" : "]");
    return s.str();
}
