// What source/framework/core/include/lue/framework/configure.hpp.in generates for a build of the framework
#pragma once
#include "lue/framework/core/define.hpp"
#include <array>
#include <cstdint>
#include <tuple>
#include <hpx/config.hpp>


namespace lue {

    using UnsignedIntegralElements = std::tuple<std::uint8_t, std::uint32_t, std::uint64_t>;
    using SignedIntegralElements = std::tuple<std::int32_t, std::int64_t>;
    using FloatingPointElements = std::tuple<float, double>;
    using IntegralElements = std::tuple<std::uint8_t, std::uint32_t, std::uint64_t, std::int32_t, std::int64_t>;
    using ArithmeticElements =
        std::tuple<std::uint8_t, std::uint32_t, std::uint64_t, std::int32_t, std::int64_t, float, double>;
    using SignedArithmeticElements = std::tuple<std::int32_t, std::int64_t, float, double>;
    using MaterialElements = std::tuple<float, double>;
    using ZoneElements = std::tuple<std::uint8_t, std::int32_t>;
    using BooleanElement = std::uint8_t;
    using CountElement = std::uint64_t;
    using IDElement = std::uint64_t;
    using IndexElement = std::uint64_t;
    using FlowDirectionElement = std::uint8_t;
    constexpr static std::array<Rank, 1> ranks{2};

}  // namespace lue
