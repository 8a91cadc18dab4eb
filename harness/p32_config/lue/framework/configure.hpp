// As hpxmock/lue/framework/configure.hpp, for a build of the framework with fewer element types: the C++ API instantiates each
// operation for all combinations of these
#pragma once
#include "lue/framework/core/define.hpp"
#include <array>
#include <cstdint>
#include <tuple>
#include <hpx/config.hpp>


namespace lue {

    using UnsignedIntegralElements = std::tuple<std::uint8_t>;
    using SignedIntegralElements = std::tuple<std::int32_t>;
    using FloatingPointElements = std::tuple<double>;
    using IntegralElements = std::tuple<std::uint8_t, std::int32_t>;
    using ArithmeticElements = std::tuple<std::uint8_t, std::int32_t, double>;
    using SignedArithmeticElements = std::tuple<std::int32_t, double>;
    using MaterialElements = std::tuple<double>;
    using ZoneElements = std::tuple<std::uint8_t, std::int32_t>;
    using BooleanElement = std::uint8_t;
    using CountElement = std::int32_t;
    using IDElement = std::int32_t;
    using IndexElement = std::int32_t;
    using FlowDirectionElement = std::uint8_t;
    constexpr static std::array<Rank, 1> ranks{2};

}  // namespace lue
