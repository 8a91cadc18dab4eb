// P30: round trips of values of a single type. See p30_io.hpp
#include "p30_io.hpp"
#include <tuple>

template void p30::round_trip<std::tuple_element_t<
    FW_PART,
    std::tuple<std::uint8_t, std::int32_t, std::uint32_t, std::int64_t, std::uint64_t, float, double>>>(
    mc::Rec&, std::string const&, fw::Plan const&, p30::Layout const&, bool);
