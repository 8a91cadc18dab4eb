// P31: all that reads and writes values of a single type. See p31_gdal.hpp
#include "p31_gdal.hpp"
#include <tuple>
#include P31_GDAL

using Element = std::tuple_element_t<FW_PART, std::tuple<std::uint8_t, std::int32_t, std::uint32_t, std::int64_t, std::uint64_t, float, double>>;

template lue::PartitionedArray<Element, 2> lue::from_gdal<Element>(std::string const&, lue::Shape<lue::Count, 2> const&);
template lue::PartitionedArray<Element, 2> lue::from_gdal<Element>(std::string const&, lue::Hyperslab<2> const&, lue::Shape<lue::Count, 2> const&);
template hpx::future<void> lue::to_gdal<Element>(
    lue::PartitionedArray<Element, 2> const&, std::string const&, std::string const&, std::map<std::string, std::string> const&);
template void p31::values<Element>(mc::Rec&, std::string const&, fw::Plan const&, p31::Layout const&, std::string const&);
