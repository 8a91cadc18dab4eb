#pragma once
#define LUE_PARTITIONED_ROUTE_EXPORT
