#pragma once
#define LUE_ZONAL_OPERATION_EXPORT
