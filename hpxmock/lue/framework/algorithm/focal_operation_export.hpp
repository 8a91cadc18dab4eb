#pragma once
#define LUE_FOCAL_OPERATION_EXPORT
