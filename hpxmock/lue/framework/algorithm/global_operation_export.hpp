#pragma once
#define LUE_GLOBAL_OPERATION_EXPORT
