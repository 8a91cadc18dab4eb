#pragma once
#define LUE_MISCELLANEOUS_OPERATION_EXPORT
