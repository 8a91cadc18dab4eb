#pragma once
#define LUE_LOCAL_OPERATION_EXPORT
