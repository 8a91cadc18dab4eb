#pragma once
#define LUE_FPA_EXPORT
