#pragma once
#define LUE_FRAMEWORK_IO_EXPORT
