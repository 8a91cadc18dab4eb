#pragma once
#define LUE_ROUTING_OPERATION_EXPORT
