#pragma once
#include <hpx/mock.hpp>
