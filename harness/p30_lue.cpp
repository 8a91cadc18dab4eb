// source/framework/io/source/lue.cpp, with a normalize that p30_io.cpp extends
#include <filesystem>
#include <map>
#include <string>
#include <hpx/mock.hpp>
#include "lue/framework/core/define.hpp"
#include <boost/container/flat_map.hpp>
#include <format>
#include <mutex>
namespace std {
    using ControlledMutex = hpx::mutex;
}
// A task that waits for a mutex must not stop the other ones
#define mutex ControlledMutex
#define normalize real_normalize
#include P30_LUE
