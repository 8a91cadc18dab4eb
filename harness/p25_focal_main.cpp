// P25: see p25_focal.hpp
#define MC_BATCH 10
#define MC_TIMEOUT 120
#include "p25_focal.hpp"

using namespace p25;

void enumerate(std::string const& tier, mc::Emit const& emit)
{
    for (auto const& op : ops())
    {
        emit(tier + "|" + op.name + "|windows");
    }
    for (auto const& op : ops())
    {
        if (!op.fixed_kernel)
        {
            for (long k = 0; k < 512; k += 64)
            {
                emit(std::format("{}|{}|kernels|{}|{}", tier, op.name, k, k + 64));
            }
            emit(tier + "|" + op.name + "|positions");
        }
    }
    // Extents of the array and of partitions
    std::vector<std::pair<long, long>> extents{
        {1, 1}, {2, 2}, {5, 2}, {3, 3}, {4, 3}, {5, 3}, {6, 3}, {7, 3}, {9, 3}, {8, 4}, {11, 3}, {5, 5}, {6, 5}, {10, 5}, {11, 5},
        {15, 5}, {7, 7}, {15, 7}};
    if (tier == "thorough")
    {
        extents.clear();
        for (long n = 1; n <= 15; ++n)
        {
            for (long p = 1; p <= std::min(n, 7L); ++p)
            {
                extents.emplace_back(n, p);
            }
        }
    }
    for (auto const& op : ops())
    {
        for (auto const& [r, pr] : extents)
        {
            for (auto const& [c, pc] : extents)
            {
                emit(std::format("{}|{}|layout|{}|{}|{}|{}", tier, op.name, r, c, pr, pc));
            }
        }
    }
    for (auto const& op : ops())
    {
        emit(tier + "|" + op.name + "|schedule");
        if (tier == "thorough" || op.name == "focal_sum(int32)" || op.name == "slope(float64)")
        {
            emit(tier + "|" + op.name + "|preempt");
        }
    }
}

void run(std::string const& c, mc::Rec& rec)
{
    auto const w = mc::words(c, '|');
    for (auto const& op : ops())
    {
        if (op.name == w[1])
        {
            op.run(rec, {w.begin() + 2, w.end()}, w[0]);
        }
    }
}

auto crash_key(std::string const& c) -> std::string
{
    return mc::words(c, '|')[1];
}

MC_MAIN
