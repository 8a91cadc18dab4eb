// P23: see p23_arrays.hpp
#define MC_BATCH 10
#define MC_TIMEOUT 120
#include "p23_arrays.hpp"

using namespace p23;

void enumerate(std::string const& tier, mc::Emit const& emit)
{
    for (auto const& op : ops())
    {
        long const n = tier == "thorough" ? op.nr_thorough : op.nr;
        for (long i = 0; i < n; i += op.step)
        {
            emit(std::format("{}|{}|{}|{}", tier, op.name, i, std::min(i + op.step, n)));
        }
    }
}

void run(std::string const& c, mc::Rec& rec)
{
    auto const w = mc::words(c, '|');
    for (auto const& op : ops())
    {
        if (op.name == w[1])
        {
            for (long i = std::stol(w[2]); i < std::stol(w[3]); ++i)
            {
                op.run(rec, i, w[0] == "thorough");
            }
        }
    }
}

auto crash_key(std::string const& c) -> std::string
{
    return mc::words(c, '|')[1];
}

MC_MAIN
