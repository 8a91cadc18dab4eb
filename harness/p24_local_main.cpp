// P24: see p24_local.hpp
#define MC_BATCH 20
#define MC_TIMEOUT 120
#include "p24_local.hpp"

using namespace p24;

void enumerate(std::string const& tier, mc::Emit const& emit)
{
    for (auto const& op : ops())
    {
        emit(tier + "|" + op.name + "|values");
    }
    long const max = tier == "thorough" ? 5 : 4;
    for (auto const& op : ops())
    {
        if (op.layouts)
        {
            for (long r = 1; r <= max; ++r)
            {
                for (long c = 1; c <= max; ++c)
                {
                    for (long pr = 1; pr <= r; ++pr)
                    {
                        for (long pc = 1; pc <= c; ++pc)
                        {
                            emit(std::format("{}|{}|layout|{}|{}|{}|{}", tier, op.name, r, c, pr, pc));
                        }
                    }
                }
            }
        }
    }
    for (auto const& op : ops())
    {
        if (op.layouts)
        {
            emit(tier + "|" + op.name + "|schedule");
            emit(tier + "|" + op.name + "|preempt");
        }
    }
}

void run(std::string const& c, mc::Rec& rec)
{
    auto const w = mc::words(c, '|');
    for (auto const& op : ops())
    {
        if (op.name == w[1])
        {
            op.run(rec, {w.begin() + 2, w.end()}, w[0]);
        }
    }
}

auto crash_key(std::string const& c) -> std::string
{
    return mc::words(c, '|')[1];
}

MC_MAIN
