// P26: see p26_global.hpp
#define MC_BATCH 10
#define MC_TIMEOUT 120
#include "p26_global.hpp"

using namespace p26;

void enumerate(std::string const& tier, mc::Emit const& emit)
{
    for (auto const& op : ops())
    {
        long const n = tier == "thorough" ? std::max(op.nr_values, op.nr_values_thorough) : op.nr_values;
        for (long i = 0; i < n; i += op.step)
        {
            emit(std::format("{}|{}|values|{}|{}", tier, op.name, i, std::min(i + op.step, n)));
        }
    }
    long const max = tier == "thorough" ? 5 : 4;
    for (auto const& op : ops())
    {
        for (long r = 1; op.more && r <= max; ++r)
        {
            for (long c = 1; c <= max; ++c)
            {
                for (long pr = 1; pr <= r; ++pr)
                {
                    for (long pc = 1; pc <= c; ++pc)
                    {
                        emit(std::format("{}|{}|layout|{}|{}|{}|{}", tier, op.name, r, c, pr, pc));
                    }
                }
            }
        }
    }
    for (auto const& op : ops())
    {
        if (op.more)
        {
            emit(tier + "|" + op.name + "|schedule");
            emit(tier + "|" + op.name + "|preempt");
        }
    }
}

void run(std::string const& c, mc::Rec& rec)
{
    auto const w = mc::words(c, '|');
    for (auto const& op : ops())
    {
        if (op.name == w[1])
        {
            op.run(rec, {w.begin() + 2, w.end()}, w[0]);
        }
    }
}

auto crash_key(std::string const& c) -> std::string
{
    return mc::words(c, '|')[1];
}

MC_MAIN
