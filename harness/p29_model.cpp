// P29: a model is simulated time step by time step, with at most so many time steps in flight
#define MC_BATCH 4
#include "fw.hpp"
#include "lue/framework/model/model.hpp"
#include "lue/framework/model/progressor.hpp"
#include "lue/framework/model/simulate.hpp"
#include <hpx/synchronization/sliding_semaphore.hpp>


namespace {

    // What a time step does: nothing that takes time (r), a task (t), a task that starts a task (c), something that
    // needs what the previous time step creates (d), two tasks of which the last one can be the first to be done (p)
    std::string const kinds{"rtcdp"};

    struct Log
    {
            std::vector<std::string> calls;
            std::set<lue::Count> running;
            std::size_t max_running{0};
            std::string problem;

            void call(std::string const& s)
            {
                calls.push_back(s);
            }

            // Nothing may be running anymore
            void idle(std::string const& where)
            {
                if (!running.empty() && problem.empty())
                {
                    problem = std::format("time step {} is not finished at {}", *running.begin(), where);
                }
            }
    };

    class MyModel: public lue::Model
    {

        public:

            MyModel(Log& log, std::string steps, std::size_t const limit, lue::Count const first):
                _log{&log},
                _steps{std::move(steps)},
                _limit{limit},
                _first{first},
                _previous{hpx::make_ready_future<void>()}
            {
            }

            void preprocess(lue::Count const sample_nr) override
            {
                _log->idle("preprocess");
                _log->call(std::format("m.preprocess({})", sample_nr));
            }

            void initialize() override
            {
                _log->idle("initialize");
                _log->call("m.initialize");
                _previous = hpx::make_ready_future<void>();
            }

            auto simulate(lue::Count const time_step) -> hpx::shared_future<void> override
            {
                _log->call(std::format("m.simulate({})", time_step));
                auto* const log = _log;
                log->running.insert(time_step);
                log->max_running = std::max(log->max_running, log->running.size());
                if (log->running.size() > _limit && log->problem.empty())
                {
                    log->problem = std::format(
                        "{} time steps are in flight at time step {}, with a limit of {}", log->running.size(), time_step, _limit);
                }
                auto done = [log, time_step] { log->running.erase(time_step); };

                hpx::shared_future<void> result;
                switch (_steps.at(static_cast<std::size_t>(time_step - _first)))
                {
                    case 'r':
                    {
                        done();
                        result = hpx::make_ready_future<void>();
                        break;
                    }
                    case 't':
                    {
                        result = hpx::async(done);
                        break;
                    }
                    case 'c':
                    {
                        result = hpx::async([done] { return hpx::async(done); });
                        break;
                    }
                    case 'd':
                    {
                        result = _previous.then([done](auto const&) { done(); });
                        break;
                    }
                    case 'p':
                    {
                        hpx::shared_future<void> a = hpx::async([] {});
                        hpx::shared_future<void> b = hpx::async([] {});
                        result = hpx::when_all(a, b).then([done](auto&&) { done(); });
                        break;
                    }
                }
                _previous = result;
                return result;
            }

            void finalize() override
            {
                _log->idle("finalize");
                _log->call("m.finalize");
            }

            void postprocess() override
            {
                _log->idle("postprocess");
                _log->call("m.postprocess");
            }

        private:

            Log* _log;
            std::string _steps;
            std::size_t _limit;
            lue::Count _first;
            hpx::shared_future<void> _previous;
    };

    class MyProgressor: public lue::Progressor
    {

        public:

            explicit MyProgressor(Log& log):
                _log{&log}
            {
            }

            void preprocess(lue::Count const sample_nr) override
            {
                _log->call(std::format("p.preprocess({})", sample_nr));
            }

            void initialize() override
            {
                _log->call("p.initialize");
            }

            void simulate(lue::Count const time_step) override
            {
                _log->call(std::format("p.simulate({})", time_step));
            }

            void finalize() override
            {
                _log->idle("finalize of the progressor");
                _log->call("p.finalize");
            }

            void postprocess() override
            {
                _log->call("p.postprocess");
            }

        private:

            Log* _log;
    };

    auto text(Log const& log) -> std::string
    {
        std::string s;
        for (auto const& c : log.calls)
        {
            s += c + " ";
        }
        return s + (log.problem.empty() ? "" : "PROBLEM " + log.problem);
    }

    // Base classes: do nothing, in no time
    class Plain: public lue::Model
    {
    };

}  // Anonymous namespace


void enumerate(std::string const& tier, std::function<void(std::string const&)> const& emit)
{
    bool const thorough = tier == "thorough";
    long const max_steps = thorough ? 4 : 3;
    // All behaviours of all time steps
    for (long n = 0; n <= max_steps; ++n)
    {
        long nr = 1;
        for (long i = 0; i < n; ++i)
        {
            nr *= static_cast<long>(kinds.size());
        }
        for (long k = 0; k < nr; ++k)
        {
            std::string steps;
            for (long i = 0, j = k; i < n; ++i, j /= static_cast<long>(kinds.size()))
            {
                steps += kinds[static_cast<std::size_t>(j) % kinds.size()];
            }
            for (long rate = 0; rate <= n + 1; ++rate)
            {
                emit(std::format("{}|deterministic|{}|{}|{}", tier, steps, rate, 2));
            }
        }
    }
    // Every schedule of a single time step, more schedules of two
    for (std::string const steps : {"t", "tt", "td", "tr", "rt", "dt", "cr"})
    {
        for (long rate = 0; rate <= static_cast<long>(steps.size()) + 1; ++rate)
        {
            emit(std::format("{}|deterministic|{}|{}|{}", tier, steps, rate, steps.size() == 1 ? 99 : thorough ? 4 : 3));
        }
    }
    // Many time steps
    for (long n : {4, 5, 6, 10})
    {
        for (char const kind : kinds)
        {
            for (long rate : {0, 1, 2, 3, 5, 9, 10, 11, 1000})
            {
                emit(std::format("{}|deterministic|{}|{}|{}", tier, std::string(static_cast<std::size_t>(n), kind), rate, n < 6 || thorough ? 2 : 1));
            }
        }
    }
    // Samples
    for (long samples = 0; samples <= 3; ++samples)
    {
        for (std::string const steps : {"", "t", "td", "ct", "rtt"})
        {
            for (long rate : {0, 1, 2})
            {
                emit(std::format("{}|stochastic|{}|{}|{}|{}", tier, steps, rate, 1, samples));
            }
        }
    }
    // Part of the time steps
    for (long first : {1, 2, 5, 0, -3, 1000000})
    {
        for (std::string const steps : {"t", "td", "ct", "rtt", "ttd", "tttt"})
        {
            for (long rate : {0, 1, 2, 3})
            {
                emit(std::format("{}|range|{}|{}|{}|{}", tier, steps, rate, thorough ? 2 : 1, first));
            }
        }
    }
    emit(tier + "|plain|tt|1|1");
}


void run(std::string const& c, mc::Rec& rec)
{
    auto const w = mc::words(c, '|');
    bool const thorough = w[0] == "thorough";
    auto const& what = w[1];
    auto const& steps = w[2];
    lue::Count const n = static_cast<lue::Count>(steps.size());
    lue::Count const rate = std::stol(w[3]);
    std::size_t const limit = rate == 0 ? std::max<std::size_t>(steps.size(), 1) : static_cast<std::size_t>(rate);

    fw::Plan plan;
    plan.localities = {1};
    plan.deviations = std::stoi(w[4]);
    plan.preempt = true;
    plan.max_schedules = thorough ? 5000000 : 200000;
    plan.both_orders = plan.deviations < 99;  // Otherwise all orders are tried already

    auto observe = [&](lue::Count const first, auto const& f)
    {
        return [&, first]
        {
            hpx::mock::dead_semaphore_uses() = 0;
            auto log = std::make_shared<Log>();
            MyModel model{*log, steps, limit, first};
            MyProgressor progressor{*log};
            f(model, progressor);
            log->idle("the return of the function");
            log->call("returned");
            if (auto const k = hpx::mock::dead_semaphore_uses())
            {
                log->problem = std::format("{} uses of a semaphore that is not there anymore", k);
            }
            return text(*log);
        };
    };
    std::string want;
    auto want_steps = [&](lue::Count const first)
    {
        for (lue::Count t = first; t < first + n; ++t)
        {
            want += std::format("m.simulate({}) p.simulate({}) ", t, t);
        }
    };
    auto const input = std::format("time steps that do {}, rate limit {}", steps.empty() ? "nothing" : steps, rate);

    if (what == "deterministic")
    {
        want = "p.initialize m.initialize ";
        want_steps(1);
        want += "m.finalize p.finalize returned ";
        fw::explore(
            rec,
            "run_deterministic",
            plan,
            observe(1, [&](auto& model, auto& progressor) { lue::run_deterministic(model, progressor, n, rate); }),
            want,
            input);
        if (rate == 0)
        {
            fw::explore(
                rec,
                "run_deterministic",
                plan,
                observe(1, [&](auto& model, auto& progressor) { lue::run_deterministic(model, progressor, n); }),
                want,
                input + " by default");
        }
    }
    else if (what == "stochastic")
    {
        lue::Count const nr_samples = std::stol(w[5]);
        for (lue::Count s = 1; s <= nr_samples; ++s)
        {
            want += std::format("p.preprocess({}) m.preprocess({}) p.initialize m.initialize ", s, s);
            want_steps(1);
            want += "m.finalize p.finalize m.postprocess p.postprocess ";
        }
        want += "returned ";
        fw::explore(
            rec,
            "run_stochastic",
            plan,
            observe(1, [&](auto& model, auto& progressor) { lue::run_stochastic(model, progressor, nr_samples, n, rate); }),
            want,
            std::format("{} samples of {}", nr_samples, input));
        if (rate == 0)
        {
            fw::explore(
                rec,
                "run_stochastic",
                plan,
                observe(1, [&](auto& model, auto& progressor) { lue::run_stochastic(model, progressor, nr_samples, n); }),
                want,
                std::format("{} samples of {} by default", nr_samples, input));
        }
    }
    else if (what == "range")
    {
        lue::Count const first = std::stol(w[5]);
        want_steps(first);
        want += "returned ";
        fw::explore(
            rec,
            "simulate",
            plan,
            observe(
                first,
                [&](auto& model, auto& progressor) { lue::simulate(model, progressor, first, first + n - 1, rate); }),
            want,
            std::format("from time step {}, {}", first, input));
    }
    else
    {
        // The default customization points do nothing
        fw::explore(
            rec,
            "default model",
            plan,
            []
            {
                Plain model;
                lue::Progressor progressor;
                lue::run_stochastic(model, progressor, 2, 3, 1);
                lue::preprocess(model, 1);
                lue::initialize(model);
                auto f = lue::simulate(model, 1);
                bool const ready = f.is_ready();
                lue::finalize(model);
                lue::postprocess(model);
                return std::string{ready ? "ready" : "not ready"};
            },
            "ready",
            "models and progressors that do nothing");
    }
}

auto crash_key(std::string const& c) -> std::string
{
    return mc::words(c, '|')[1];
}

MC_MAIN
