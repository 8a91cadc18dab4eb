// A stand-in for the part of HPX that LUE's framework uses, in which a controlled scheduler decides.
//
// All "localities" live in one process and one OS thread. Every HPX task (async, dataflow, continuation,
// action, component construction) becomes a coroutine. Whenever more than one task could run next, a choice is
// made by hpx::mock::Runtime::choose, so that a driver can enumerate all schedules within a bound and replay
// each of them. Work crossing localities is serialized and deserialized with the archives below, by the
// serialize functions LUE defines.
#pragma once
#include <boost/context/fiber.hpp>
#include <boost/context/fixedsize_stack.hpp>
#include <algorithm>
#include <any>
#include <array>
#include <cstdint>
#include <cstring>
#include <deque>
#include <exception>
#include <format>
#include <functional>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <random>
#include <ranges>
#include <set>
#include <shared_mutex>
#include <span>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>


namespace hpx::mock {

    struct AssertionFailed: std::logic_error
    {
            using std::logic_error::logic_error;
    };

    [[noreturn]] inline void assertion_failed(char const* condition, char const* file, int line)
    {
        std::string name{file};
        auto const slash = name.find_last_of('/');
        if (slash != std::string::npos)
        {
            name = name.substr(slash + 1);
        }
        throw AssertionFailed(std::format("assertion failed: {} ({}:{})", condition, name, line));
    }

}  // namespace hpx::mock

#define HPX_ASSERT(...) ((__VA_ARGS__) ? (void)0 : hpx::mock::assertion_failed(#__VA_ARGS__, __FILE__, __LINE__))
#define HPX_ASSERT_MSG(condition, message) HPX_ASSERT(condition)
#define HPX_UNUSED(x) ((void)(x))
#define HPX_PP_CAT(a, b) HPX_PP_CAT_I(a, b)
#define HPX_PP_CAT_I(a, b) a##b
#define HPX_FORWARD(T, ...) std::forward<T>(__VA_ARGS__)
#define HPX_MOVE(...) std::move(__VA_ARGS__)


namespace hpx {

    template<typename... Ts>
    using tuple = std::tuple<Ts...>;
    using std::get;
    using std::ignore;
    using std::make_tuple;
    using std::tie;


    struct launch
    {
            struct async_policy
            {
            };
            struct sync_policy
            {
            };
            struct deferred_policy
            {
            };
            struct fork_policy
            {
            };
            struct apply_policy
            {
            };

            constexpr static async_policy async{};
            constexpr static sync_policy sync{};
            constexpr static deferred_policy deferred{};
            constexpr static fork_policy fork{};
            constexpr static apply_policy apply{};
    };

    template<typename T>
    concept LaunchPolicy =
        std::is_same_v<T, launch::async_policy> || std::is_same_v<T, launch::sync_policy> ||
        std::is_same_v<T, launch::deferred_policy> || std::is_same_v<T, launch::fork_policy> ||
        std::is_same_v<T, launch::apply_policy>;


    namespace mock {

        // Tasks --------------------------------------------------------------------------------------
        struct Task
        {
                std::function<void()> function;
                std::uint32_t locality{0};
                std::size_t id{0};
                boost::context::fiber fiber;
                bool done{false};
                bool ready{false};
        };

        struct Deadlock: std::runtime_error
        {
                using std::runtime_error::runtime_error;
        };

        struct StepLimit: std::runtime_error
        {
                using std::runtime_error::runtime_error;
        };


        // Stacks are reused
        class StackPool
        {
            public:

                using traits_type = boost::context::stack_traits;

                boost::context::stack_context allocate()
                {
                    auto& f = free_stacks();
                    if (!f.empty())
                    {
                        auto s = f.back();
                        f.pop_back();
                        return s;
                    }
                    return boost::context::fixedsize_stack(256 * 1024).allocate();
                }

                void deallocate(boost::context::stack_context& s) noexcept
                {
                    free_stacks().push_back(s);
                }

            private:

                static auto free_stacks() -> std::vector<boost::context::stack_context>&
                {
                    static std::vector<boost::context::stack_context> f;
                    return f;
                }
        };


        class Runtime
        {

            public:

                // What a driver sets ---------------------------------------------------------
                std::uint32_t nr_localities{1};

                bool lifo{false};  // Base order: run the task that became ready last instead of first

                bool preempt{false};  // Is there a choice at synchronization operations as well?

                std::vector<std::uint16_t> script;  // Choices to make; 0 after the end of the script

                std::size_t max_steps{2'000'000};

                // What a driver reads --------------------------------------------------------
                std::vector<std::uint16_t> widths;  // Number of options at each choice point
                std::size_t nr_tasks{0};
                std::size_t nr_steps{0};
                std::size_t nr_parcels{0};
                std::vector<std::string> lost_exceptions;

                static auto instance() -> Runtime&
                {
                    static Runtime runtime;
                    return runtime;
                }

                auto current() -> Task*
                {
                    return _current;
                }

                auto here() const -> std::uint32_t
                {
                    return _current ? _current->locality : 0;
                }

                auto choose(std::size_t const nr_options) -> std::size_t
                {
                    if (nr_options <= 1)
                    {
                        return 0;
                    }
                    std::size_t const position = widths.size();
                    widths.push_back(static_cast<std::uint16_t>(std::min<std::size_t>(nr_options, 65535)));
                    if (position < script.size())
                    {
                        // A script that does not fit is a script of another program
                        return std::min<std::size_t>(script[position], nr_options - 1);
                    }
                    return 0;
                }

                void spawn(std::uint32_t locality, std::function<void()> function)
                {
                    auto task = std::make_unique<Task>();
                    task->function = std::move(function);
                    task->locality = locality;
                    task->id = nr_tasks++;
                    Task* t = task.get();
                    _tasks.emplace(t->id, std::move(task));
                    make_ready(t);
                    point();
                }

                void make_ready(Task* t)
                {
                    if (!t->ready)
                    {
                        t->ready = true;
                        _ready.push_back(t);
                    }
                }

                // Current task waits until someone makes it ready
                void block()
                {
                    if (!_current)
                    {
                        throw std::logic_error("blocking outside of a task");
                    }
                    _scheduler = std::move(_scheduler).resume();
                }

                // Wait until no other task can do anything anymore
                void quiesce()
                {
                    _idle = _current;
                    block();
                }

                // A place where a preemptive scheduler might switch
                void point()
                {
                    if (!preempt || !_current || _ready.empty())
                    {
                        return;
                    }
                    std::size_t const choice = choose(1 + _ready.size());
                    if (choice == 0)
                    {
                        return;
                    }
                    Task* const me = _current;
                    _next = pick(choice - 1);
                    me->ready = true;
                    _ready.push_front(me);
                    block();
                }

                // Run function as a task on locality 0 and everything that follows from it. Returns whether
                // the task finished, and whether all tasks did.
                struct Outcome
                {
                        bool finished{false};
                        std::size_t nr_blocked{0};
                };

                auto run(std::function<void()> function) -> Outcome
                {
                    bool finished{false};
                    spawn(
                        0,
                        [&]
                        {
                            function();
                            finished = true;
                        });
                    loop();
                    Outcome outcome{finished, 0};
                    for (auto& [id, t] : _tasks)
                    {
                        outcome.nr_blocked += !t->done;
                    }
                    return outcome;
                }

                // Forget everything (a run that got stuck leaves coroutines behind)
                void reset()
                {
                    _ready.clear();
                    _next = _idle = nullptr;
                    _current = nullptr;
                    // Unwinding the stacks of blocked tasks runs destructors, which may try to schedule
                    for (auto& hook : _reset_hooks)
                    {
                        hook();
                    }
                    while (!_tasks.empty())
                    {
                        auto node = _tasks.extract(_tasks.begin());
                        if (!node.mapped()->done && node.mapped()->fiber)
                        {
                            node.mapped().release();  // Leaked on purpose
                        }
                    }
                    widths.clear();
                    nr_tasks = nr_steps = nr_parcels = 0;
                    lost_exceptions.clear();
                }

                void at_reset(std::function<void()> hook)
                {
                    _reset_hooks.push_back(std::move(hook));
                }

            private:

                auto pick(std::size_t const choice) -> Task*
                {
                    std::size_t const idx = lifo ? _ready.size() - 1 - choice : choice;
                    Task* t = _ready[idx];
                    _ready.erase(_ready.begin() + static_cast<std::ptrdiff_t>(idx));
                    t->ready = false;
                    return t;
                }

                void loop()
                {
                    while (_next || !_ready.empty() || _idle)
                    {
                        if (!_next && _ready.empty())
                        {
                            _next = std::exchange(_idle, nullptr);
                        }
                        if (++nr_steps > max_steps)
                        {
                            throw StepLimit("too many steps");
                        }
                        Task* t = _next;
                        _next = nullptr;
                        if (!t)
                        {
                            t = pick(choose(_ready.size()));
                        }
                        if (!t->fiber)
                        {
                            t->fiber = boost::context::fiber(
                                std::allocator_arg,
                                StackPool{},
                                [this, t](boost::context::fiber&& scheduler)
                                {
                                    _scheduler = std::move(scheduler);
                                    try
                                    {
                                        t->function();
                                    }
                                    catch (boost::context::detail::forced_unwind const&)
                                    {
                                        throw;
                                    }
                                    catch (std::exception const& e)
                                    {
                                        lost_exceptions.push_back(e.what());
                                    }
                                    catch (...)
                                    {
                                        lost_exceptions.push_back("unknown exception");
                                    }
                                    t->function = nullptr;
                                    t->done = true;
                                    return std::move(_scheduler);
                                });
                        }
                        _current = t;
                        t->fiber = std::move(t->fiber).resume();
                        _current = nullptr;
                        if (t->done)
                        {
                            _tasks.erase(t->id);
                        }
                    }
                }

                std::map<std::size_t, std::unique_ptr<Task>> _tasks;
                std::deque<Task*> _ready;
                Task* _current{nullptr};
                Task* _next{nullptr};
                Task* _idle{nullptr};
                boost::context::fiber _scheduler;
                std::vector<std::function<void()>> _reset_hooks;
        };


        inline auto rt() -> Runtime&
        {
            return Runtime::instance();
        }

        // Run something as if on another locality
        template<typename F>
        auto as_locality(std::uint32_t const locality, F&& f)
        {
            Task* const t = rt().current();
            std::uint32_t const saved = t->locality;
            t->locality = locality;
            struct Restore
            {
                    Task* t;
                    std::uint32_t saved;
                    ~Restore()
                    {
                        t->locality = saved;
                    }
            } restore{t, saved};
            return f();
        }


        struct Unit
        {
        };

        template<typename T>
        using Stored = std::conditional_t<std::is_void_v<T>, Unit, T>;


        // Shared state of futures --------------------------------------------------------------------
        template<typename T>
        struct State
        {
                bool ready{false};
                std::optional<Stored<T>> value;
                std::exception_ptr exception;
                std::vector<std::function<void()>> continuations;

                void finish()
                {
                    ready = true;
                    auto conts = std::move(continuations);
                    continuations.clear();
                    for (auto& c : conts)
                    {
                        c();
                    }
                    rt().point();
                }

                template<typename... Args>
                void set_value(Args&&... args)
                {
                    if (ready)
                    {
                        throw std::logic_error("promise already satisfied");
                    }
                    value.emplace(std::forward<Args>(args)...);
                    finish();
                }

                void set_exception(std::exception_ptr e)
                {
                    if (ready)
                    {
                        throw std::logic_error("promise already satisfied");
                    }
                    exception = std::move(e);
                    finish();
                }

                // Call f when ready, at once if that is already the case
                void on_ready(std::function<void()> f)
                {
                    if (ready)
                    {
                        f();
                    }
                    else
                    {
                        continuations.push_back(std::move(f));
                    }
                }

                void wait()
                {
                    while (!ready)
                    {
                        Task* const t = rt().current();
                        if (!t)
                        {
                            throw std::logic_error("waiting outside of a task");
                        }
                        continuations.push_back([t] { rt().make_ready(t); });
                        rt().block();
                    }
                }

                void rethrow() const
                {
                    if (exception)
                    {
                        std::rethrow_exception(exception);
                    }
                }
        };

        template<typename T>
        using StatePtr = std::shared_ptr<State<T>>;

        // Nothing that might switch to another task may happen while an exception is being handled
        template<typename T, typename F>
        void fulfil(StatePtr<T> const& state, F&& f)
        {
            std::exception_ptr exception;
            std::optional<Stored<T>> value;
            try
            {
                if constexpr (std::is_void_v<T>)
                {
                    f();
                    value.emplace();
                }
                else
                {
                    value.emplace(f());
                }
            }
            catch (boost::context::detail::forced_unwind const&)
            {
                throw;
            }
            catch (...)
            {
                exception = std::current_exception();
            }
            if (exception)
            {
                state->set_exception(std::move(exception));
            }
            else
            {
                state->value = std::move(value);
                state->finish();
            }
        }

    }  // namespace mock


    template<typename T>
    class future;

    template<typename T>
    class shared_future;

    namespace components {

        template<typename Derived, typename Server>
        class client_base;

    }  // namespace components


    namespace traits {

        template<typename T>
        struct is_client: std::false_type
        {
        };

        template<typename T>
            requires requires { typename T::hpx_mock_client_tag; }
        struct is_client<T>: std::true_type
        {
        };

        template<typename T>
        struct is_unique_future: std::false_type
        {
        };

        template<typename T>
        struct is_unique_future<future<T>>: std::true_type
        {
                using type = T;
        };

        template<typename T>
        struct is_shared_future: std::false_type
        {
        };

        template<typename T>
        struct is_shared_future<shared_future<T>>: std::true_type
        {
                using type = T;
        };

        template<typename T>
        constexpr bool is_future_v =
            is_unique_future<T>::value || is_shared_future<T>::value || is_client<T>::value;

        template<typename T>
        struct is_action: std::false_type
        {
        };

        template<typename T>
            requires requires { typename T::hpx_mock_action_tag; }
        struct is_action<T>: std::true_type
        {
        };

        template<typename T>
        constexpr bool is_action_v = is_action<std::decay_t<T>>::value;

        // future<T> → T, everything else stays what it is
        template<typename T>
        struct collapse
        {
                using type = T;
                constexpr static bool nested = false;
        };

        template<typename T>
        struct collapse<future<T>>
        {
                using type = T;
                constexpr static bool nested = true;
        };

        template<typename T>
        struct collapse<shared_future<T>>
        {
                using type = T;
                constexpr static bool nested = true;
        };

        // The result of an action: a shared_future is a value like any other
        template<typename T>
        struct collapse_action: public collapse<T>
        {
        };

        template<typename T>
        struct collapse_action<shared_future<T>>
        {
                using type = shared_future<T>;
                constexpr static bool nested = false;
        };

    }  // namespace traits


    namespace mock {

        // Forward the result of a nested future to a state
        template<typename T, typename Inner>
        void forward_result(Inner&& inner, StatePtr<T> const& state);

        template<typename T, typename F>
        void fulfil_nested(StatePtr<T> const& state, F&& f)
        {
            std::exception_ptr exception;
            std::optional<std::decay_t<std::invoke_result_t<F&>>> inner;
            try
            {
                inner.emplace(f());
            }
            catch (boost::context::detail::forced_unwind const&)
            {
                throw;
            }
            catch (...)
            {
                exception = std::current_exception();
            }
            if (exception)
            {
                state->set_exception(std::move(exception));
            }
            else
            {
                forward_result<T>(std::move(*inner), state);
            }
        }

        template<typename F>
        using Result = std::invoke_result_t<F>;

        // Start a task that computes f() and return the future to its (unwrapped) result
        template<bool collapse, typename F>
        auto run_task(std::uint32_t locality, F&& f);

        template<bool collapse, typename F>
        auto run_now(F&& f);

    }  // namespace mock


    // future -------------------------------------------------------------------------------------------
    template<typename T>
    class future
    {

        public:

            using result_type = T;

            using hpx_mock_value = T;

            future() = default;

            explicit future(mock::StatePtr<T> state):
                _state{std::move(state)}
            {
            }

            future(future const&) = delete;
            future(future&& other) noexcept = default;
            auto operator=(future const&) -> future& = delete;
            auto operator=(future&& other) noexcept -> future& = default;

            // Unwrapping
            future(future<future<T>>&& other):
                _state{std::make_shared<mock::State<T>>()}
            {
                auto inner = std::make_shared<future<future<T>>>(std::move(other));
                auto outer_state = inner->state();
                outer_state->on_ready(
                    [inner, state = _state]
                    {
                        if (inner->state()->exception)
                        {
                            state->set_exception(inner->state()->exception);
                        }
                        else
                        {
                            mock::forward_result<T>(std::move(*inner->state()->value), state);
                        }
                    });
            }

            future(future<shared_future<T>>&& other):
                _state{std::make_shared<mock::State<T>>()}
            {
                auto inner = std::make_shared<future<shared_future<T>>>(std::move(other));
                inner->state()->on_ready(
                    [inner, state = _state]
                    {
                        if (inner->state()->exception)
                        {
                            state->set_exception(inner->state()->exception);
                        }
                        else
                        {
                            mock::forward_result<T>(std::move(*inner->state()->value), state);
                        }
                    });
            }

            // future<R> → future<void>
            template<typename U>
                requires(std::is_void_v<T> && !std::is_void_v<U> && !traits::is_unique_future<U>::value &&
                         !traits::is_shared_future<U>::value)
            future(future<U>&& other):
                _state{std::make_shared<mock::State<T>>()}
            {
                auto other_state = other.release();
                other_state->on_ready(
                    [other_state, state = _state]
                    {
                        if (other_state->exception)
                        {
                            state->set_exception(other_state->exception);
                        }
                        else
                        {
                            state->set_value();
                        }
                    });
            }

            auto valid() const -> bool
            {
                return _state != nullptr;
            }

            auto is_ready() const -> bool
            {
                return _state && _state->ready;
            }

            auto has_exception() const -> bool
            {
                return is_ready() && _state->exception;
            }

            auto has_value() const -> bool
            {
                return is_ready() && !_state->exception;
            }

            auto get_exception_ptr() const -> std::exception_ptr
            {
                wait();
                return _state->exception;
            }

            void wait() const
            {
                check();
                _state->wait();
            }

            auto get() -> T
            {
                check();
                _state->wait();
                rt_point();
                auto state = std::move(_state);
                _state.reset();
                state->rethrow();
                if constexpr (!std::is_void_v<T>)
                {
                    return std::move(*state->value);
                }
            }

            auto share() -> shared_future<T>
            {
                return shared_future<T>{std::move(*this)};
            }

            template<typename F>
            auto then(F&& f)
            {
                return then(launch::async, std::forward<F>(f));
            }

            template<LaunchPolicy P, typename F>
            auto then(P, F&& f)
            {
                check();
                auto state = _state;
                auto self = std::make_shared<future>(std::move(*this));
                _state.reset();
                return attach<std::is_same_v<P, launch::sync_policy>>(
                    state,
                    [self, f = std::forward<F>(f)]() mutable -> decltype(auto)
                    { return std::invoke(std::move(f), std::move(*self)); });
            }

            auto state() const -> mock::StatePtr<T> const&
            {
                return _state;
            }

            auto release() -> mock::StatePtr<T>
            {
                return std::move(_state);
            }

            template<bool sync, typename S, typename G>
            static auto attach(S const& state, G&& g)
            {
                using R0 = std::invoke_result_t<G&>;
                using R = typename traits::collapse<std::decay_t<R0>>::type;
                auto result = std::make_shared<mock::State<std::conditional_t<std::is_void_v<R0>, void, R>>>();
                using R1 = std::conditional_t<std::is_void_v<R0>, void, R>;
                std::uint32_t const locality = mock::rt().here();
                auto work = [result, g = std::make_shared<std::decay_t<G>>(std::forward<G>(g))]() mutable
                {
                    if constexpr (traits::collapse<std::decay_t<R0>>::nested)
                    {
                        mock::fulfil_nested<R1>(result, *g);
                    }
                    else
                    {
                        mock::fulfil<R1>(result, *g);
                    }
                    g.reset();
                };
                if constexpr (sync)
                {
                    state->on_ready(std::move(work));
                }
                else
                {
                    state->on_ready([locality, work]() { mock::rt().spawn(locality, work); });
                }
                return future<R1>{result};
            }

        private:

            static void rt_point()
            {
                mock::rt().point();
            }

            void check() const
            {
                if (!_state)
                {
                    throw std::logic_error("future has no state");
                }
            }

            mock::StatePtr<T> _state;
    };


    template<typename T>
    class shared_future
    {

        public:

            using result_type = T;

            using hpx_mock_value = T;

            shared_future() = default;

            explicit shared_future(mock::StatePtr<T> state):
                _state{std::move(state)}
            {
            }

            shared_future(shared_future const&) = default;
            shared_future(shared_future&&) noexcept = default;
            auto operator=(shared_future const&) -> shared_future& = default;
            auto operator=(shared_future&&) noexcept -> shared_future& = default;

            shared_future(future<T>&& other):
                _state{other.release()}
            {
            }

            shared_future(future<shared_future<T>>&& other):
                _state{future<T>{std::move(other)}.release()}
            {
            }

            shared_future(future<future<T>>&& other):
                _state{future<T>{std::move(other)}.release()}
            {
            }

            // shared_future<R> → shared_future<void>
            template<typename U>
                requires(std::is_void_v<T> && !std::is_void_v<U> && !traits::is_unique_future<U>::value &&
                         !traits::is_shared_future<U>::value)
            shared_future(shared_future<U> const& other):
                _state{std::make_shared<mock::State<T>>()}
            {
                auto other_state = other.state();
                other_state->on_ready(
                    [other_state, state = _state]
                    {
                        if (other_state->exception)
                        {
                            state->set_exception(other_state->exception);
                        }
                        else
                        {
                            state->set_value();
                        }
                    });
            }

            auto valid() const -> bool
            {
                return _state != nullptr;
            }

            auto is_ready() const -> bool
            {
                return _state && _state->ready;
            }

            auto has_exception() const -> bool
            {
                return is_ready() && _state->exception;
            }

            auto has_value() const -> bool
            {
                return is_ready() && !_state->exception;
            }

            auto get_exception_ptr() const -> std::exception_ptr
            {
                wait();
                return _state->exception;
            }

            void wait() const
            {
                check();
                _state->wait();
            }

            auto get() const -> std::conditional_t<std::is_void_v<T>, void, std::add_lvalue_reference_t<std::add_const_t<T>>>
            {
                check();
                _state->wait();
                mock::rt().point();
                _state->rethrow();
                if constexpr (!std::is_void_v<T>)
                {
                    return *_state->value;
                }
            }

            template<typename F>
            auto then(F&& f) const
            {
                return then(launch::async, std::forward<F>(f));
            }

            template<LaunchPolicy P, typename F>
            auto then(P, F&& f) const
            {
                check();
                return future<T>::template attach<std::is_same_v<P, launch::sync_policy>>(
                    _state,
                    [self = *this, f = std::forward<F>(f)]() mutable -> decltype(auto)
                    { return std::invoke(std::move(f), std::move(self)); });
            }

            auto state() const -> mock::StatePtr<T> const&
            {
                return _state;
            }

        private:

            void check() const
            {
                if (!_state)
                {
                    throw std::logic_error("future has no state");
                }
            }

            mock::StatePtr<T> _state;
    };


    namespace mock {

        template<typename T, typename Inner>
        void forward_result(Inner&& inner, StatePtr<T> const& state)
        {
            auto inner_state = inner.state();
            if (!inner_state)
            {
                state->set_exception(std::make_exception_ptr(std::logic_error("inner future has no state")));
                return;
            }
            inner_state->on_ready(
                [inner_state, state]
                {
                    if (inner_state->exception)
                    {
                        state->set_exception(inner_state->exception);
                    }
                    else if constexpr (std::is_void_v<T>)
                    {
                        state->set_value();
                    }
                    else if constexpr (traits::is_shared_future<std::decay_t<Inner>>::value)
                    {
                        if constexpr (std::is_copy_constructible_v<T>)
                        {
                            state->set_value(*inner_state->value);
                        }
                    }
                    else
                    {
                        state->set_value(std::move(*inner_state->value));
                    }
                });
        }


        // A function that can be called once, kept in a copyable wrapper
        template<typename F>
        auto shareable(F&& f)
        {
            auto p = std::make_shared<std::optional<std::decay_t<F>>>(std::forward<F>(f));
            return [p]() -> decltype(auto)
            {
                struct Drop
                {
                        std::optional<std::decay_t<F>>& o;
                        ~Drop()
                        {
                            o.reset();
                        }
                } drop{*p};
                return std::move(**p)();
            };
        }


        template<bool collapse, typename F>
        auto make_work(F&& f)
        {
            using R0 = std::decay_t<std::invoke_result_t<std::decay_t<F>>>;
            constexpr bool nested = collapse && traits::collapse<R0>::nested;
            using R = std::conditional_t<nested, typename traits::collapse<R0>::type, R0>;
            auto result = std::make_shared<State<R>>();
            auto work = [result, g = shareable(std::forward<F>(f))]() mutable
            {
                if constexpr (nested)
                {
                    fulfil_nested<R>(result, g);
                }
                else
                {
                    fulfil<R>(result, g);
                }
            };
            return std::make_pair(future<R>{result}, std::move(work));
        }


        template<bool collapse, typename F>
        auto run_task(std::uint32_t const locality, F&& f)
        {
            auto [result, work] = make_work<collapse>(std::forward<F>(f));
            rt().spawn(locality, std::move(work));
            return std::move(result);
        }


        template<bool collapse, typename F>
        auto run_now(F&& f)
        {
            auto [result, work] = make_work<collapse>(std::forward<F>(f));
            work();
            return std::move(result);
        }

    }  // namespace mock


    template<typename T, typename... Ts>
        requires(std::is_void_v<T> || std::is_constructible_v<T, Ts&&...>)
    auto make_ready_future(Ts&&... values) -> future<T>
    {
        auto state = std::make_shared<mock::State<T>>();
        if constexpr (std::is_void_v<T>)
        {
            state->value.emplace();
        }
        else
        {
            state->value.emplace(T(std::forward<Ts>(values)...));
        }
        state->ready = true;
        return future<T>{state};
    }

    template<int deduction_guard = 0, typename T>
    auto make_ready_future(T&& value) -> future<std::decay_t<T>>
    {
        auto state = std::make_shared<mock::State<std::decay_t<T>>>();
        state->value.emplace(std::forward<T>(value));
        state->ready = true;
        return future<std::decay_t<T>>{state};
    }

    inline auto make_ready_future() -> future<void>
    {
        return make_ready_future<void>();
    }

    template<typename T>
    auto make_exceptional_future(std::exception_ptr e) -> future<T>
    {
        auto state = std::make_shared<mock::State<T>>();
        state->exception = e;
        state->ready = true;
        return future<T>{state};
    }


    template<typename T>
    class promise
    {

        public:

            promise():
                _state{std::make_shared<mock::State<T>>()}
            {
            }

            promise(promise const&) = delete;
            promise(promise&&) = default;
            auto operator=(promise const&) -> promise& = delete;
            auto operator=(promise&&) -> promise& = default;

            ~promise()
            {
                if (_state && !_state->ready && _retrieved)
                {
                    _state->set_exception(std::make_exception_ptr(std::runtime_error("broken promise")));
                }
            }

            auto get_future() -> future<T>
            {
                _retrieved = true;
                return future<T>{_state};
            }

            auto get_shared_future() -> shared_future<T>
            {
                _retrieved = true;
                return shared_future<T>{_state};
            }

            template<typename... Args>
            void set_value(Args&&... args)
            {
                if (!_state)
                {
                    throw std::runtime_error("promise without state");
                }
                _state->set_value(std::forward<Args>(args)...);
            }

            void set_exception(std::exception_ptr e)
            {
                if (!_state)
                {
                    throw std::runtime_error("promise without state");
                }
                _state->set_exception(std::move(e));
            }

        private:

            mock::StatePtr<T> _state;
            bool _retrieved{false};
    };


    // Locks -------------------------------------------------------------------------------------------------
    namespace mock {

        class Lockable
        {

            public:

                Lockable() = default;
                Lockable(Lockable const&) = delete;
                auto operator=(Lockable const&) -> Lockable& = delete;

                void lock()
                {
                    rt().point();
                    while (_writer || _nr_readers > 0)
                    {
                        wait();
                    }
                    _writer = true;
                }

                auto try_lock() -> bool
                {
                    rt().point();
                    if (_writer || _nr_readers > 0)
                    {
                        return false;
                    }
                    _writer = true;
                    return true;
                }

                void unlock()
                {
                    if (!_writer)
                    {
                        throw std::logic_error("unlocking a mutex that is not locked");
                    }
                    _writer = false;
                    wake();
                }

                void lock_shared()
                {
                    rt().point();
                    while (_writer)
                    {
                        wait();
                    }
                    ++_nr_readers;
                }

                auto try_lock_shared() -> bool
                {
                    rt().point();
                    if (_writer)
                    {
                        return false;
                    }
                    ++_nr_readers;
                    return true;
                }

                void unlock_shared()
                {
                    --_nr_readers;
                    wake();
                }

            private:

                void wait()
                {
                    Task* const t = rt().current();
                    if (!t)
                    {
                        throw std::logic_error("locking outside of a task");
                    }
                    _waiting.push_back(t);
                    rt().block();
                }

                void wake()
                {
                    auto waiting = std::move(_waiting);
                    _waiting.clear();
                    for (Task* t : waiting)
                    {
                        rt().make_ready(t);
                    }
                }

                bool _writer{false};
                int _nr_readers{0};
                std::vector<Task*> _waiting;
        };

    }  // namespace mock

    using mutex = mock::Lockable;
    using spinlock = mock::Lockable;
    using shared_mutex = mock::Lockable;


    // Global addresses ----------------------------------------------------------------------------------
    namespace mock {

        // What an id refers to: a locality or a component
        struct Object
        {
                virtual ~Object() = default;
                std::uint32_t locality{0};
                bool is_locality{true};
        };

        template<typename Server>
        struct ComponentObject: Object
        {
                std::unique_ptr<Server> server;
        };

    }  // namespace mock


    class id_type
    {

        public:

            id_type() = default;

            explicit id_type(std::shared_ptr<mock::Object> object):
                _object{std::move(object)}
            {
            }

            explicit operator bool() const
            {
                return _object != nullptr;
            }

            friend auto operator==(id_type const& a, id_type const& b) -> bool
            {
                return a._object == b._object ||
                       (a._object && b._object && a._object->is_locality && b._object->is_locality &&
                        a._object->locality == b._object->locality);
            }

            friend auto operator<(id_type const& a, id_type const& b) -> bool
            {
                return a._object < b._object;
            }

            auto object() const -> std::shared_ptr<mock::Object> const&
            {
                return _object;
            }

            auto locality() const -> std::uint32_t
            {
                if (!_object)
                {
                    throw std::logic_error("invalid id");
                }
                return _object->locality;
            }

            friend auto operator<<(std::ostream& stream, id_type const& id) -> std::ostream&
            {
                return stream << (id ? std::to_string(id.locality()) : std::string{"invalid"});
            }

        private:

            std::shared_ptr<mock::Object> _object;
    };

    inline id_type const invalid_id{};


    namespace mock {

        inline auto locality_id(std::uint32_t const locality) -> id_type
        {
            static std::vector<id_type> ids;
            while (ids.size() <= locality)
            {
                auto object = std::make_shared<Object>();
                object->locality = static_cast<std::uint32_t>(ids.size());
                ids.emplace_back(object);
            }
            return ids[locality];
        }

    }  // namespace mock


    inline auto find_here() -> id_type
    {
        return mock::locality_id(mock::rt().here());
    }

    inline auto find_root_locality() -> id_type
    {
        return mock::locality_id(0);
    }

    inline auto get_locality_id() -> std::uint32_t
    {
        return mock::rt().here();
    }

    inline auto find_all_localities() -> std::vector<id_type>
    {
        std::vector<id_type> result;
        for (std::uint32_t i = 0; i < mock::rt().nr_localities; ++i)
        {
            result.push_back(mock::locality_id(i));
        }
        return result;
    }

    inline auto find_remote_localities() -> std::vector<id_type>
    {
        std::vector<id_type> result;
        for (std::uint32_t i = 0; i < mock::rt().nr_localities; ++i)
        {
            if (i != mock::rt().here())
            {
                result.push_back(mock::locality_id(i));
            }
        }
        return result;
    }

    inline auto get_num_localities(launch::sync_policy) -> std::uint32_t
    {
        return mock::rt().nr_localities;
    }

    inline auto get_colocation_id(launch::sync_policy, id_type const& id) -> id_type
    {
        return mock::locality_id(id.locality());
    }

    inline auto get_colocation_id(id_type const& id) -> future<id_type>
    {
        std::uint32_t const locality = id.locality();
        return mock::run_task<false>(mock::rt().here(), [locality] { return mock::locality_id(locality); });
    }

    inline auto get_num_worker_threads() -> std::size_t
    {
        return 4;
    }

    struct colocated
    {
            id_type id;

            explicit colocated(id_type id):
                id{std::move(id)}
            {
            }
    };


    // Serialization -----------------------------------------------------------------------------------------
    namespace serialization {

        class access;

        class output_archive
        {
            public:

                std::string bytes;
                std::vector<std::any> handles;

                template<typename T>
                auto operator&(T const& value) -> output_archive&;

                template<typename T>
                auto operator<<(T const& value) -> output_archive&
                {
                    return *this & value;
                }

                void write(void const* data, std::size_t size)
                {
                    bytes.append(static_cast<char const*>(data), size);
                }
        };

        class input_archive
        {
            public:

                std::string bytes;
                std::vector<std::any> handles;
                std::size_t position{0};
                std::size_t handle{0};

                template<typename T>
                auto operator&(T&& value) -> input_archive&;

                template<typename T>
                auto operator>>(T&& value) -> input_archive&
                {
                    return *this & std::forward<T>(value);
                }

                void read(void* data, std::size_t size)
                {
                    if (position + size > bytes.size())
                    {
                        throw std::runtime_error("reading past the end of an archive");
                    }
                    std::memcpy(data, bytes.data() + position, size);
                    position += size;
                }
        };

        template<typename T>
        struct array_view
        {
                T* data;
                std::size_t size;
        };

        template<typename T>
        auto make_array(T* data, std::size_t size) -> array_view<T>
        {
            return {data, size};
        }

        template<typename Base, typename Derived>
        auto base_object(Derived& derived) -> Base&
        {
            return static_cast<Base&>(derived);
        }

        class access
        {
            public:

                template<typename Archive, typename T>
                constexpr static bool has_member()
                {
                    return requires(Archive& ar, T& t) { t.serialize(ar, 0u); };
                }

                template<typename Archive, typename T>
                static void serialize(Archive& ar, T& t)
                {
                    t.serialize(ar, 0u);
                }
        };

        template<typename Archive, typename T>
        concept FreeSerializable = requires(Archive& ar, T& t) { serialize(ar, t, 0u); };


        template<typename T>
        struct is_sequence: std::false_type
        {
        };
        template<typename T>
        struct is_sequence<std::vector<T>>: std::true_type
        {
        };
        template<typename T>
        struct is_sequence<std::list<T>>: std::true_type
        {
        };
        template<typename T>
        struct is_sequence<std::deque<T>>: std::true_type
        {
        };
        template<>
        struct is_sequence<std::string>: std::true_type
        {
        };

        // Something that is a vector
        template<typename T>
            requires(requires { typename T::value_type; } && std::is_base_of_v<std::vector<typename T::value_type>, T> &&
                     !std::is_same_v<std::vector<typename T::value_type>, T>)
        struct is_sequence<T>: std::true_type
        {
        };

        template<typename T>
        struct is_associative: std::false_type
        {
        };
        template<typename K, typename C>
        struct is_associative<std::set<K, C>>: std::true_type
        {
                using item = K;
        };
        template<typename K, typename V, typename C>
        struct is_associative<std::map<K, V, C>>: std::true_type
        {
                using item = std::pair<K, V>;
        };
        template<typename K, typename V>
        struct is_associative<std::unordered_map<K, V>>: std::true_type
        {
                using item = std::pair<K, V>;
        };

        template<typename T>
        struct is_tuple: std::false_type
        {
        };
        template<typename... Ts>
        struct is_tuple<std::tuple<Ts...>>: std::true_type
        {
        };
        template<typename A, typename B>
        struct is_tuple<std::pair<A, B>>: std::true_type
        {
        };
        template<typename T>
        struct is_std_array: std::false_type
        {
        };
        template<typename T, std::size_t n>
        struct is_std_array<std::array<T, n>>: std::true_type
        {
        };
        template<typename T>
        struct is_optional: std::false_type
        {
        };
        template<typename T>
        struct is_optional<std::optional<T>>: std::true_type
        {
        };
        template<typename T>
        struct is_array_view: std::false_type
        {
        };
        template<typename T>
        struct is_array_view<array_view<T>>: std::true_type
        {
        };
        template<typename T>
        struct is_shared_ptr: std::false_type
        {
        };
        template<typename T>
        struct is_shared_ptr<std::shared_ptr<T>>: std::true_type
        {
                using value = T;
        };

        template<typename T>
        constexpr bool dependent_false = false;

        template<typename T>
        void save(output_archive& ar, T const& value);

        template<typename T>
        void load(input_archive& ar, T& value);

        template<typename T>
        void save(output_archive& ar, T const& value)
        {
            using U = std::remove_const_t<T>;
            U& v = const_cast<U&>(value);

            if constexpr (std::is_arithmetic_v<U> || std::is_enum_v<U>)
            {
                ar.write(&v, sizeof(U));
            }
            else if constexpr (is_array_view<U>::value)
            {
                for (std::size_t i = 0; i < v.size; ++i)
                {
                    save(ar, v.data[i]);
                }
            }
            else if constexpr (std::is_same_v<U, id_type>)
            {
                ar.handles.emplace_back(v);
            }
            else if constexpr (traits::is_client<U>::value)
            {
                bool const valid = v.valid();
                save(ar, valid);
                if (valid)
                {
                    save(ar, v.get_id());
                }
            }
            else if constexpr (traits::is_unique_future<U>::value || traits::is_shared_future<U>::value)
            {
                // HPX waits for the value before sending it
                bool const valid = v.valid();
                save(ar, valid);
                if (valid)
                {
                    v.wait();
                    bool const has_value = v.has_value();
                    save(ar, has_value);
                    if (has_value)
                    {
                        if constexpr (!std::is_void_v<typename U::result_type>)
                        {
                            save(ar, *v.state()->value);
                        }
                    }
                    else
                    {
                        ar.handles.emplace_back(v.state()->exception);
                    }
                }
            }
            else if constexpr (access::has_member<output_archive, U>())
            {
                access::serialize(ar, v);
            }
            else if constexpr (is_sequence<U>::value)
            {
                save(ar, static_cast<std::uint64_t>(v.size()));
                if constexpr (std::is_same_v<U, std::vector<bool>>)
                {
                    for (bool b : v)
                    {
                        save(ar, b);
                    }
                }
                else
                {
                    for (auto& e : v)
                    {
                        save(ar, e);
                    }
                }
            }
            else if constexpr (is_associative<U>::value)
            {
                save(ar, static_cast<std::uint64_t>(v.size()));
                for (auto& e : v)
                {
                    save(ar, e);
                }
            }
            else if constexpr (is_std_array<U>::value)
            {
                for (auto& e : v)
                {
                    save(ar, e);
                }
            }
            else if constexpr (is_tuple<U>::value)
            {
                std::apply([&ar](auto&... e) { (save(ar, e), ...); }, v);
            }
            else if constexpr (is_optional<U>::value)
            {
                save(ar, v.has_value());
                if (v)
                {
                    save(ar, *v);
                }
            }
            else if constexpr (is_shared_ptr<U>::value)
            {
                save(ar, static_cast<bool>(v));
                if (v)
                {
                    save(ar, *v);
                }
            }
            else if constexpr (FreeSerializable<output_archive, U>)
            {
                serialize(ar, v, 0u);
            }
            else if constexpr (std::is_empty_v<U>)
            {
            }
            else if constexpr (std::is_trivially_copyable_v<U>)
            {
                // HPX copies these bit by bit
                ar.write(&v, sizeof(U));
            }
            else
            {
                static_assert(dependent_false<U>, "type cannot be serialized");
            }
        }

        template<typename T>
        void load(input_archive& ar, T& v)
        {
            using U = T;

            if constexpr (std::is_arithmetic_v<U> || std::is_enum_v<U>)
            {
                ar.read(&v, sizeof(U));
            }
            else if constexpr (is_array_view<U>::value)
            {
                for (std::size_t i = 0; i < v.size; ++i)
                {
                    load(ar, v.data[i]);
                }
            }
            else if constexpr (std::is_same_v<U, id_type>)
            {
                v = std::any_cast<id_type>(ar.handles.at(ar.handle++));
            }
            else if constexpr (traits::is_client<U>::value)
            {
                bool valid{};
                load(ar, valid);
                if (valid)
                {
                    id_type id;
                    load(ar, id);
                    v = U{hpx::make_ready_future(std::move(id))};
                }
                else
                {
                    v = U{};
                }
            }
            else if constexpr (traits::is_unique_future<U>::value || traits::is_shared_future<U>::value)
            {
                bool valid{};
                load(ar, valid);
                if (!valid)
                {
                    v = U{};
                }
                else
                {
                    using R = typename U::result_type;
                    auto state = std::make_shared<mock::State<R>>();
                    bool has_value{};
                    load(ar, has_value);
                    if (has_value)
                    {
                        state->value.emplace();
                        if constexpr (!std::is_void_v<R>)
                        {
                            load(ar, *state->value);
                        }
                    }
                    else
                    {
                        state->exception = std::any_cast<std::exception_ptr>(ar.handles.at(ar.handle++));
                    }
                    state->ready = true;
                    v = U{state};
                }
            }
            else if constexpr (access::has_member<input_archive, U>())
            {
                access::serialize(ar, v);
            }
            else if constexpr (is_sequence<U>::value)
            {
                std::uint64_t size{};
                load(ar, size);
                v.clear();
                v.resize(size);
                if constexpr (std::is_same_v<U, std::vector<bool>>)
                {
                    for (std::size_t i = 0; i < size; ++i)
                    {
                        bool b{};
                        load(ar, b);
                        v[i] = b;
                    }
                }
                else
                {
                    for (auto& e : v)
                    {
                        load(ar, e);
                    }
                }
            }
            else if constexpr (is_associative<U>::value)
            {
                std::uint64_t size{};
                load(ar, size);
                v.clear();
                for (std::uint64_t i = 0; i < size; ++i)
                {
                    typename is_associative<U>::item e{};
                    load(ar, e);
                    v.insert(std::move(e));
                }
            }
            else if constexpr (is_std_array<U>::value)
            {
                for (auto& e : v)
                {
                    load(ar, e);
                }
            }
            else if constexpr (is_tuple<U>::value)
            {
                std::apply(
                    [&ar](auto&... e)
                    { (load(ar, const_cast<std::remove_const_t<std::remove_reference_t<decltype(e)>>&>(e)), ...); },
                    v);
            }
            else if constexpr (is_optional<U>::value)
            {
                bool has_value{};
                load(ar, has_value);
                v.reset();
                if (has_value)
                {
                    v.emplace();
                    load(ar, *v);
                }
            }
            else if constexpr (is_shared_ptr<U>::value)
            {
                bool has_value{};
                load(ar, has_value);
                v.reset();
                if (has_value)
                {
                    v = std::make_shared<typename is_shared_ptr<U>::value>();
                    load(ar, const_cast<std::remove_const_t<typename is_shared_ptr<U>::value>&>(*v));
                }
            }
            else if constexpr (FreeSerializable<input_archive, U>)
            {
                serialize(ar, v, 0u);
            }
            else if constexpr (std::is_empty_v<U>)
            {
            }
            else if constexpr (std::is_trivially_copyable_v<U>)
            {
                ar.read(&v, sizeof(U));
            }
            else
            {
                static_assert(dependent_false<U>, "type cannot be serialized");
            }
        }

        template<typename T>
        auto output_archive::operator&(T const& value) -> output_archive&
        {
            save(*this, value);
            return *this;
        }

        template<typename T>
        auto input_archive::operator&(T&& value) -> input_archive&
        {
            load(*this, value);
            return *this;
        }

    }  // namespace serialization


    namespace mock {

        // Send a value to another locality: what arrives is what its serialization makes of it
        template<typename T>
        auto transmit(T const& value) -> std::decay_t<T>
        {
            using U = std::decay_t<T>;
            serialization::output_archive out;
            serialization::save(out, value);
            serialization::input_archive in;
            in.bytes = std::move(out.bytes);
            in.handles = std::move(out.handles);
            ++rt().nr_parcels;

            if constexpr (serialization::is_tuple<U>::value && !std::is_default_constructible_v<U>)
            {
                static_assert(serialization::dependent_false<U>, "not default constructible");
            }
            else if constexpr (std::is_default_constructible_v<U>)
            {
                U result{};
                serialization::load(in, result);
                if (in.position != in.bytes.size() || in.handle != in.handles.size())
                {
                    throw std::runtime_error("an archive is not read completely");
                }
                return result;
            }
            else if constexpr (std::is_trivially_copyable_v<U> || std::is_empty_v<U>)
            {
                return value;
            }
            else
            {
                static_assert(serialization::dependent_false<U>, "type cannot be default constructed");
            }
        }

    }  // namespace mock


    // Components -------------------------------------------------------------------------------------
    namespace components {

        template<typename Server>
        class component_base
        {

            public:

                using hpx_mock_component = Server;

                component_base() = default;

                component_base(component_base const&)
                {
                }

                component_base(component_base&&) noexcept
                {
                }

                auto get_id() const -> id_type
                {
                    auto object = _object.lock();
                    HPX_ASSERT(object);
                    return id_type{object};
                }

                auto get_unmanaged_id() const -> id_type
                {
                    return get_id();
                }

                std::weak_ptr<mock::Object> _object;
        };

        // Actions on such a component exclude each other
        template<typename Base>
        class locking_hook: public Base
        {
            public:

                using Base::Base;
                locking_hook() = default;
        };

        template<typename Base>
        class migration_support: public Base
        {
            public:

                using Base::Base;
                migration_support() = default;
        };

        template<typename Server>
        class component
        {
        };


        template<typename Derived, typename Server>
        class client_base
        {

            public:

                using hpx_mock_client_tag = void;

                using server_component_type = Server;

                using result_type = id_type;

                client_base() = default;

                client_base(client_base const&) = default;
                client_base(client_base&&) noexcept = default;
                auto operator=(client_base const&) -> client_base& = default;
                auto operator=(client_base&&) noexcept -> client_base& = default;

                explicit client_base(id_type const& id):
                    _id{hpx::make_ready_future(id_type{id})}
                {
                }

                client_base(future<id_type>&& id):
                    _id{std::move(id)}
                {
                }

                client_base(shared_future<id_type> const& id):
                    _id{id}
                {
                }

                // Unwrapping
                client_base(future<Derived>&& other)
                {
                    auto outer = other.release();
                    HPX_ASSERT(outer);
                    auto state = std::make_shared<mock::State<id_type>>();
                    outer->on_ready(
                        [outer, state]
                        {
                            if (outer->exception)
                            {
                                state->set_exception(outer->exception);
                            }
                            else
                            {
                                client_base& client = *outer->value;
                                if (!client.valid())
                                {
                                    state->set_exception(
                                        std::make_exception_ptr(std::logic_error("client has no state")));
                                }
                                else
                                {
                                    mock::forward_result<id_type>(client._id, state);
                                }
                            }
                        });
                    _id = shared_future<id_type>{state};
                }

                auto valid() const -> bool
                {
                    return _id.valid();
                }

                explicit operator bool() const
                {
                    return valid();
                }

                auto is_ready() const -> bool
                {
                    return _id.is_ready();
                }

                auto has_value() const -> bool
                {
                    return _id.has_value();
                }

                auto has_exception() const -> bool
                {
                    return _id.has_exception();
                }

                auto get_exception_ptr() const -> std::exception_ptr
                {
                    return _id.get_exception_ptr();
                }

                void wait() const
                {
                    _id.wait();
                }

                auto get_id() const -> id_type const&
                {
                    return _id.get();
                }

                auto get() const -> id_type
                {
                    return _id.get();
                }

                auto share() const -> shared_future<id_type>
                {
                    return _id;
                }

                template<typename F>
                auto then(F&& f) const
                {
                    return then(launch::async, std::forward<F>(f));
                }

                template<LaunchPolicy P, typename F>
                auto then(P, F&& f) const
                {
                    HPX_ASSERT(valid());
                    return future<id_type>::template attach<std::is_same_v<P, launch::sync_policy>>(
                        _id.state(),
                        [self = static_cast<Derived const&>(*this), f = std::forward<F>(f)]() mutable
                            -> decltype(auto) { return std::invoke(std::move(f), std::move(self)); });
                }

                auto state() const -> mock::StatePtr<id_type> const&
                {
                    return _id.state();
                }

                void reset()
                {
                    _id = {};
                }

            private:

                shared_future<id_type> _id;
        };

    }  // namespace components


    namespace mock {

        template<typename Server>
        auto component_ptr(id_type const& id) -> std::shared_ptr<Server>
        {
            auto object = std::dynamic_pointer_cast<ComponentObject<Server>>(id.object());
            if (!object)
            {
                throw std::logic_error("id does not refer to a component of the expected type");
            }
            if (object->locality != rt().here())
            {
                throw std::logic_error("component accessed from another locality");
            }
            return std::shared_ptr<Server>{object, object->server.get()};
        }

        template<typename Server, typename... Args>
        auto create_component(std::uint32_t const locality, Args&&... args) -> id_type
        {
            auto object = std::make_shared<ComponentObject<Server>>();
            object->locality = locality;
            object->is_locality = false;
            object->server = std::make_unique<Server>(std::forward<Args>(args)...);
            object->server->_object = object;
            return id_type{object};
        }

        template<typename T>
        struct ServerOf
        {
                using type = T;
        };

        template<typename T>
            requires(traits::is_client<T>::value)
        struct ServerOf<T>
        {
                using type = typename T::server_component_type;
        };


        // Evaluate f(args...) on a locality, in a task. Arguments are decayed copies; on another locality they
        // are what their serialization makes of them, and so is the result.
        template<typename F, typename... Args>
        auto remote_call(std::uint32_t const target, F f, std::tuple<Args...>&& args)
        {
            using R0 = decltype(std::apply(f, std::move(args)));
            using R = typename traits::collapse_action<std::decay_t<R0>>::type;
            constexpr bool collapse = !traits::is_shared_future<std::decay_t<R0>>::value;
            std::uint32_t const here = rt().here();

            if (target == here)
            {
                return run_task<collapse>(
                    here,
                    [f = std::move(f), args = std::move(args)]() mutable -> std::decay_t<R0>
                    { return std::apply(f, std::move(args)); });
            }

            return run_task<true>(
                here,
                [here, target, f = std::move(f), args = std::move(args)]() mutable -> future<R>
                {
                    auto sent = transmit(args);
                    // Release the originals, like a parcel does
                    {
                        auto drop = std::move(args);
                    }

                    return run_task<collapse>(
                        target,
                        [here, target, f = std::move(f), sent = std::move(sent)]() mutable -> R
                        {
                            auto call = [&]() -> decltype(auto) { return std::apply(f, std::move(sent)); };
                            if constexpr (std::is_void_v<R0>)
                            {
                                call();
                            }
                            else if constexpr (traits::collapse_action<std::decay_t<R0>>::nested)
                            {
                                auto result = call();
                                if constexpr (std::is_void_v<R>)
                                {
                                    result.get();
                                }
                                else
                                {
                                    auto value = result.get();
                                    return transmit(value);
                                }
                            }
                            else
                            {
                                auto value = call();
                                return transmit(value);
                            }
                        });
                });
        }

    }  // namespace mock


    template<typename T, typename... Args>
    auto new_(id_type const& locality, Args&&... args)
    {
        using Server = typename mock::ServerOf<T>::type;
        std::uint32_t const target = locality.locality();

        auto id_f = mock::remote_call(
            target,
            [target](auto&&... as)
            { return mock::create_component<Server>(target, std::forward<decltype(as)>(as)...); },
            std::tuple<std::decay_t<Args>...>{std::forward<Args>(args)...});

        if constexpr (traits::is_client<T>::value)
        {
            return T{std::move(id_f)};
        }
        else
        {
            return id_f;
        }
    }

    template<typename T, typename... Args>
    auto new_(colocated const& policy, Args&&... args)
    {
        return new_<T>(mock::locality_id(policy.id.locality()), std::forward<Args>(args)...);
    }


    template<typename Server>
    auto get_ptr(launch::sync_policy, id_type const& id) -> std::shared_ptr<Server>
    {
        return mock::component_ptr<Server>(id);
    }

    template<typename Client>
        requires(traits::is_client<Client>::value)
    auto get_ptr(launch::sync_policy, Client const& client)
    {
        return mock::component_ptr<typename Client::server_component_type>(client.get_id());
    }

    template<typename Server>
    auto get_ptr(id_type const& id) -> future<std::shared_ptr<Server>>
    {
        return mock::run_task<false>(
            mock::rt().here(), [id] { return mock::component_ptr<Server>(id); });
    }

    template<typename Client>
        requires(traits::is_client<Client>::value)
    auto get_ptr(Client const& client)
    {
        return mock::run_task<false>(
            mock::rt().here(),
            [client] { return mock::component_ptr<typename Client::server_component_type>(client.get_id()); });
    }


    // Actions -----------------------------------------------------------------------------------------
    namespace mock {

        template<typename F>
        struct FunctionTraits;

        template<typename R, typename... Ps>
        struct FunctionTraits<R (*)(Ps...)>
        {
                using Result = R;
                using Arguments = std::tuple<std::decay_t<Ps>...>;
                constexpr static bool is_member = false;

                template<auto function>
                static auto call(std::uint32_t, Arguments&& args) -> R
                {
                    return std::apply(
                        [](auto&... as) -> R { return function(static_cast<Ps&&>(as)...); }, args);
                }
        };

        template<typename R, typename C, typename... Ps>
        struct FunctionTraits<R (C::*)(Ps...)>
        {
                using Result = R;
                using Component = C;
                using Arguments = std::tuple<std::decay_t<Ps>...>;
                constexpr static bool is_member = true;

                template<auto function, typename Server>
                static auto call(Server& server, Arguments&& args) -> R
                {
                    return std::apply(
                        [&server](auto&... as) -> R { return (server.*function)(static_cast<Ps&&>(as)...); },
                        args);
                }
        };

        template<typename R, typename C, typename... Ps>
        struct FunctionTraits<R (C::*)(Ps...) const>
        {
                using Result = R;
                using Component = C;
                using Arguments = std::tuple<std::decay_t<Ps>...>;
                constexpr static bool is_member = true;

                template<auto function, typename Server>
                static auto call(Server& server, Arguments&& args) -> R
                {
                    return std::apply(
                        [&server](auto&... as) -> R { return (server.*function)(static_cast<Ps&&>(as)...); },
                        args);
                }
        };

        template<typename Tuple, typename... Args>
        auto decay_arguments(Args&&... args) -> Tuple
        {
            return Tuple{std::forward<Args>(args)...};
        }


        template<typename Function, auto function>
        struct PlainAction
        {
                using hpx_mock_action_tag = void;
                using Traits = FunctionTraits<Function>;

                template<typename... Args>
                static auto invoke(id_type const& id, Args&&... args)
                {
                    return remote_call(
                        id.locality(),
                        [](auto&&... as) -> typename Traits::Result
                        {
                            return Traits::template call<function>(
                                0, typename Traits::Arguments{std::forward<decltype(as)>(as)...});
                        },
                        typename Traits::Arguments{std::forward<Args>(args)...});
                }

                template<typename... Args>
                auto operator()(id_type const& id, Args&&... args) const
                {
                    return invoke(id, std::forward<Args>(args)...).get();
                }
        };

        template<typename Component, typename Function, auto function>
        struct ComponentAction
        {
                using hpx_mock_action_tag = void;
                using Traits = FunctionTraits<Function>;

                template<typename... Args>
                static auto invoke(id_type const& id, Args&&... args)
                {
                    if (!id)
                    {
                        throw std::logic_error("action on an invalid id");
                    }
                    return remote_call(
                        id.locality(),
                        [id](auto&&... as) -> typename Traits::Result
                        {
                            auto server = component_ptr<Component>(id);
                            return Traits::template call<function>(
                                *server, typename Traits::Arguments{std::forward<decltype(as)>(as)...});
                        },
                        typename Traits::Arguments{std::forward<Args>(args)...});
                }

                template<typename... Args>
                auto operator()(id_type const& id, Args&&... args) const
                {
                    // A synchronous call of an action on a local component is executed directly
                    if (id.locality() == rt().here())
                    {
                        auto server = component_ptr<Component>(id);
                        using R = typename Traits::Result;
                        if constexpr (traits::collapse<std::decay_t<R>>::nested)
                        {
                            return Traits::template call<function>(
                                       *server, typename Traits::Arguments{std::forward<Args>(args)...})
                                .get();
                        }
                        else
                        {
                            return Traits::template call<function>(
                                *server, typename Traits::Arguments{std::forward<Args>(args)...});
                        }
                    }
                    else
                    {
                        return invoke(id, std::forward<Args>(args)...).get();
                    }
                }
        };

    }  // namespace mock


    namespace actions {

        template<typename Function, Function function, typename Derived>
        struct make_action
        {
                using type = mock::PlainAction<Function, function>;
        };

    }  // namespace actions

}  // namespace hpx

#define HPX_DEFINE_COMPONENT_ACTION(component, function, name)                                               \
    struct name: hpx::mock::ComponentAction<component, decltype(&component::function), &component::function> \
    {                                                                                                        \
    };
#define HPX_DEFINE_COMPONENT_DIRECT_ACTION(component, function, name)                                        \
    HPX_DEFINE_COMPONENT_ACTION(component, function, name)
#define HPX_DEFINE_PLAIN_ACTION(function, name)                                                              \
    struct name: hpx::mock::PlainAction<decltype(&function), &function>                                      \
    {                                                                                                        \
    };
#define HPX_PLAIN_ACTION(function, name) HPX_DEFINE_PLAIN_ACTION(function, name)
#define HPX_REGISTER_ACTION(...)
#define HPX_REGISTER_ACTION_DECLARATION(...)
#define HPX_REGISTER_COMPONENT(...)
#define HPX_REGISTER_COMPONENT_MODULE(...)
#define HPX_REGISTER_CHANNEL(...)
#define HPX_REGISTER_CHANNEL_DECLARATION(...)


namespace hpx {

    // Waiting for collections of futures ---------------------------------------------------------------
    namespace mock {

        template<typename T>
        concept FutureLike = traits::is_future_v<std::decay_t<T>>;

        template<typename T>
        concept Range = !FutureLike<T> && requires(T& t) {
            std::begin(t);
            std::end(t);
        } && !std::is_convertible_v<T, std::string_view>;

        template<typename T>
        concept TupleLike = serialization::is_tuple<std::decay_t<T>>::value;

        template<typename T>
        constexpr auto contains_future() -> bool
        {
            using U = std::decay_t<T>;
            if constexpr (FutureLike<U>)
            {
                return true;
            }
            else if constexpr (TupleLike<U>)
            {
                return []<typename... Ts>(std::type_identity<std::tuple<Ts...>>)
                { return (contains_future<Ts>() || ...); }(as_tuple_type(static_cast<U*>(nullptr)));
            }
            else if constexpr (Range<U>)
            {
                return contains_future<std::remove_cvref_t<decltype(*std::begin(std::declval<U&>()))>>();
            }
            else
            {
                return false;
            }
        }

        template<typename... Ts>
        auto as_tuple_type(std::tuple<Ts...>*) -> std::type_identity<std::tuple<Ts...>>;
        template<typename A, typename B>
        auto as_tuple_type(std::pair<A, B>*) -> std::type_identity<std::tuple<A, B>>;

        // Call f with the state of each (nested) future
        template<typename T, typename F>
        void for_each_state(T const& t, F const& f)
        {
            if constexpr (FutureLike<T>)
            {
                if (!t.valid())
                {
                    throw std::logic_error("waiting for a future without state");
                }
                f(t.state());
            }
            else if constexpr (TupleLike<T>)
            {
                std::apply([&f](auto const&... e) { (for_each_state(e, f), ...); }, t);
            }
            else if constexpr (Range<T const>)
            {
                using E = std::remove_cvref_t<decltype(*std::begin(t))>;
                if constexpr (FutureLike<E> || Range<E> || TupleLike<E>)
                {
                    for (auto const& e : t)
                    {
                        for_each_state(e, f);
                    }
                }
            }
        }

        // Call done once all futures are ready
        template<typename... Ts, typename F>
        void when_ready(F done, Ts const&... ts)
        {
            struct Counter
            {
                    std::size_t pending{1};
                    std::function<void()> done;

                    void count()
                    {
                        if (--pending == 0)
                        {
                            auto d = std::move(done);
                            done = nullptr;
                            d();
                        }
                    }
            };
            auto counter = std::make_shared<Counter>();
            counter->done = std::move(done);
            auto subscribe = [&counter](auto const& state)
            {
                if (!state->ready)
                {
                    ++counter->pending;
                    state->continuations.push_back([counter] { counter->count(); });
                }
            };
            (for_each_state(ts, subscribe), ...);
            counter->count();
        }

        // What when_all & co store for a future passed in: unique futures are moved from
        template<typename T>
        auto acquire(T&& t) -> std::decay_t<T>
        {
            if constexpr (traits::is_unique_future<std::decay_t<T>>::value)
            {
                return std::move(t);
            }
            else
            {
                return std::forward<T>(t);
            }
        }

    }  // namespace mock


    namespace mock {

        template<typename R>
        auto when_all_of(R&& collection) -> future<std::decay_t<R>>
        {
            auto state = std::make_shared<State<std::decay_t<R>>>();
            auto stored = std::make_shared<std::decay_t<R>>(std::forward<R>(collection));
            when_ready([state, stored] { state->set_value(std::move(*stored)); }, *stored);
            return future<std::decay_t<R>>{state};
        }

    }  // namespace mock


    template<typename It>
        requires(std::input_iterator<It> && mock::FutureLike<typename std::iterator_traits<It>::value_type>)
    auto when_all(It first, It last)
    {
        std::vector<typename std::iterator_traits<It>::value_type> collection;
        for (; first != last; ++first)
        {
            collection.push_back(mock::acquire(*first));
        }
        return mock::when_all_of(std::move(collection));
    }

    template<typename It>
    auto when_all_n(It first, std::size_t n)
    {
        std::vector<typename std::iterator_traits<It>::value_type> collection;
        for (std::size_t i = 0; i < n; ++i, ++first)
        {
            collection.push_back(mock::acquire(*first));
        }
        return mock::when_all_of(std::move(collection));
    }

    template<typename T>
        requires(mock::FutureLike<T>)
    auto when_all(std::vector<T>& collection)
    {
        return mock::when_all_of(std::move(collection));
    }

    template<typename T>
        requires(mock::FutureLike<T>)
    auto when_all(std::vector<T>&& collection)
    {
        return mock::when_all_of(std::move(collection));
    }

    template<typename T>
        requires(mock::FutureLike<T>)
    auto when_all(std::vector<T> const& collection)
    {
        auto copy = collection;
        return mock::when_all_of(std::move(copy));
    }

    template<typename T, std::size_t n>
        requires(mock::FutureLike<T>)
    auto when_all(std::array<T, n>& collection)
    {
        return mock::when_all_of(std::move(collection));
    }

    template<typename T, std::size_t n>
        requires(mock::FutureLike<T>)
    auto when_all(std::array<T, n>&& collection)
    {
        return mock::when_all_of(std::move(collection));
    }

    inline auto when_all() -> future<std::tuple<>>
    {
        return make_ready_future(std::tuple<>{});
    }

    template<typename... Ts>
        requires(
            sizeof...(Ts) > 0 &&
            !(sizeof...(Ts) == 2 && std::conjunction_v<std::is_same<
                                        std::decay_t<std::tuple_element_t<0, std::tuple<Ts...>>>,
                                        std::decay_t<Ts>>...> &&
              !mock::FutureLike<std::tuple_element_t<0, std::tuple<Ts...>>>))
    auto when_all(Ts&&... ts)
    {
        return mock::when_all_of(std::tuple<std::decay_t<Ts>...>{mock::acquire(std::forward<Ts>(ts))...});
    }


    template<typename Sequence>
    struct when_any_result
    {
            std::size_t index{static_cast<std::size_t>(-1)};
            Sequence futures;
    };

    template<typename T>
    auto when_any(std::vector<T>&& collection) -> future<when_any_result<std::vector<T>>>
    {
        using R = when_any_result<std::vector<T>>;
        struct Shared
        {
                std::vector<T> collection;
                bool done{false};
        };
        auto state = std::make_shared<mock::State<R>>();
        auto shared = std::make_shared<Shared>();
        shared->collection = std::move(collection);

        if (shared->collection.empty())
        {
            state->set_value(R{});
            return future<R>{state};
        }

        // Several futures may be ready already: any of them may be the one
        std::vector<std::size_t> ready;
        for (std::size_t i = 0; i < shared->collection.size(); ++i)
        {
            if (shared->collection[i].is_ready())
            {
                ready.push_back(i);
            }
        }
        if (!ready.empty())
        {
            std::size_t const idx = ready[mock::rt().choose(ready.size())];
            state->set_value(R{idx, std::move(shared->collection)});
            return future<R>{state};
        }
        for (std::size_t i = 0; i < shared->collection.size(); ++i)
        {
            shared->collection[i].state()->continuations.push_back(
                [state, shared, i]
                {
                    if (!shared->done)
                    {
                        shared->done = true;
                        state->set_value(R{i, std::move(shared->collection)});
                    }
                });
        }
        return future<R>{state};
    }

    template<typename It>
        requires(std::input_iterator<It>)
    auto when_any(It first, It last)
    {
        std::vector<typename std::iterator_traits<It>::value_type> collection;
        for (; first != last; ++first)
        {
            collection.push_back(mock::acquire(*first));
        }
        return when_any(std::move(collection));
    }


    template<typename T>
    auto when_any(std::vector<T>& collection)
    {
        return when_any(collection.begin(), collection.end());
    }

    template<typename T>
    auto when_any(std::vector<T> const& collection)
    {
        return when_any(collection.begin(), collection.end());
    }

    // Exceptions are only rethrown once all are ready
    template<typename It>
        requires(std::input_iterator<It>)
    void wait_all(It const first, It const last)
    {
        for (It it = first; it != last; ++it)
        {
            it->wait();
        }
        for (It it = first; it != last; ++it)
        {
            if (it->has_exception())
            {
                std::rethrow_exception(it->get_exception_ptr());
            }
        }
    }

    template<typename T>
        requires(mock::Range<T const>)
    void wait_all(T const& collection)
    {
        wait_all(std::begin(collection), std::end(collection));
    }

    template<mock::FutureLike... Ts>
    void wait_all(Ts const&... ts)
    {
        (ts.wait(), ...);
        auto rethrow = [](auto const& f)
        {
            if (f.has_exception())
            {
                std::rethrow_exception(f.get_exception_ptr());
            }
        };
        (rethrow(ts), ...);
    }


    template<typename... Ts>
    auto split_future(future<std::tuple<Ts...>>&& f) -> std::tuple<future<Ts>...>
    {
        auto state = f.release();
        HPX_ASSERT(state);
        std::tuple<mock::StatePtr<Ts>...> states{std::make_shared<mock::State<Ts>>()...};
        state->on_ready(
            [state, states]
            {
                [&]<std::size_t... i>(std::index_sequence<i...>)
                {
                    auto set = [&](auto& s, auto& v)
                    {
                        if (state->exception)
                        {
                            s->set_exception(state->exception);
                        }
                        else
                        {
                            s->set_value(std::move(v));
                        }
                    };
                    if (state->exception)
                    {
                        (std::get<i>(states)->set_exception(state->exception), ...);
                    }
                    else
                    {
                        (set(std::get<i>(states), std::get<i>(*state->value)), ...);
                    }
                }(std::index_sequence_for<Ts...>{});
            });
        return std::apply([](auto&... s) { return std::tuple<future<Ts>...>{future<Ts>{s}...}; }, states);
    }

    template<typename A, typename B>
    auto split_future(future<std::pair<A, B>>&& f) -> std::pair<future<A>, future<B>>
    {
        auto t = split_future(f.then(
            launch::sync,
            [](future<std::pair<A, B>>&& g)
            {
                auto p = g.get();
                return std::tuple<A, B>{std::move(p.first), std::move(p.second)};
            }));
        return {std::move(std::get<0>(t)), std::move(std::get<1>(t))};
    }


    template<typename T>
    auto split_future(future<std::vector<T>>&& f, std::size_t const size) -> std::vector<future<T>>
    {
        auto state = f.release();
        HPX_ASSERT(state);
        std::vector<mock::StatePtr<T>> states(size);
        std::vector<future<T>> result;
        for (auto& s : states)
        {
            s = std::make_shared<mock::State<T>>();
            result.emplace_back(s);
        }
        state->on_ready(
            [state, states]
            {
                for (std::size_t i = 0; i < states.size(); ++i)
                {
                    if (state->exception)
                    {
                        states[i]->set_exception(state->exception);
                    }
                    else if (i >= state->value->size())
                    {
                        states[i]->set_exception(
                            std::make_exception_ptr(std::runtime_error("split_future: index out of range")));
                    }
                    else
                    {
                        states[i]->set_value(std::move((*state->value)[i]));
                    }
                }
            });
        return result;
    }


    // unwrapping ----------------------------------------------------------------------------------------
    namespace mock {

        // Value(s) to pass for an argument, as a tuple (nothing for a future<void>)
        template<typename T>
        auto unwrap_one(T&& t)
        {
            using U = std::decay_t<T>;
            if constexpr (traits::is_unique_future<U>::value)
            {
                if constexpr (std::is_void_v<typename U::result_type>)
                {
                    t.get();
                    return std::tuple<>{};
                }
                else
                {
                    return std::tuple<typename U::result_type>{t.get()};
                }
            }
            else if constexpr (traits::is_shared_future<U>::value)
            {
                if constexpr (std::is_void_v<typename U::result_type>)
                {
                    t.get();
                    return std::tuple<>{};
                }
                else
                {
                    return std::tuple<typename U::result_type>{t.get()};
                }
            }
            else if constexpr (traits::is_client<U>::value)
            {
                return std::tuple<id_type>{t.get_id()};
            }
            else if constexpr (serialization::is_sequence<U>::value && Range<U>)
            {
                using E = typename U::value_type;
                if constexpr (
                    traits::is_unique_future<E>::value || traits::is_shared_future<E>::value)
                {
                    using V = typename E::result_type;
                    if constexpr (std::is_void_v<V>)
                    {
                        for (auto& e : t)
                        {
                            const_cast<E&>(e).get();
                        }
                        return std::tuple<>{};
                    }
                    else
                    {
                        std::vector<V> values;
                        for (auto& e : t)
                        {
                            values.push_back(const_cast<E&>(e).get());
                        }
                        return std::tuple<std::vector<V>>{std::move(values)};
                    }
                }
                else
                {
                    return std::tuple<U>{std::forward<T>(t)};
                }
            }
            else if constexpr (TupleLike<U> && contains_future<U>())
            {
                return std::apply(
                    [](auto&... e)
                    {
                        auto joined = std::tuple_cat(unwrap_one(std::move(e))...);
                        return std::tuple<decltype(joined)>{std::move(joined)};
                    },
                    const_cast<U&>(t));
            }
            else
            {
                return std::tuple<U>{std::forward<T>(t)};
            }
        }

        template<typename F>
        struct Unwrapping
        {
                F f;

                template<typename... Ts>
                auto operator()(Ts&&... ts) -> decltype(auto)
                {
                    return std::apply(f, std::tuple_cat(unwrap_one(std::forward<Ts>(ts))...));
                }
        };

    }  // namespace mock

    template<typename F>
    auto unwrapping(F&& f)
    {
        return mock::Unwrapping<std::decay_t<F>>{std::forward<F>(f)};
    }


    // async, post, dataflow -----------------------------------------------------------------------------------
    template<typename F, typename... Args>
        requires(!LaunchPolicy<std::decay_t<F>> && !traits::is_action_v<F>)
    auto async(F&& f, Args&&... args)
    {
        return mock::run_task<false>(
            mock::rt().here(),
            [f = std::decay_t<F>(std::forward<F>(f)),
             args = std::tuple<std::decay_t<Args>...>{std::forward<Args>(args)...}]() mutable
            {
                return std::apply(
                    [&f](auto&... as) { return std::invoke(std::move(f), std::move(as)...); }, args);
            });
    }

    template<typename Action, typename... Args>
        requires(traits::is_action_v<Action>)
    auto async(Action&&, id_type const& id, Args&&... args)
    {
        return std::decay_t<Action>::invoke(id, std::forward<Args>(args)...);
    }

    template<typename Action, typename Client, typename... Args>
        requires(traits::is_action_v<Action> && traits::is_client<std::decay_t<Client>>::value)
    auto async(Action&&, Client const& client, Args&&... args)
    {
        return std::decay_t<Action>::invoke(client.get_id(), std::forward<Args>(args)...);
    }

    template<LaunchPolicy P, typename F, typename... Args>
    auto async(P, F&& f, Args&&... args)
    {
        if constexpr (std::is_same_v<P, launch::sync_policy> && !traits::is_action_v<F>)
        {
            return mock::run_now<false>([&] { return std::invoke(std::forward<F>(f), std::forward<Args>(args)...); });
        }
        else
        {
            return async(std::forward<F>(f), std::forward<Args>(args)...);
        }
    }

    template<typename Action, typename... Args>
        requires(traits::is_action_v<Action>)
    auto async(Args&&... args)
    {
        return async(Action{}, std::forward<Args>(args)...);
    }

    template<typename F, typename... Args>
    void post(F&& f, Args&&... args)
    {
        async(std::forward<F>(f), std::forward<Args>(args)...);
    }

    template<typename F, typename... Args>
    auto sync(F&& f, Args&&... args)
    {
        return async(std::forward<F>(f), std::forward<Args>(args)...).get();
    }


    namespace mock {

        template<bool sync, typename F, typename... Args>
        auto dataflow(F&& f, Args&&... args)
        {
            auto stored = std::make_shared<std::tuple<std::decay_t<Args>...>>(acquire(std::forward<Args>(args))...);
            auto call = [f = std::decay_t<F>(std::forward<F>(f)), stored]() mutable
            {
                auto values = std::move(*stored);
                stored.reset();
                return std::apply(
                    [&f](auto&... as)
                    {
                        if constexpr (traits::is_action_v<F>)
                        {
                            return std::decay_t<F>::invoke(std::move(as)...);
                        }
                        else
                        {
                            return std::invoke(f, std::move(as)...);
                        }
                    },
                    values);
            };
            auto [result, work] = make_work<true>(std::move(call));
            std::uint32_t const here = rt().here();
            when_ready(
                [here, work]() mutable
                {
                    if constexpr (sync)
                    {
                        work();
                    }
                    else
                    {
                        rt().spawn(here, work);
                    }
                },
                *stored);
            return std::move(result);
        }

    }  // namespace mock


    template<typename F, typename... Args>
        requires(!LaunchPolicy<std::decay_t<F>>)
    auto dataflow(F&& f, Args&&... args)
    {
        return mock::dataflow<false>(std::forward<F>(f), std::forward<Args>(args)...);
    }

    template<LaunchPolicy P, typename F, typename... Args>
    auto dataflow(P, F&& f, Args&&... args)
    {
        return mock::dataflow<std::is_same_v<P, launch::sync_policy>>(
            std::forward<F>(f), std::forward<Args>(args)...);
    }

    template<typename F>
    auto annotated_function(F&& f, char const* = nullptr) -> F&&
    {
        return std::forward<F>(f);
    }

    template<typename F>
    auto annotated_function(F&& f, std::string const&) -> F&&
    {
        return std::forward<F>(f);
    }

    using std::bind_front;


    // Names ---------------------------------------------------------------------------------------------
    namespace mock {

        struct Names
        {
                std::map<std::pair<std::string, std::size_t>, StatePtr<id_type>> entries;
                std::set<std::pair<std::string, std::size_t>> registered;

                static auto instance() -> Names&
                {
                    static Names* names = []
                    {
                        auto* n = new Names;
                        rt().at_reset(
                            [n]
                            {
                                auto e = std::move(n->entries);
                                n->entries.clear();
                                n->registered.clear();
                            });
                        return n;
                    }();
                    return *names;
                }

                auto entry(std::string const& name, std::size_t idx) -> StatePtr<id_type>
                {
                    auto& e = entries[{name, idx}];
                    if (!e)
                    {
                        e = std::make_shared<State<id_type>>();
                    }
                    return e;
                }
        };

    }  // namespace mock


    template<typename Client>
        requires(traits::is_client<Client>::value)
    auto register_with_basename(std::string const& name, Client const& client, std::size_t idx) -> future<bool>
    {
        return client.then(
            [name, idx](auto const& c)
            {
                auto& names = mock::Names::instance();
                if (!names.registered.emplace(name, idx).second)
                {
                    return false;
                }
                names.entry(name, idx)->set_value(c.get_id());
                return true;
            });
    }

    inline auto register_with_basename(std::string const& name, id_type const& id, std::size_t idx)
        -> future<bool>
    {
        return mock::run_task<false>(
            mock::rt().here(),
            [name, id, idx]
            {
                auto& names = mock::Names::instance();
                if (!names.registered.emplace(name, idx).second)
                {
                    return false;
                }
                names.entry(name, idx)->set_value(id);
                return true;
            });
    }

    template<typename Client>
    auto find_from_basename(std::string const& name, std::size_t idx) -> Client
    {
        return Client{shared_future<id_type>{mock::Names::instance().entry(name, idx)}};
    }

    inline auto unregister_with_basename(std::string const& name, std::size_t idx) -> future<id_type>
    {
        return mock::run_task<false>(
            mock::rt().here(),
            [name, idx]
            {
                auto& names = mock::Names::instance();
                if (names.registered.erase({name, idx}) == 0)
                {
                    throw std::runtime_error("name is not registered: " + name);
                }
                id_type id = *names.entry(name, idx)->value;
                names.entries.erase({name, idx});
                return id;
            });
    }


    // Channels -----------------------------------------------------------------------------------------
    namespace lcos {

        template<typename T>
        class channel;

    }

    namespace mock {

        template<typename T>
        class ChannelServer: public components::component_base<ChannelServer<T>>
        {

            public:

                ChannelServer() = default;

                std::deque<T> values;
                std::deque<StatePtr<T>> waiting;
                bool closed{false};

                void set(T value)
                {
                    if (closed)
                    {
                        throw std::runtime_error("attempting to write to a closed channel");
                    }
                    if (!waiting.empty())
                    {
                        auto state = waiting.front();
                        waiting.pop_front();
                        state->set_value(std::move(value));
                    }
                    else
                    {
                        values.push_back(std::move(value));
                    }
                }

                auto get() -> future<T>
                {
                    auto state = std::make_shared<State<T>>();
                    if (!values.empty())
                    {
                        T value = std::move(values.front());
                        values.pop_front();
                        state->set_value(std::move(value));
                    }
                    else if (closed)
                    {
                        state->set_exception(std::make_exception_ptr(
                            std::runtime_error("this channel is empty and was closed")));
                    }
                    else
                    {
                        waiting.push_back(state);
                    }
                    return future<T>{state};
                }

                auto close() -> std::size_t
                {
                    if (closed)
                    {
                        throw std::runtime_error("attempting to close an already closed channel");
                    }
                    closed = true;
                    auto pending = std::move(waiting);
                    waiting.clear();
                    for (auto& state : pending)
                    {
                        state->set_exception(
                            std::make_exception_ptr(std::runtime_error("canceled waiting on this entry")));
                    }
                    return pending.size();
                }

                HPX_DEFINE_COMPONENT_ACTION(ChannelServer, set, SetAction)
                HPX_DEFINE_COMPONENT_ACTION(ChannelServer, get, GetAction)
                HPX_DEFINE_COMPONENT_ACTION(ChannelServer, close, CloseAction)
        };

    }  // namespace mock

    namespace lcos {

        template<typename T>
        class channel: public components::client_base<channel<T>, mock::ChannelServer<T>>
        {

            public:

                using Server = mock::ChannelServer<T>;
                using Base = components::client_base<channel<T>, Server>;

                channel() = default;

                explicit channel(id_type const& id):
                    Base{id.object() && id.object()->is_locality ? hpx::new_<Server>(id)
                                                                  : hpx::make_ready_future(id_type{id})}
                {
                }

                explicit channel(future<id_type>&& id):
                    Base{std::move(id)}
                {
                }

                explicit channel(shared_future<id_type> const& id):
                    Base{id}
                {
                }

                void set(T value) const
                {
                    mock::rt().point();
                    typename Server::SetAction{}(this->get_id(), std::move(value));
                }

                template<LaunchPolicy P>
                auto set(P, T value) const
                {
                    if constexpr (std::is_same_v<P, launch::async_policy>)
                    {
                        return hpx::async(typename Server::SetAction{}, this->get_id(), std::move(value));
                    }
                    else
                    {
                        set(std::move(value));
                    }
                }

                auto get() const -> future<T>
                {
                    mock::rt().point();
                    if (this->get_id().locality() == mock::rt().here())
                    {
                        return mock::component_ptr<Server>(this->get_id())->get();
                    }
                    return hpx::async(typename Server::GetAction{}, this->get_id());
                }

                auto get(launch::async_policy) const -> future<T>
                {
                    return get();
                }

                auto get(launch::sync_policy) const -> T
                {
                    return get().get();
                }

                auto close(bool = false) const -> std::size_t
                {
                    mock::rt().point();
                    return typename Server::CloseAction{}(this->get_id());
                }

                class iterator
                {
                    public:

                        using value_type = T;
                        using difference_type = std::ptrdiff_t;
                        using reference = T const&;
                        using pointer = T const*;
                        using iterator_category = std::input_iterator_tag;

                        iterator() = default;

                        explicit iterator(channel const* c):
                            _channel{c}
                        {
                            next();
                        }

                        auto operator*() const -> T const&
                        {
                            return *_value;
                        }

                        auto operator++() -> iterator&
                        {
                            next();
                            return *this;
                        }

                        auto operator++(int) -> iterator
                        {
                            auto copy = *this;
                            next();
                            return copy;
                        }

                        friend auto operator==(iterator const& a, iterator const& b) -> bool
                        {
                            return a._channel == b._channel;
                        }

                    private:

                        void next()
                        {
                            try
                            {
                                _value = _channel->get(launch::sync);
                            }
                            catch (std::runtime_error const&)
                            {
                                _channel = nullptr;
                                _value.reset();
                            }
                        }

                        channel const* _channel{nullptr};
                        std::optional<T> _value;
                };

                auto begin() const -> iterator
                {
                    return iterator{this};
                }

                auto end() const -> iterator
                {
                    return {};
                }
        };

    }  // namespace lcos

    namespace distributed {

        template<typename T>
        using channel = lcos::channel<T>;

        template<typename T>
        using promise = hpx::promise<T>;

    }  // namespace distributed

}  // namespace hpx
