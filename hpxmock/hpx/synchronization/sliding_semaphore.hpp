#pragma once
#include <hpx/mock.hpp>
#include <cstdint>
#include <set>
#include <stdexcept>
#include <vector>

namespace hpx {

    namespace mock {

        inline auto live_semaphores() -> std::set<void const*>&
        {
            static std::set<void const*> s;
            return s;
        }

        // The number of threads waiting in, and calls of, semaphores that are not there anymore
        inline auto dead_semaphore_uses() -> long&
        {
            static long n = 0;
            return n;
        }

    }  // namespace mock

    // As in HPX: wait(u) blocks until u - max_difference <= lower limit; signal(l) raises the lower limit
    class sliding_semaphore
    {

        public:

            explicit sliding_semaphore(std::int64_t const max_difference, std::int64_t const lower_limit = 0):
                _max_difference{max_difference},
                _lower_limit{lower_limit}
            {
                mock::live_semaphores().insert(this);
            }

            sliding_semaphore(sliding_semaphore const&) = delete;

            auto operator=(sliding_semaphore const&) -> sliding_semaphore& = delete;

            ~sliding_semaphore()
            {
                mock::live_semaphores().erase(this);
                mock::dead_semaphore_uses() += static_cast<long>(_waiting.size());
            }

            void set_max_difference(std::int64_t const max_difference, std::int64_t const lower_limit = 0)
            {
                _max_difference = max_difference;
                _lower_limit = lower_limit;
            }

            void wait(std::int64_t const upper_limit = 1)
            {
                mock::rt().point();
                while (upper_limit - _max_difference > _lower_limit)
                {
                    _waiting.push_back(mock::rt().current());
                    mock::rt().block();
                }
            }

            auto try_wait(std::int64_t const upper_limit = 1) -> bool
            {
                return upper_limit - _max_difference <= _lower_limit;
            }

            void signal(std::int64_t const lower_limit)
            {
                if (!mock::live_semaphores().contains(this))
                {
                    ++mock::dead_semaphore_uses();
                    return;
                }
                _lower_limit = std::max(lower_limit, _lower_limit);
                for (auto* const t : std::exchange(_waiting, {}))
                {
                    mock::rt().make_ready(t);
                }
                mock::rt().point();
            }

            auto signal_all() -> std::int64_t
            {
                signal(_lower_limit);
                return _lower_limit;
            }

        private:

            std::int64_t _max_difference;
            std::int64_t _lower_limit;
            std::vector<mock::Task*> _waiting;
    };

    namespace agas {

        inline void garbage_collect()
        {
        }

    }  // namespace agas

}  // namespace hpx
