#ifndef V_DELAY_HPP
#define V_DELAY_HPP
#include <stdint.h>
#include <atomic>
extern std::atomic<int> delay_mode;
extern std::atomic<long> delay_events, delay_taken, create_fail_at, creates, create_failures;
extern std::atomic<uint64_t> delay_seed;
#endif
