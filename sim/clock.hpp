// Simulated clocks below std::chrono and the C time functions.
#pragma once
#include <cstdint>

namespace sim::clk {
struct World {
   int64_t steady{};  // ns since boot
   int64_t system{};  // ns since the epoch
   int64_t cpu{};     // ns of processor time
   int64_t pre{}, post{}; // the caller loses the processor for this long before / after a reading
};
World& world();
void reset(int64_t steady, int64_t system);
void advance(int64_t ns, bool busy);
void jump_system(int64_t ns);
uint64_t readings();
} // namespace sim::clk
