// Entropy seam: std::random_device is replaced by a simulated device.
#pragma once
#include <cstdint>
namespace sim::entropy {
enum Kind { Counter, Random, Constant, Alternate, Kinds };
void set(Kind k, uint64_t arg);
void fail_at(int64_t k, bool persistent); // k-th draw or opening from now; 0: never
bool failed();
uint64_t draws();
} // namespace sim::entropy
