// Deterministic threads: real threads run one at a time, switched at the memory accesses the compiler
// reports (-fsanitize=thread instrumentation linked with this runtime instead of libtsan), with
// happens-before race detection.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim::thr {
constexpr int MAX = 4;

struct Policy {
   uint64_t seed{};
   int mode{};       // 0: random switches, 1: priorities with change points, 2: switch at every shared event
   int64_t mean{50}; // mode 0: mean events between switches
   int depth{3};     // mode 1: number of priority change points
   int64_t horizon{5000}; // mode 1: change points lie in the first so many events
};
struct Outcome {
   bool race{}, deadlock{}, escaped{};
   char msg[600]{};
   uint64_t schedule{}; // hash of the sequence of switches
   uint64_t switches{}, events{}, blocked{};
};

// Runs body(0..n-1, ctx), each in its own thread. Call once per process image.
Outcome run(int n, void (*body)(int, void*), void* ctx, const Policy& p);
bool inside();          // called from a simulated thread
int current();          // logical thread: of the simulated thread, or as set by serial()
void serial(int id);    // the calling thread now stands for logical thread id
void point();           // scheduling point
void exempt(const void* p, size_t n); // memory the standard library synchronises itself

void fail_at(int64_t k, bool persistent); // the k-th allocation of this logical thread from now fails
bool failed();
void wrote(const void* p, size_t n);   // a library call wrote this memory
unsigned entropy();     // random_device of this logical thread
void start_logical();   // resets faults and entropy of every logical thread
} // namespace sim::thr
