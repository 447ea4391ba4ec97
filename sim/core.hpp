// Core of the deterministic simulator: seeded PRNG, plans (the schedule and fault trace), event
// log, fault and probe counters, distinct-state sets and the command-line driver loop.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace sim {

inline uint64_t mix64(uint64_t z) {
   z += 0x9E3779B97F4A7C15ull;
   z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
   z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
   return z ^ (z >> 31);
}
inline uint64_t mix2(uint64_t a, uint64_t b) {
   return mix64(a * 0x9E3779B97F4A7C15ull ^ mix64(b));
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
   auto* c = static_cast<const unsigned char*>(p);
   for(size_t i = 0; i < n; ++i) {
      h = (h ^ c[i]) * 1099511628211ull;
   }
   return h;
}

struct Rng {
   uint64_t s;
   explicit Rng(uint64_t seed) : s{mix64(seed ^ 0xA5A5A5A5DEADBEEFull)} {
   }
   uint64_t next() {
      s += 0x9E3779B97F4A7C15ull;
      uint64_t z = s;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
   }
   int64_t below(int64_t n) {
      return n <= 0 ? 0 : static_cast<int64_t>(next() % static_cast<uint64_t>(n));
   }
   int64_t range(int64_t lo, int64_t hi) { // inclusive
      return lo + below(hi - lo + 1);
   }
   bool chance(int64_t num, int64_t den) {
      return below(den) < num;
   }
};

constexpr int NA = 8;
struct Step {
   int op{};
   int64_t a[NA]{};
};

// A plan is everything that decides a run: configuration, operations, schedule and faults.
struct Plan {
   std::string prop;
   uint64_t seed{};
   int64_t cfg[NA]{};
   std::vector<Step> steps;
};

struct Violation {
   std::string cls; // class tag, stable under minimisation
   std::string msg;
};
[[noreturn]] void fail(const std::string& cls, const std::string& msg);

// Event log: only a running hash (and the text when verbose), never addresses or times.
void log_u64(uint64_t x);
void log_str(const std::string& s);
void note(const std::string& s); // verbose text only, part of nothing
bool verbose();

struct Counter {
   const char* name;
   uint64_t v{};
   Counter* next;
   explicit Counter(const char* n);
};
void count_named(const std::string& name, uint64_t n = 1);
#define SIM_COUNT(name)              \
   do {                              \
      static ::sim::Counter c_(name); \
      ++c_.v;                        \
   } while(0)

void state(uint64_t h);      // one distinct non-trivial case / state / interleaving
void nontrivial_step();      // number of evaluated cases (not necessarily distinct)
void sim_time_ns(uint64_t d); // simulated time covered
void set_step(int i);        // current step, for crash attribution

// Parse helper: argument reduced into [0, n).
inline int64_t R(int64_t a, int64_t n) {
   return n <= 0 ? 0 : ((a % n) + n) % n;
}

// What a harness provides.
extern const char* const harness_name;
extern const char* const op_names[];
extern const int n_ops;
Plan generate_plan(const std::string& prop, uint64_t seed);
void run_plan(const Plan& p);

// Name of the dominating real component list etc. lives in check.py.
int sim_main(int argc, char** argv);

} // namespace sim
