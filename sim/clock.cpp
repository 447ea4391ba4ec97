#include "clock.hpp"
#include "core.hpp"
#include <chrono>
#include <ctime>
#include <sys/time.h>
#include <sys/times.h>

namespace sim::clk {
namespace {
World w;
uint64_t nread = 0;
int64_t take(int64_t World::*f) {
   ++nread;
   advance(w.pre, false);
   int64_t v = w.*f;
   advance(w.post, false);
   return v;
}
} // namespace
World& world() {
   return w;
}
void reset(int64_t steady, int64_t system) {
   w = World{};
   w.steady = steady;
   w.system = system;
   nread = 0;
}
void advance(int64_t ns, bool busy) {
   w.steady += ns;
   w.system += ns;
   if(busy) {
      w.cpu += ns;
   }
   sim_time_ns(static_cast<uint64_t>(ns));
}
void jump_system(int64_t ns) {
   w.system += ns;
}
uint64_t readings() {
   return nread;
}
} // namespace sim::clk

namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
   return time_point(duration(sim::clk::take(&sim::clk::World::steady)));
}
system_clock::time_point system_clock::now() noexcept {
   return time_point(duration(sim::clk::take(&sim::clk::World::system)));
}
} // namespace _V2
} // namespace std::chrono

extern "C" {
int clock_gettime(clockid_t id, timespec* ts) {
   int64_t v;
   switch(id) {
   case CLOCK_REALTIME:
   case CLOCK_REALTIME_COARSE:
   case CLOCK_TAI:
      v = sim::clk::take(&sim::clk::World::system);
      break;
   case CLOCK_PROCESS_CPUTIME_ID:
   case CLOCK_THREAD_CPUTIME_ID:
      v = sim::clk::take(&sim::clk::World::cpu);
      break;
   default:
      v = sim::clk::take(&sim::clk::World::steady);
   }
   int64_t s = v / 1000000000, n = v % 1000000000;
   if(n < 0) {
      n += 1000000000;
      --s;
   }
   ts->tv_sec = s;
   ts->tv_nsec = n;
   return 0;
}
int gettimeofday(timeval* tv, void*) {
   timespec ts;
   clock_gettime(CLOCK_REALTIME, &ts);
   tv->tv_sec = ts.tv_sec;
   tv->tv_usec = ts.tv_nsec / 1000;
   return 0;
}
time_t time(time_t* p) {
   timespec ts;
   clock_gettime(CLOCK_REALTIME, &ts);
   if(p) {
      *p = ts.tv_sec;
   }
   return ts.tv_sec;
}
int timespec_get(timespec* ts, int base) {
   clock_gettime(CLOCK_REALTIME, ts);
   return base;
}
clock_t clock(void) {
   return sim::clk::take(&sim::clk::World::cpu) / 1000;
}
}
