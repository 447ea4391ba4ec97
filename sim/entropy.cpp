#include "entropy.hpp"
#include "core.hpp"
#include <random>
#include <stdexcept>
#include <string>
#include <system_error>

namespace sim::entropy {
namespace {
Kind kind = Counter;
uint64_t arg = 0, n = 0, since = 0;
int64_t fail_k = 0;
bool fail_p = false, fired = false;

void use() {
   ++since;
   if(fail_k > 0 && (since == static_cast<uint64_t>(fail_k) || (fail_p && since > static_cast<uint64_t>(fail_k)))) {
      fired = true;
      SIM_COUNT("fault.entropy_error");
      throw std::system_error(std::make_error_code(std::errc::io_error), "random_device: simulated failure");
   }
}
unsigned draw() {
   use();
   ++n;
   switch(kind) {
   case Counter:
      return static_cast<unsigned>(arg + n);
   case Random:
      return static_cast<unsigned>(mix2(arg, n));
   case Constant:
      return static_cast<unsigned>(arg);
   default:
      return n % 2 ? 0u : ~0u;
   }
}
} // namespace

void set(Kind k, uint64_t a) {
   kind = k;
   arg = a;
   n = 0;
}
void fail_at(int64_t k, bool p) {
   fail_k = k;
   fail_p = p;
   since = 0;
   fired = false;
}
bool failed() {
   return fired;
}
uint64_t draws() {
   return n;
}
} // namespace sim::entropy

// The out-of-line members of the real class, defined here so that no real device is ever opened.
namespace std {
void random_device::_M_init(const std::string&) {
}
void random_device::_M_init_pretr1(const std::string&) {
}
void random_device::_M_fini() {
}
random_device::result_type random_device::_M_getval() {
   return sim::entropy::draw();
}
random_device::result_type random_device::_M_getval_pretr1() {
   return sim::entropy::draw();
}
double random_device::_M_getentropy() const noexcept {
   return 32;
}
} // namespace std
