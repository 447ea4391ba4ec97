#include "asserts.hpp"
#include "core.hpp"

namespace sim {

std::jmp_buf* assert_env = nullptr;

[[noreturn]] void assert_fail(const char* what, const char* file, int line);
void assert_fail(const char* what, const char* file, int line) {
   if(verbose()) {
      std::fprintf(stderr, "%s:%d: %s\n", file, line, what);
   }
   if(assert_env) {
      std::longjmp(*assert_env, 1);
   }
   throw AssertFailed{};
}

} // namespace sim
