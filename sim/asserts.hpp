// Assertion seam of the builds that report errors by assert() (see assertshim/assert.h).
#pragma once
#include <csetjmp>
#include <exception>

namespace sim {

struct AssertFailed : std::exception {
   const char* what() const noexcept override {
      return "assertion failed";
   }
};
// Set while a call runs from which nothing can be thrown: the assertion leaves it by a jump.
extern std::jmp_buf* assert_env;

} // namespace sim
