// Stands in for <assert.h>: a failed assertion unwinds to the simulator instead of ending the process, so that the
// state it was stopped in can be examined. Like the original, it may be included again.
#undef assert
#ifdef NDEBUG
#define assert(...) (static_cast<void>(0))
#else
#ifndef SIM_ASSERT_FAIL
#define SIM_ASSERT_FAIL
namespace sim {
[[noreturn]] void assert_fail(const char* what, const char* file, int line);
}
#endif
#define assert(...) (static_cast<bool>(__VA_ARGS__) ? static_cast<void>(0) : ::sim::assert_fail(#__VA_ARGS__, __FILE__, __LINE__))
#endif
