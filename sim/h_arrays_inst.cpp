// One element type and alignment of the array world, one group of steps (see arrays_i_*.inc).
#include "arrays.hpp"

namespace sim::arrays {
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)

#ifdef SIM_RUN
void CAT(run_, SIM_ID)(const Plan& p) {
   run_world<SIM_T, SIM_AF>(p);
}
#elif defined(SIM_STUB)
#define X(n)                             \
   template <class T, AlignmentFlag AF> \
   void W<T, AF>::do_##n() {            \
   }
#include "arrays_stubs.inc"
#undef X
#define X(n) template void W<SIM_T, SIM_AF>::do_##n();
#include "arrays_stubs.inc"
#else
#define STEP(n)                          \
   template <class T, AlignmentFlag AF> \
   void W<T, AF>::do_##n()
#include SIM_BODY
#define X(n) template void W<SIM_T, SIM_AF>::do_##n();
#include SIM_LIST
#endif
} // namespace sim::arrays
