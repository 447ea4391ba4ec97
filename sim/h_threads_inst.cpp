#include "threads.hpp"

namespace sim::threads {
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(exec_, SIM_ID)(const Plan& p) {
   World<SIM_T, SIM_AF>::execute(p);
}
} // namespace sim::threads
