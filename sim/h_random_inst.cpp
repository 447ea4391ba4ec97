// One element type of the random harness: SIM_ID, SIM_T, SIM_AF; compiled with -D__TIME__=sim_time.
#include "random.hpp"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
namespace sim::rnd {
void CAT(run_, SIM_ID)(const Plan& p) {
   World<SIM_T> w;
   w.run(p);
}
} // namespace sim::rnd
