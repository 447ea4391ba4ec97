// One element type of the streams harness: SIM_ID, SIM_T, SIM_AF.
#include "streams.hpp"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
namespace sim::streams {
void CAT(run_, SIM_ID)(const Plan& p) {
   World<SIM_T> w;
   w.run(p);
}
} // namespace sim::streams
