// Harness "num": plan generation and driver (C25..C27).
#include "core.hpp"

namespace sim::num {
enum Op : int {
#define X(n) op_##n,
#include "num_ops.inc"
#undef X
   op_count
};
#define X(k) void run_##k(const Plan&);
SIM_INSTANCES(X)
#undef X
static const int instances[] = {
#define X(k) k,
   SIM_INSTANCES(X)
#undef X
};
} // namespace sim::num

namespace sim {
const char* const harness_name = "num";
const char* const op_names[] = {
#define X(n) #n,
#include "num_ops.inc"
#undef X
};
const int n_ops = num::op_count;

Plan generate_plan(const std::string& prop, uint64_t seed) {
   using namespace num;
   Rng r(seed);
   Plan p;
   p.prop = prop;
   p.seed = seed;
   p.cfg[0] = instances[r.below(sizeof instances / sizeof instances[0])];
   for(int i = 1; i < 4; ++i) {
      p.cfg[i] = r.below(1 << 20);
   }
   struct W {
      int op, w;
   };
   std::vector<W> ops;
   if(prop == "C25") {
      ops = {{op_load, 24}, {op_bin, 14}, {op_comp, 10}, {op_incdec, 4}, {op_un, 9}, {op_cmp, 6}, {op_logic, 3}, {op_conv, 10},
             {op_math, 6}, {op_power, 5}, {op_ipower, 4}, {op_comb, 2}, {op_between, 5}, {op_pairs, 2}, {op_powpair, 3},
             {op_badnum, 10}, {op_consts, 1}, {op_small, 2}};
   } else if(prop == "C26") {
      ops = {{op_load, 8}, {op_fill, 16}, {op_ewun, 8}, {op_ewbin, 14}, {op_ewscal, 12}, {op_ewcomp, 10}, {op_ewmath, 12},
             {op_ewcast, 8}};
   } else {
      ops = {{op_load, 6}, {op_fill, 6}, {op_ill, 20}, {op_accsum, 12}, {op_accprod, 6}, {op_accdot, 12}, {op_accnorm, 8},
             {op_accpoly, 10}, {op_accerr, 10}, {op_pairs, 3}, {op_powpair, 4}};
   }
   int total = 0;
   for(auto& w : ops) {
      total += w.w;
   }
   int len = static_cast<int>(r.range(4, 50));
   // Some runs keep to harmless values, so that more operations are defined.
   int kinds = r.chance(1, 3) ? 5 : 14;
   for(int i = 0; i < len; ++i) {
      int64_t k = r.below(total);
      size_t j = 0;
      while(k >= ops[j].w) {
         k -= ops[j].w;
         ++j;
      }
      Step s;
      s.op = i < 3 ? (prop == "C25" ? op_load : prop == "C26" ? op_fill : op_ill) : ops[j].op;
      for(auto& a : s.a) {
         a = r.below(1 << 20);
      }
      if(s.op == op_load) {
         s.a[1] = r.below(kinds);
      }
      p.steps.push_back(s);
   }
   return p;
}

void run_plan(const Plan& p) {
   using namespace num;
   switch(p.cfg[0]) {
#define X(k) \
   case k: \
      run_##k(p); \
      break;
      SIM_INSTANCES(X)
#undef X
   default:
      break;
   }
}
} // namespace sim

int main(int argc, char** argv) {
   return sim::sim_main(argc, argv);
}
