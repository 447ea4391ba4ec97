// Harness "random": plan generation and driver (C17..C19).
#include "core.hpp"

char sim_time[9] = "00:00:00";

namespace sim::rnd {
enum Op : int {
#define X(n) op_##n,
#include "random_ops.inc"
#undef X
   op_count
};
#define X(k) void run_##k(const Plan&);
SIM_INSTANCES(X)
#undef X
static const int instances[] = {
#define X(k) k,
   SIM_INSTANCES(X)
#undef X
};
} // namespace sim::rnd

namespace sim {
const char* const harness_name = "random";
const char* const op_names[] = {
#define X(n) #n,
#include "random_ops.inc"
#undef X
};
const int n_ops = rnd::op_count;

Plan generate_plan(const std::string& prop, uint64_t seed) {
   using namespace rnd;
   Rng r(seed);
   Plan p;
   p.prop = prop;
   p.seed = seed;
   p.cfg[0] = instances[r.below(sizeof instances / sizeof instances[0])];
   p.cfg[1] = r.below(10);
   struct W {
      int op, w;
   };
   std::vector<W> ops;
   if(prop == "C17") {
      ops = {{op_fill1, 8}, {op_fill2, 6}, {op_fill_many, 6}, {op_fill_slice, 8}, {op_scalar, 8}, {op_expr1, 5},
             {op_expr2, 5}, {op_cover, 2}, {op_vary, 2}, {op_invalid, 4}};
   } else if(prop == "C18") {
      ops = {{op_shuffle, 10}, {op_shuffle_part, 10}, {op_shuffle_cover, 1}};
   } else {
      ops = {{op_semi_fill, 10}, {op_semi_scalar, 6}, {op_semi_expr, 8}, {op_semi_cover, 1}, {op_semi_invalid, 3}};
   }
   int total = 0;
   for(auto& w : ops) {
      total += w.w;
   }
   auto push = [&](int op) {
      Step s;
      s.op = op;
      for(auto& a : s.a) {
         a = r.below(1 << 20);
      }
      p.steps.push_back(s);
   };
   push(op_preset_arrays);
   int len = static_cast<int>(r.range(2, 14));
   for(int i = 0; i < len; ++i) {
      if(r.chance(1, 10)) {
         push(op_preset_arrays);
      }
      if(prop != "C19") {
         if(r.chance(1, 3)) {
            push(op_device);
         }
         if(r.chance(1, 4)) {
            push(op_device_fail);
         }
      }
      int64_t x = r.below(total);
      size_t k = 0;
      while(x >= ops[k].w) {
         x -= ops[k].w;
         ++k;
      }
      push(ops[k].op);
      if(prop == "C19") {
         Step& s = p.steps.back();
         if(r.chance(1, 2)) { // a call made before, now after other calls
            for(size_t j = 0; j + 1 < p.steps.size(); ++j) {
               if(p.steps[j].op == s.op && r.chance(1, 2)) {
                  s = p.steps[j];
               }
            }
         }
      }
   }
   return p;
}

void run_plan(const Plan& p) {
   switch(p.cfg[0]) {
#define X(k)                \
   case k:                  \
      return rnd::run_##k(p);
      SIM_INSTANCES(X)
#undef X
   default:
      return;
   }
}
} // namespace sim

extern "C" const char* __asan_default_options() {
   return "detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:abort_on_error=0:"
          "exitcode=66:handle_abort=1";
}

int main(int argc, char** argv) {
   return sim::sim_main(argc, argv);
}
