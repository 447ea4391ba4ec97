// Harness "streams": plan generation and driver (C09..C14).
#include "core.hpp"

namespace sim::streams {
enum Op : int {
#define X(n) op_##n,
#include "streams_ops.inc"
#undef X
   op_count
};
#define X(k) void run_##k(const Plan&);
SIM_INSTANCES(X)
#undef X
static const int instances[] = {
#define X(k) k,
   SIM_INSTANCES(X)
#undef X
};
} // namespace sim::streams

namespace sim {
const char* const harness_name = "streams";
const char* const op_names[] = {
#define X(n) #n,
#include "streams_ops.inc"
#undef X
};
const int n_ops = streams::op_count;

Plan generate_plan(const std::string& prop, uint64_t seed) {
   using namespace streams;
   Rng r(seed);
   Plan p;
   p.prop = prop;
   p.seed = seed;
   p.cfg[0] = instances[r.below(sizeof instances / sizeof instances[0])];
   bool bool_inst = p.cfg[0] == 3;
   if(prop == "C13" && bool_inst) {
      p.cfg[0] = instances[0] == 3 ? instances[1] : instances[0];
   }
   struct W {
      int op, w;
   };
   std::vector<W> ops;
   std::vector<int> faults;
   if(prop == "C09") {
      ops = {{op_read1, 8}};
      faults = {0, 0, 0, 2, 6, 7, 8, 9, 10};
   } else if(prop == "C10") {
      ops = {{op_read2, 8}};
      faults = {0, 0, 0, 2, 6, 7, 8, 9, 10};
   } else if(prop == "C11") {
      ops = {{op_read_file1, 4}, {op_read_file2, 4}};
      faults = {0, 0, 1, 2, 2, 3, 6, 7, 8, 9};
   } else if(prop == "C12") {
      ops = {{op_print_file, 6}, {op_print_stream, 3}};
      faults = {0, 1, 2, 2, 3, 4, 4, 5, 5, 5, 6};
   } else if(prop == "C13") {
      ops = {{op_round1, 4}, {op_round2, 4}};
      faults = {0, 0, 1};
   } else {
      ops = {{op_scalars, 6}};
      faults = {0, 0, 2, 7, 8, 9};
   }
   int total = 0;
   for(auto& w : ops) {
      total += w.w;
   }
   int len = static_cast<int>(r.range(1, 8));
   auto args = [&](Step& s) {
      for(auto& a : s.a) {
         a = r.below(1 << 20);
      }
   };
   auto preset = [&] {
      Step s;
      s.op = op_preset_arrays;
      args(s);
      p.steps.push_back(s);
   };
   preset();
   for(int i = 0; i < len; ++i) {
      if(r.chance(1, 4)) {
         preset();
      }
      int nf = r.chance(1, 2) ? 0 : static_cast<int>(r.range(1, 2));
      for(int k = 0; k < nf; ++k) {
         Step s;
         s.op = op_fault;
         args(s);
         s.a[0] = faults[static_cast<size_t>(r.below(static_cast<int64_t>(faults.size())))];
         p.steps.push_back(s);
      }
      Step s;
      args(s);
      int64_t x = r.below(total);
      size_t k = 0;
      while(x >= ops[k].w) {
         x -= ops[k].w;
         ++k;
      }
      s.op = ops[k].op;
      if(s.op >= op_read1 && s.op <= op_read_file2) {
         if(!r.chance(2, 5)) {
            s.a[4] = 0; // no malformed token
         }
         if(!r.chance(1, 5)) {
            s.a[6] = 0; // no ragged row
         }
      } else if(s.op == op_scalars && r.chance(1, 2)) {
         s.a[4] = 0;
      }
      p.steps.push_back(s);
   }
   return p;
}

void run_plan(const Plan& p) {
   switch(p.cfg[0]) {
#define X(k)                \
   case k:                  \
      return streams::run_##k(p);
      SIM_INSTANCES(X)
#undef X
   default:
      return;
   }
}
} // namespace sim

extern "C" const char* __asan_default_options() {
   return "detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:abort_on_error=0:"
          "exitcode=66:handle_abort=1";
}

int main(int argc, char** argv) {
   return sim::sim_main(argc, argv);
}
