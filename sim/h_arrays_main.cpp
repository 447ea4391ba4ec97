// Harness "arrays": histories of operations on 1-D and 2-D arrays (C01..C08).
#include "arrays_enum.hpp"
#include "core.hpp"

namespace sim {

const char* const harness_name = "arrays";
const char* const op_names[] = {
#define X(n) #n,
#include "arrays_ops.inc"
#undef X
};
const int n_ops = arrays::op_count;

namespace arrays {
#define X(k) void run_##k(const Plan&);
SIM_INSTANCES(X)
#undef X
} // namespace arrays

static const int instances[] = {
#define X(k) k,
   SIM_INSTANCES(X)
#undef X
};

namespace {

enum : unsigned {
   G1 = 1,     // builds or changes a 1-D array
   G2 = 2,     // builds or changes a 2-D array
   GMV = 4,    // moves, swaps, steals
   GHELP = 8,  // allocating helpers
   GBAD = 16,  // rejected calls
   GVIEW = 32, // views
   GCTOR = 64,
   GOPND = 128, // takes an operand that may throw
   GSIZE = 256, // changes a size
   GAPI = 512,  // reads or writes parts of an array, named in any way
   GALG = 1024, // queries
   GITER = 2048, // iterators
   GSLC = 4096,  // slices of slices
};
unsigned groups(int op) {
   using namespace arrays;
   switch(op) {
   case op_ctor1:
   case op_ctor1_list:
   case op_ctor1_iter:
   case op_copy1:
      return G1 | GCTOR;
   case op_ctor1_op:
      return G1 | GCTOR | GOPND;
   case op_eval1:
   case op_rassign1:
   case op_insert1_op:
      return G1 | GOPND | GSIZE;
   case op_assign1_op:
   case op_slice1_op:
   case op_comp1_op:
   case op_foreach1:
      return G1 | GOPND;
   case op_resize1:
   case op_remove1:
   case op_remove1_vec:
   case op_insert1_val:
      return G1 | GSIZE;
   case op_ctor2:
   case op_ctor2_list:
   case op_copy2:
      return G2 | GCTOR;
   case op_ctor2_op:
      return G2 | GCTOR | GOPND;
   case op_eval2:
   case op_rassign2:
   case op_insert_rows:
   case op_insert_cols:
   case op_insert_row:
   case op_insert_col:
      return G2 | GOPND | GSIZE;
   case op_assign2_op:
   case op_slice2_op:
   case op_comp2_op:
      return G2 | GOPND;
   case op_resize2:
   case op_remove_rows:
   case op_remove_cols:
   case op_remove_rows_vec:
   case op_remove_cols_vec:
      return G2 | GSIZE;
   case op_move1:
   case op_massign1:
   case op_swap1:
   case op_steal1:
      return GMV | G1;
   case op_move2:
   case op_massign2:
   case op_swap2:
   case op_steal2:
      return GMV | G2;
   case op_fixmove:
      return GMV | G1 | G2;
   case op_alloc_misc:
      return GHELP;
   case op_matprod:
   case op_read2:
      return GHELP | G2;
   case op_read1:
      return GHELP | G1;
   case op_bad1:
   case op_bad2:
   case op_badctor:
   case op_badslice:
   case op_badexpr:
   case op_badsize:
   case op_badpos:
      return GBAD;
   case op_badapi1:
   case op_badapi2:
   case op_badop:
      return GBAD;
   case op_red1:
   case op_tiny1:
   case op_pair1:
   case op_sel1:
   case op_badalg:
   case op_red2:
   case op_tiny2:
   case op_pair2:
      return GALG;
   case op_apiop:
   case op_apiexp:
      return G1 | G2 | GAPI;
   case op_api1:
   case op_apiw1:
      return G1 | GAPI;
   case op_api2:
   case op_apiw2:
      return G2 | GAPI;
   case op_walk1:
   case op_walk2:
   case op_walkx:
   case op_keepit:
   case op_stdalg:
   case op_plane:
   case op_baditer:
      return GITER;
   case op_slc1:
   case op_slcf:
   case op_slc2:
   case op_slcrow:
      return GSLC;
   case op_mkview:
   case op_evview:
   case op_dropview:
   case op_wrview:
   case op_iterview:
      return GVIEW;
   default:
      return op < op_ctor2 ? G1 : G2;
   }
}
int weight(const std::string& p, int op) {
   using namespace arrays;
   unsigned g = groups(op);
   if(p == "C23") {
      return (g & GALG) ? 30 : (g & (GSLC | GITER | GBAD | GVIEW | GMV | GAPI | GHELP)) ? 0 : (g & GSIZE) ? 3 : 2;
   }
   if(p == "C24") {
      return op == op_keepit ? 60 : op == op_plane ? 8 : (g & GITER) ? 25 : (g & (GSLC | GALG | GBAD | GVIEW | GAPI | GHELP)) ? 0 : (g & GSIZE) ? 5 : 2;
   }
   if(p == "C28") {
      return (g & GSLC) ? 40 : (g & (GBAD | GVIEW | GAPI | GHELP | GITER | GALG)) ? 0 : (g & GSIZE) ? 3 : 2;
   }
   if(g & (GALG | GITER | GSLC)) {
      return 0;
   }
   if(p == "C22") {
      return weight("C04", op) + weight("C05", op);
   }
   if(p == "C21") {
      return weight("C02", op);
   }
   if(p == "C01") {
      if(g & (GBAD | GVIEW)) {
         return 0;
      }
      return (g & GCTOR) ? 3 : (g & GSIZE) ? 6 : (g & GHELP) ? 4 : (g & GAPI) ? 2 : 1;
   }
   if(p == "C02") {
      return (g & GBAD) ? 30 : (g & GVIEW) ? 0 : (g & GCTOR) ? 3 : (g & GSIZE) ? 3 : 1;
   }
   if(p == "C03") {
      return op == op_badop ? 6 : (g & (GBAD | GVIEW)) ? 0 : (g & GOPND) ? 8 : (g & GCTOR) ? 4 : (g & GSIZE) ? 2 : (g & GHELP) ? 0 : 1;
   }
   if(p == "C04") {
      if(g & (GBAD | GVIEW)) {
         return 0;
      }
      return (g & G1) ? ((g & GAPI) ? 9 : (g & GSIZE) ? 6 : (g & GMV) ? 2 : 4) : (g & G2) ? ((g & GCTOR) ? 2 : 0) : 2;
   }
   if(p == "C05") {
      if(g & (GBAD | GVIEW)) {
         return 0;
      }
      return (g & G2) ? ((g & GAPI) ? 9 : (g & GSIZE) ? 6 : (g & GMV) ? 2 : 4) : (g & G1) ? ((g & GCTOR) ? 2 : 0) : 2;
   }
   if(p == "C06") {
      return op == op_evview || op == op_mkview ? 4 : (g & GVIEW) ? 2 : (g & GBAD) ? 4 : (g & GSIZE) ? 4 : 2;
   }
   if(p == "C07") {
      return (g & (GBAD | GVIEW)) ? 0 : (g & GMV) ? 14 : (g & GCTOR) ? 4 : (g & GSIZE) ? 3 : 1;
   }
   // C08: views over mutating arrays
   switch(op) {
   case op_mkview:
      return 60;
   case op_evview:
      return 70;
   case op_dropview:
      return 6;
   case op_wrview:
      return 25;
   case op_iterview:
      return 8;
   default:
      return (g & GBAD) ? 0 : (g & GHELP) ? 0 : (g & GAPI) ? 12 : (g & (GCTOR | GSIZE)) ? 1 : 4;
   }
}

} // namespace

Plan generate_plan(const std::string& prop, uint64_t seed) {
   using namespace arrays;
   Rng r{seed};
   Plan p;
   p.prop = prop;
   p.seed = seed;
   constexpr int ni = sizeof(instances) / sizeof(instances[0]);
   p.cfg[0] = instances[r.below(ni)];
   static const int64_t scales[] = {3, 6, 9, 16, 16, 24, 40, 80};
   p.cfg[1] = scales[r.below(8)];
   if((prop == "C01" || prop == "C03") && p.cfg[1] > 24) {
      p.cfg[1] = 24; // every fault position of every step is tried
   }
   p.cfg[2] = r.chance(1, 2); // faults in model histories
   p.cfg[3] = prop == "C22" && r.chance(1, 4); // views over changing arrays
   int len = static_cast<int>(r.range(3, r.chance(1, 5) ? 60 : 24));
   int w[op_count];
   int total = 0;
   bool swarm = r.chance(3, 4);
   for(int i = 0; i < op_count; ++i) {
      w[i] = weight(p.cfg[3] ? "C08" : prop, i);
      if(swarm && r.chance(1, 3) && i != op_mkview && i != op_evview) {
         w[i] = 0;
      }
      total += w[i];
   }
   auto args = [&](Step& s) {
      for(auto& a : s.a) {
         a = r.chance(1, 3) ? r.below(8) : r.below(1 << 20);
      }
   };
   // Material to work on.
   for(int i = 0; i < 6; ++i) {
      if(r.chance(1, 6)) {
         continue; // leave empty
      }
      Step s;
      args(s);
      s.a[0] = i % 3;
      s.a[3] = i < 3 ? 3 : s.a[3];
      s.op = i < 3 ? op_ctor1 : op_ctor2;
      p.steps.push_back(s);
   }
   if(total == 0) {
      return p;
   }
   for(int i = 0; i < len; ++i) {
      Step s;
      int64_t x = r.below(total);
      int op = 0;
      while(x >= w[op]) {
         x -= w[op];
         ++op;
      }
      s.op = op;
      args(s);
      p.steps.push_back(s);
   }
   return p;
}

void run_plan(const Plan& p) {
   switch(p.cfg[0]) {
#define X(k)                \
   case k:                  \
      return arrays::run_##k(p);
      SIM_INSTANCES(X)
#undef X
   default:
      return;
   }
}

} // namespace sim

extern "C" const char* __asan_default_options() {
   return "detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:abort_on_error=0:"
          "exitcode=66:handle_abort=1";
}

int main(int argc, char** argv) {
   return sim::sim_main(argc, argv);
}
