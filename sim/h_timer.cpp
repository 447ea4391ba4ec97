// Harness "timer": timers and STRICT_TIME under simulated clocks (C16).
#include "alloc.hpp"
#include "clock.hpp"
#include "core.hpp"
#include <cmath>
#include <iostream>
#include <optional>
#include <streambuf>
#include <strictpp/strict.hpp>

namespace sim {
namespace tm {
enum Op : int {
#define X(n) op_##n,
#include "timer_ops.inc"
#undef X
   op_count
};
constexpr int64_t us = 1000, ms = 1000 * us, sec = 1000 * ms, hour = 3600 * sec, day = 24 * hour;

int64_t length(int64_t k, int64_t v) { // a duration in ns
   static const int64_t unit[] = {1, 1, us, ms, sec, hour, day, 365 * day};
   static const int64_t most[] = {1, 999, 1000, 1000, 100, 30, 400, 3};
   int64_t i = R(k, 8);
   if(i == 0) {
      return R(v, 2);
   }
   return unit[i] * R(v, most[i] + 1) + (R(v / 7, 3) ? R(v, unit[i]) : 0);
}

struct Sink : std::streambuf {
   std::string text;
   int pieces = 0;
   int_type overflow(int_type c) override {
      alloc::Host h;
      ++pieces;
      text += static_cast<char>(c);
      return c;
   }
   std::streamsize xsputn(const char* s, std::streamsize n) override {
      alloc::Host h;
      ++pieces;
      text.append(s, static_cast<size_t>(n));
      return n;
   }
};

struct Span { // simulated instants around a reading
   int64_t lo, hi;
};
struct Slot {
   std::optional<spp::timer> t;
   Span start{};
   double last = 0; // last value read since the start
};
struct Boom {};

struct World {
   Slot slot[5];
   Sink sink;

   static int64_t now() {
      return clk::world().steady;
   }
   void judge(double v, Span s, Span r, double tol, const char* what) {
      double lo = static_cast<double>(std::max<int64_t>(0, r.lo - s.hi)) / 1e9;
      double hi = static_cast<double>(r.hi - s.lo) / 1e9;
      if(!(v >= lo * (1 - tol) && v <= hi * (1 + tol))) {
         char b[256];
         snprintf(b, sizeof b, "%s gives %.17g s where between %.17g and %.17g s passed", what, v, lo, hi);
         fail("C16:elapsed", b);
      }
   }
   static void spend(int64_t k, int64_t v) {
      int64_t d = length(k, v);
      if(now() + d < (int64_t{1} << 61)) {
         clk::advance(d, v & 1);
      }
   }
   static int64_t leap(int64_t k, int64_t v, int64_t sign) {
      int64_t d = length(k, v);
      d = sign & 1 ? -d : d;
      int64_t s = clk::world().system + d;
      if(s > -(int64_t{1} << 61) && s < (int64_t{1} << 61)) {
         clk::jump_system(d);
      }
      return d;
   }
   // Parses "<text> took: <number> seconds\n".
   void line(const std::string& out, const char* stmt, Span s, Span r) {
      std::string head = std::string(stmt) + " took: ", tail = " seconds\n";
      if(out.size() <= head.size() + tail.size() || out.compare(0, head.size(), head) != 0
         || out.compare(out.size() - tail.size(), tail.size(), tail) != 0) {
         fail("C16:line", "STRICT_TIME printed \"" + out + "\"");
      }
      std::string num = out.substr(head.size(), out.size() - head.size() - tail.size());
      char* e;
      double v = strtod(num.c_str(), &e);
      if(*e || num.find_first_of("\n ") != std::string::npos) {
         fail("C16:line", "STRICT_TIME printed \"" + out + "\"");
      }
      judge(v, s, r, 6e-5, "STRICT_TIME");
   }

   void step(const Step& s) {
      Slot& x = slot[R(s.a[0], 5)];
      uint64_t seen = mix2(static_cast<uint64_t>(s.op), 0);
      switch(s.op) {
      case op_advance:
         spend(s.a[1], s.a[2]);
         return;
      case op_jump:
         SIM_COUNT("fault.system_clock_jump");
         leap(s.a[1], s.a[2], s.a[3]);
         return;
      case op_preempt:
         SIM_COUNT("fault.preempted_at_reading");
         clk::world().pre = R(s.a[3], 2) ? length(R(s.a[1], 5), s.a[2]) : 0;
         clk::world().post = R(s.a[4], 2) ? length(R(s.a[1], 5), s.a[5]) : 0;
         return;
      case op_create:
         x.start.lo = now();
         x.t.emplace();
         x.start.hi = now();
         x.last = 0;
         break;
      case op_restart:
         if(x.t) {
            x.start.lo = now();
            x.t->restart();
            x.start.hi = now();
            x.last = 0;
         }
         break;
      case op_read:
         if(x.t) {
            Span r;
            r.lo = now();
            const spp::timer& c = *x.t;
            double v = c.wall_time().val();
            r.hi = now();
            judge(v, x.start, r, 1e-12, "wall_time");
            if(v < x.last) {
               fail("C16:backwards", "wall_time went back from " + std::to_string(x.last) + " to " + std::to_string(v));
            }
            x.last = v;
            uint64_t b;
            memcpy(&b, &v, 8);
            seen = mix2(b, static_cast<uint64_t>(clk::world().system));
            SIM_COUNT("probe.read");
            state(seen);
         }
         break;
      case op_copy: {
         Slot& y = slot[R(s.a[1], 5)];
         if(y.t && &y != &x) {
            x.t.emplace(*y.t);
            x.start = y.start;
            x.last = y.last;
         }
         break;
      }
      case op_assign: {
         Slot& y = slot[R(s.a[1], 5)];
         if(y.t && x.t) {
            *x.t = *y.t;
            x.start = y.start;
            x.last = y.last;
         }
         break;
      }
      case op_destroy:
         x.t.reset();
         return;
      default: {
         // STRICT_TIME: the statement runs once, one line is printed, std::cout keeps its settings.
         sink.text.clear();
         std::streambuf* old = std::cout.rdbuf(&sink);
         auto fl = std::cout.flags();
         auto pr = std::cout.precision();
         switch(R(s.a[6], 4)) {
         case 1:
            std::cout.setf(std::ios::fixed, std::ios::floatfield);
            break;
         case 2:
            std::cout.precision(2);
            break;
         case 3:
            std::cout.setf(std::ios::hex, std::ios::basefield);
            break;
         default:
            break;
         }
         auto fl1 = std::cout.flags();
         auto pr1 = std::cout.precision();
         int ran = 0;
         bool threw = false, failed = false;
         Span st{now(), 0}, rd{}, in0{}, in1{};
         auto work = [&] {
            alloc::Host h;
            ++ran;
            spend(s.a[1], s.a[2]);
            leap(s.a[3], s.a[4], s.a[5]);
         };
         auto inner = [&] {
            in0.lo = now();
            STRICT_TIME(in0.hi = now(); work(); in1.lo = now());
            in1.hi = now();
         };
         alloc::arm(alloc::Mode::Off, 0);
         if(R(s.a[7] >> 1, 4) == 0) {
            alloc::arm(R(s.a[7] >> 3, 2) ? alloc::Mode::Once : alloc::Mode::Persistent, 1 + R(s.a[7] >> 4, 5));
         }
         try {
            alloc::Sut scope;
            if(s.op == op_macro_throw) {
               STRICT_TIME(work(); throw Boom{});
            } else if(s.op == op_macro_nested) {
               STRICT_TIME(st.hi = now(); inner(); rd.lo = now());
            } else if(s.a[7] & 1)
               STRICT_TIME(st.hi = now(); work(); rd.lo = now());
            else
               STRICT_TIME(st.hi = now(); work(); work(); rd.lo = now());
         } catch(const Boom&) {
            threw = true;
         } catch(const std::exception&) {
            failed = true;
         }
         rd.hi = now();
         bool faulted = alloc::fired() > 0;
         alloc::disarm();
         if(faulted) {
            SIM_COUNT("fault.alloc_failed");
         }
         bool same = std::cout.flags() == fl1 && std::cout.precision() == pr1;
         std::cout.flags(fl);
         std::cout.precision(pr);
         std::cout.rdbuf(old);
         if(!same) {
            fail("C16:cout", "STRICT_TIME changed the format of std::cout");
         }
         if(failed && !faulted) {
            fail("C16:throw", "STRICT_TIME threw although nothing had failed");
         }
         int expect = s.op == op_macro && !(s.a[7] & 1) ? 2 : 1;
         if(ran != expect) {
            fail("C16:once", "STRICT_TIME ran its statement " + std::to_string(ran) + " times");
         }
         if(threw != (s.op == op_macro_throw)) {
            fail("C16:throw", "STRICT_TIME lost an exception");
         }
         if(failed) {
            // Memory ran out: the outer line is missing, the inner one is whole or missing.
            if(!sink.text.empty()) {
               if(s.op != op_macro_nested) {
                  fail("C16:line", "STRICT_TIME failed after printing \"" + sink.text + "\"");
               }
               line(sink.text, "in0.hi = now(); work(); in1.lo = now()", in0, in1);
            }
         } else if(threw) {
            if(!sink.text.empty()) {
               fail("C16:line", "STRICT_TIME printed a time for a statement that threw");
            }
         } else if(s.op == op_macro_nested) {
            size_t nl = sink.text.find('\n');
            line(sink.text.substr(0, nl + 1), "in0.hi = now(); work(); in1.lo = now()", in0, in1);
            line(sink.text.substr(nl + 1), "st.hi = now(); inner(); rd.lo = now()", st, rd);
         } else {
            line(sink.text,
                 s.a[7] & 1 ? "st.hi = now(); work(); rd.lo = now()" : "st.hi = now(); work(); work(); rd.lo = now()",
                 st, rd);
         }
         log_str(sink.text);
         SIM_COUNT("probe.macro");
         state(mix2(hash_bytes(sink.text.data(), sink.text.size()), static_cast<uint64_t>(s.op)));
         return;
      }
      }
      log_u64(seen);
   }
};
} // namespace tm

const char* const harness_name = "timer";
const char* const op_names[] = {
#define X(n) #n,
#include "timer_ops.inc"
#undef X
};
const int n_ops = tm::op_count;

Plan generate_plan(const std::string& prop, uint64_t seed) {
   using namespace tm;
   Rng r(seed);
   Plan p;
   p.prop = prop;
   p.seed = seed;
   p.cfg[0] = r.below(1 << 20);
   p.cfg[1] = r.below(1 << 20);
   static const struct {
      int op, w;
   } ops[] = {{op_advance, 14}, {op_jump, 8}, {op_preempt, 2}, {op_create, 6}, {op_restart, 4}, {op_read, 16},
              {op_copy, 2}, {op_assign, 2}, {op_destroy, 1}, {op_macro, 3}, {op_macro_throw, 1}, {op_macro_nested, 1}};
   int len = static_cast<int>(r.range(4, 60));
   int fav = static_cast<int>(r.below(8));
   for(int i = 0; i < len; ++i) {
      int64_t x = r.below(60);
      size_t k = 0;
      while(x >= ops[k].w) {
         x -= ops[k].w;
         ++k;
      }
      Step s;
      s.op = i == 0 ? static_cast<int>(op_create) : ops[k].op;
      for(auto& a : s.a) {
         a = r.below(1 << 30);
      }
      if(r.chance(1, 2)) {
         s.a[0] = 0;
      }
      if(r.chance(1, 3)) {
         s.a[1] = fav;
      }
      p.steps.push_back(s);
   }
   return p;
}

void run_plan(const Plan& p) {
   using namespace tm;
   clk::reset(length(p.cfg[0], p.cfg[0] * 7919), length(p.cfg[1], p.cfg[1] * 104729) * (p.cfg[1] % 3 ? 1 : -1));
   World w;
   int i = 0;
   for(auto& s : p.steps) {
      set_step(i++);
      w.step(s);
   }
}
} // namespace sim

int main(int argc, char** argv) {
   return sim::sim_main(argc, argv);
}
