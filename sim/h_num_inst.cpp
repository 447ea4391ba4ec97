// One element type of the num harness: SIM_ID, SIM_T.
#include "num.hpp"
#include <algorithm>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)

namespace sim::num {
namespace {
using SB = spp::StrictBool;
namespace pl = spp::place;

constexpr int nreg = 6;

template <class T>
struct World {
   using S = spp::Strict<T>;
   using A1 = spp::Array1D<T>;
   using A2 = spp::Array2D<T>;
   using V = std::vector<T>;
   const Plan& plan;
   const Step* st = nullptr;
   S x[nreg];
   T m[nreg]{};
   SB b[3];
   bool bm[3]{};
   long n, r, c;
   A1 a[3];
   V am[3];
   A2 g[2];
   V gm[2];
   A1 p[3]; // well-behaved numbers for the accuracy checks
   V pm[3];

   explicit World(const Plan& q)
      : plan{q},
        n{static_cast<long>(R(q.cfg[1], 9))},
        r{n == 0 ? 0 : static_cast<long>(R(q.cfg[2], 3)) + 1},
        c{n == 0 ? 0 : static_cast<long>(R(q.cfg[3], 4)) + 1},
        a{A1(n), A1(n), A1(n)},
        g{A2(r, c), A2(r, c)} {
      for(auto& v : am) {
         v.assign(static_cast<size_t>(n), T{});
      }
      for(auto& v : gm) {
         v.assign(static_cast<size_t>(r * c), T{});
      }
   }

   int64_t A(int i) const {
      return st->a[i];
   }
   int reg(int i) const {
      return static_cast<int>(R(A(i), nreg));
   }
   [[noreturn]] void bad(const char* tag, const std::string& msg) const {
      alloc::Host h;
      fail(plan.prop + ":" + tag, std::string(op_names[st->op]) + ": " + msg);
   }
   template <class Y>
   void eq(Y got, Y want, const std::string& what) const {
      if(!same(got, want)) {
         bad("value", what + " gives " + show(got) + " where " + show(want) + " is expected");
      }
   }
   void eqv(const V& got, const V& want, const std::string& what) const {
      if(got.size() != want.size()) {
         bad("value", what + " has " + std::to_string(got.size()) + " elements, not " + std::to_string(want.size()));
      }
      for(size_t i = 0; i < got.size(); ++i) {
         eq(got[i], want[i], what + " at " + std::to_string(i));
      }
   }

   // Everything holds what the model says.
   void check(const char* when) const {
      for(int i = 0; i < nreg; ++i) {
         eq(x[i].val(), m[i], std::string("number ") + std::to_string(i) + when);
      }
      for(int i = 0; i < 3; ++i) {
         eq(b[i].val(), bm[i], std::string("flag ") + std::to_string(i) + when);
      }
      auto arr = [&](const auto& y, const V& w, const char* nm) {
         if(y.size().val() != static_cast<long>(w.size())) {
            bad("value", std::string(nm) + " has a wrong size" + when);
         }
         for(size_t i = 0; i < w.size(); ++i) {
            eq(y.data()[i].val(), w[i], nm + std::string(" at ") + std::to_string(i) + when);
         }
      };
      for(size_t i = 0; i < 3; ++i) {
         arr(a[i], am[i], "array");
         arr(p[i], pm[i], "data");
      }
      for(size_t i = 0; i < 2; ++i) {
         arr(g[i], gm[i], "matrix");
      }
   }

   // Runs a valid call, some time with a failing allocation first.
   template <class G>
   void act(G f) {
      int fk = static_cast<int>(R(A(7), 6));
      if(fk == 1 || fk == 2) {
         uint64_t live = alloc::live_sut();
         bool threw = false, refused = false;
         alloc::arm(fk == 1 ? alloc::Mode::Once : alloc::Mode::Persistent, static_cast<uint64_t>(R(A(6), 3) + 1));
         try {
            alloc::Sut s;
            f();
         } catch(const std::bad_alloc&) {
            threw = true;
         } catch(const Refused&) {
            refused = true;
         }
         alloc::disarm();
         bool fired = alloc::fired() > 0;
         if(fired) {
            count_named(fk == 1 ? "fault.alloc_once" : "fault.alloc_persistent");
         }
         if(refused || (threw && !fired)) {
            bad("refused", "a valid call was refused");
         }
         if(!threw) {
            return;
         }
         check(" after a failed allocation");
         if(alloc::live_sut() != live) {
            bad("leak", "memory leaked after a failed allocation");
         }
      }
      try {
         alloc::Sut s;
         f();
      } catch(const Refused&) {
         bad("refused", "a valid call was refused");
      }
   }
   // A call that must be refused.
   template <class G>
   void refuse(const char* what, G f) {
#ifdef SIM_NOREJECT
      (void)what;
      (void)f;
#else
      uint64_t live = alloc::live_sut();
      bool ok = false;
      SIM_COUNT("fault.invalid_call");
      try {
         alloc::Sut s;
         f();
      } catch(const Refused&) {
         ok = true;
      }
      if(!ok) {
         bad("accepted", std::string(what) + " was accepted");
      }
      check(" after a refused call");
      if(alloc::live_sut() != live) {
         bad("leak", "a refused call leaked memory");
      }
#endif
   }
   void seen(uint64_t h) const {
      state(mix2(h, static_cast<uint64_t>(st->op) * 16 + SIM_ID));
   }
   void put(int d, S v, T w, const std::string& what) {
      eq(v.val(), w, what);
      x[d] = v;
      m[d] = w;
      seen(mix2(bits(w), hash_bytes(what.data(), what.size())));
   }
   std::string on(const char* what, int i, int j) const {
      return show(m[i]) + " " + what + " " + show(m[j]);
   }

#include "num_scalar.inc"
#include "num_elem.inc"
#include "num_acc.inc"

   void step(const Step& s) {
      st = &s;
      switch(s.op) {
#define X(n) \
   case op_##n: \
      do_##n(); \
      break;
#include "num_ops.inc"
#undef X
      default:
         break;
      }
      check("");
      if(const char* e = alloc::take_error()) {
         bad("memory", e);
      }
   }
};
} // namespace

void CAT(run_, SIM_ID)(const Plan& q);
void CAT(run_, SIM_ID)(const Plan& q) {
   alloc::disarm();
   World<SIM_T> w(q);
   int i = 0;
   for(auto& s : q.steps) {
      set_step(i++);
      w.step(s);
   }
}
} // namespace sim::num
