// World of three 1-D and three 2-D arrays with reference models, driven by plan steps.
#pragma once
#include "alloc.hpp"
#include "arrays_enum.hpp"
#include "asserts.hpp"
#include "core.hpp"

#include <strictpp/strict.hpp>

#include <array>
#include <functional>
#include <memory>
#include <set>
#include <sstream>
#include <type_traits>

namespace sim::arrays {


enum class Mode { Model, Oom, Reject, Throw, Mem, NoAlloc, View };
enum class Cat { Strong, Elem };

struct SimThrow {
   int k;
};

// Countdown used by throwing operands: throws at the k-th evaluated element.
struct Ticker {
   uint64_t at = 0, n = 0;
   bool fired = false;
   void arm(uint64_t k) {
      at = k;
      n = 0;
      fired = false;
   }
   void tick() {
      ++n;
      if(at != 0 && n == at) {
         fired = true;
         throw SimThrow{static_cast<int>(n)};
      }
   }
};
inline Ticker ticker;

using spp::AlignmentFlag;
using spp::Aligned;
using spp::Unaligned;
using II = spp::ImplicitInt;

template <class T, AlignmentFlag AF>
struct W {
   static constexpr AlignmentFlag OF = AF == Aligned ? Unaligned : Aligned;
   using S = spp::Strict<T>;
   using A1 = spp::Array1D<T, AF>;
   using A2 = spp::Array2D<T, AF>;
   static constexpr bool arith = !spp::Boolean<T>;
   static constexpr bool integer = spp::Integer<T>;
   static constexpr bool sgn = !spp::Boolean<T> && !spp::UnsignedInteger<T>;
   using V = std::vector<T>;

   struct M2 {
      long r = 0, c = 0;
      V v;
      T at(long i, long j) const {
         return v[static_cast<size_t>(i * c + j)];
      }
      bool operator==(const M2&) const = default;
   };
   struct Snap {
      std::array<V, 3> m1;
      std::array<M2, 3> m2;
      V f1, f2;
      bool operator==(const Snap&) const = default;
   };

   // System under test.
   A1 a[3];
   A2 b[3];
   spp::FixedArray1D<T, 5, AF> f1;
   spp::FixedArray2D<T, 2, 3, AF> f2;
   // Reference model.
   Snap m;

   Mode mode{};
   std::string prop;
   long scale = 16;
   const Step* st = nullptr;
   int stepno = 0;
   const char* opname = "";
   uint64_t views_live = 0;
   bool faulty = false;
   bool jumping = false;
   bool last_ok = true;

   int64_t A(int i) const {
      return st->a[i];
   }

   T val(int64_t x) const {
      if constexpr(spp::Boolean<T>) {
         return (x & 1) != 0;
      } else if constexpr(!sgn) {
         return static_cast<T>(R(x, 1999));
      } else {
         return static_cast<T>(R(x, 1999) - 999);
      }
   }
   S sv(int64_t x) const {
      return S{val(x)};
   }
   static V cat(const V& x, const V& y) {
      V r = x;
      r.insert(r.end(), y.begin(), y.end());
      return r;
   }

   std::string where() const {
      return std::string(opname) + " at step " + std::to_string(stepno);
   }
   // Malformed state: a violation if this property is the one that forbids it here, otherwise the
   // run is given up (another property's check reports it).
   struct Abandon {};
   bool fault_window = false;
   [[noreturn]] void malformed(const std::string& tag, const std::string& msg) const {
      if(mode == Mode::Model || mode == Mode::NoAlloc || fault_window) {
         bad(tag, msg);
      }
      throw Abandon{};
   }
   [[noreturn]] void bad(const std::string& tag, const std::string& msg) const {
      fail(prop + ":" + tag + ":" + opname, msg + " (" + where() + ")");
   }

   // ---- observation ----------------------------------------------------------------------
   V read1(const A1& x, int how) const {
      V r;
      long n = x.size().val();
      if(n < 0 || n > 1000000) {
         malformed("size", "impossible 1-D size " + std::to_string(n));
      }
      switch(how % 5) {
      case 0:
         for(long i = 0; i < n; ++i) {
            r.push_back(x.un(i).val());
         }
         break;
      case 1:
         for(long i = 0; i < n; ++i) {
            r.push_back(x[i].val());
         }
         break;
      case 2:
         for(auto it = x.begin(); it != x.end(); ++it) {
            r.push_back((*it).val());
         }
         break;
      case 3: {
         auto* p = x.data();
         for(long i = 0; i < n; ++i) {
            r.push_back(p[i].val());
         }
         break;
      }
      default:
         for(long i = 0; i < n; ++i) {
            r.push_back(x.at(i).val());
         }
      }
      return r;
   }
   M2 read2(const A2& x, int how) const {
      M2 r;
      r.r = x.rows().val();
      r.c = x.cols().val();
      long n = x.size().val();
      if(r.r < 0 || r.c < 0 || r.r > 100000 || r.c > 100000 || r.r * r.c != n) {
         malformed("shape",
             "2-D array reports " + std::to_string(r.r) + "x" + std::to_string(r.c) + " and size "
                + std::to_string(n));
      }
      if((r.r == 0) != (r.c == 0)) {
         malformed("shape", "2-D array has shape " + std::to_string(r.r) + "x" + std::to_string(r.c));
      }
      switch(how % 5) {
      case 0:
         for(long i = 0; i < n; ++i) {
            r.v.push_back(x.un(i).val());
         }
         break;
      case 1:
         for(long i = 0; i < r.r; ++i) {
            for(long j = 0; j < r.c; ++j) {
               r.v.push_back(x(i, j).val());
            }
         }
         break;
      case 2:
         for(auto it = x.begin(); it != x.end(); ++it) {
            r.v.push_back((*it).val());
         }
         break;
      case 3: {
         auto* p = x.data();
         for(long i = 0; i < n; ++i) {
            r.v.push_back(p[i].val());
         }
         break;
      }
      default:
         for(long i = 0; i < r.r; ++i) {
            for(long j = 0; j < r.c; ++j) {
               r.v.push_back(x.un(i, j).val());
            }
         }
      }
      return r;
   }
   Snap snap(int how = 0) const {
      Snap s;
      for(int i = 0; i < 3; ++i) {
         s.m1[i] = read1(a[i], how + i);
         s.m2[i] = read2(b[i], how + i + 1);
      }
      for(long i = 0; i < 5; ++i) {
         s.f1.push_back(f1.un(i).val());
      }
      for(long i = 0; i < 6; ++i) {
         s.f2.push_back(f2.un(i).val());
      }
      return s;
   }
   static std::string show(const V& v) {
      std::string r = "[";
      for(size_t i = 0; i < v.size() && i < 24; ++i) {
         r += (i ? " " : "") + std::to_string(static_cast<long long>(static_cast<T>(v[i])));
      }
      return r + (v.size() > 24 ? " ...]" : "]") + "(" + std::to_string(v.size()) + ")";
   }
   std::string diff(const Snap& x, const Snap& y) const {
      for(int i = 0; i < 3; ++i) {
         if(!(x.m1[i] == y.m1[i])) {
            return "1-D slot " + std::to_string(i) + ": " + show(x.m1[i]) + " vs " + show(y.m1[i]);
         }
         if(!(x.m2[i] == y.m2[i])) {
            return "2-D slot " + std::to_string(i) + ": " + std::to_string(x.m2[i].r) + "x"
                 + std::to_string(x.m2[i].c) + show(x.m2[i].v) + " vs "
                 + std::to_string(y.m2[i].r) + "x" + std::to_string(y.m2[i].c) + show(y.m2[i].v);
         }
      }
      return x.f1 == y.f1 ? "fixed 2-D" : "fixed 1-D";
   }
   uint64_t shape_hash() const {
      uint64_t h = 7;
      for(int i = 0; i < 3; ++i) {
         h = mix2(h, m.m1[i].size());
         h = mix2(h, static_cast<uint64_t>(m.m2[i].r * 4096 + m.m2[i].c));
      }
      return h;
   }
   uint64_t snap_hash(const Snap& s) const {
      uint64_t h = 11;
      auto hv = [&](const V& v) {
         h = mix2(h, v.size());
         for(size_t i = 0; i < v.size(); ++i) {
            h = mix2(h, static_cast<uint64_t>(static_cast<int64_t>(static_cast<T>(v[i]))));
         }
      };
      for(int i = 0; i < 3; ++i) {
         hv(s.m1[i]);
         h = mix2(h, static_cast<uint64_t>(s.m2[i].r * 4096 + s.m2[i].c));
         hv(s.m2[i].v);
      }
      hv(s.f1);
      hv(s.f2);
      return h;
   }

   void check_memory() const {
      if(const char* e = alloc::take_error()) {
         bad("memory", e);
      }
      for(int i = 0; i < 3; ++i) {
         check_block(a[i].data(), a[i].size().val());
         check_block(b[i].data(), b[i].size().val());
      }
      if(reinterpret_cast<uintptr_t>(f1.data()) % alignof(T) != 0) {
         bad("alignment", "fixed array storage misaligned");
      }
      if(AF == Aligned && reinterpret_cast<uintptr_t>(f1.data()) % 64 != 0) {
         bad("alignment", "aligned fixed array is not 64-byte aligned");
      }
   }
   void check_block(const void* p, long n) const {
      if(n == 0) {
         return;
      }
      if(p == nullptr) {
         bad("memory", "non-empty array without storage");
      }
      if(AF == Aligned && reinterpret_cast<uintptr_t>(p) % 64 != 0) {
         bad("alignment", "aligned array storage is not 64-byte aligned");
      }
      if(reinterpret_cast<uintptr_t>(p) % alignof(T) != 0) {
         bad("alignment", "array storage misaligned");
      }
      size_t sz, al;
      bool sut;
      if(alloc::lookup(p, sz, al, sut) && sz < static_cast<size_t>(n) * sizeof(T)) {
         bad("memory",
             "array of " + std::to_string(n) + " elements owns only " + std::to_string(sz)
                + " bytes");
      }
   }

   void compare_model() {
      Snap s = snap(stepno);
      if(!(s == m)) {
         bad("model", "array differs from the reference model: " + diff(s, m));
      }
   }
   void resync() {
      m = snap(stepno);
   }
   void log_state() {
      log_u64(snap_hash(m));
   }

   // Restore values after a partially applied element-wise operation (sizes are equal).
   void restore(const Snap& s) {
      for(int i = 0; i < 3; ++i) {
         for(size_t k = 0; k < s.m1[i].size(); ++k) {
            a[i].un(static_cast<long>(k)) = S{static_cast<T>(s.m1[i][k])};
         }
         for(size_t k = 0; k < s.m2[i].v.size(); ++k) {
            b[i].un(static_cast<long>(k)) = S{static_cast<T>(s.m2[i].v[k])};
         }
      }
      for(size_t k = 0; k < 5; ++k) {
         f1.un(static_cast<long>(k)) = S{static_cast<T>(s.f1[k])};
      }
      for(size_t k = 0; k < 6; ++k) {
         f2.un(static_cast<long>(k)) = S{static_cast<T>(s.f2[k])};
      }
   }

   enum class Out { Ok, BadAlloc, Strict, Thrown, Other };
   // Non-owning callable reference: keeps the fault machinery out of the templates.
   struct Fn {
      void* o;
      void (*f)(void*);
      template <class G>
         requires(!std::is_same_v<std::remove_cvref_t<G>, Fn>)
      Fn(G&& g)
          : o{const_cast<void*>(static_cast<const void*>(std::addressof(g)))},
            f{[](void* p) { (*static_cast<std::remove_reference_t<G>*>(p))(); }} {
      }
      void operator()() const {
         f(o);
      }
   };
   Out attempt(Fn act, std::string* what = nullptr) {
      if(jumping) {
         return attempt_jump(act);
      }
      alloc::Sut sut;
      try {
         act();
         return Out::Ok;
      } catch(const SimThrow&) {
         return Out::Thrown;
      } catch(const std::bad_alloc&) {
         return Out::BadAlloc;
      } catch(const spp::StrictException& e) {
         alloc::Host h;
         if(what) {
            *what = e.what();
         }
         return Out::Strict;
      } catch(const AssertFailed& e) {
         alloc::Host h;
         if(what) {
            *what = e.what();
         }
         return Out::Strict;
      } catch(const Violation&) {
         throw;
      } catch(...) {
         return Out::Other;
      }
   }
#ifdef SIM_ASSERTS
   static constexpr bool asserts = true;
#else
   static constexpr bool asserts = false;
#endif
   // A call that must end in an assertion from which nothing can be thrown.
   Out attempt_jump(Fn act) {
      alloc::Sut sut;
      std::jmp_buf env;
      if(setjmp(env) != 0) {
         assert_env = nullptr;
         return Out::Strict;
      }
      assert_env = &env;
      act();
      assert_env = nullptr;
      return Out::Ok;
   }

   // Runs one operation under the fault policy of the mode.
   void exec(Cat cat, Fn act, Fn upd) {
      std::string what;
      switch(mode) {
      case Mode::Model:
      case Mode::View:
      case Mode::Reject:
      case Mode::NoAlloc: {
         // Histories with faults: now and then an operation meets one failing allocation or an
         // operand that throws; if it fails it must have had no effect (C04, C05).
         int fk = mode == Mode::Model && faulty && cat == Cat::Strong ? static_cast<int>(R(A(6), 6)) : 0;
         uint64_t k = static_cast<uint64_t>(R(A(7), 6)) + 1;
#ifdef NDEBUG
         if(st->op == op_read1 || st->op == op_read2) {
            fk = 0; // the stream swallows the failure and the assertion that reports it is compiled out
         }
#endif
         if(fk == 1 || fk == 2) {
            alloc::arm(fk == 1 ? alloc::Mode::Once : alloc::Mode::Persistent, k);
         } else {
            alloc::arm(alloc::Mode::Off, 0);
            ticker.arm(fk == 3 ? k : 0);
         }
         Out o = attempt(act, &what);
         alloc::disarm();
         bool fired = alloc::fired() != 0 || ticker.fired;
         if(alloc::fired()) {
            count_named(fk == 1 ? "fault.alloc_once" : "fault.alloc_persistent");
         }
         if(ticker.fired) {
            SIM_COUNT("fault.operand_throw");
         }
         ticker.arm(0);
         last_ok = o == Out::Ok;
         log_u64(static_cast<uint64_t>(o));
         if(mode == Mode::Model) {
            if(!last_ok) {
               if(!fired) {
                  bad("rejected", "a valid call failed: " + what);
               }
               return; // no effect
            }
            upd();
         } else {
            if(o != Out::Ok) {
               resync();
               return;
            }
            resync();
         }
         return;
      }
      case Mode::Oom:
         return exec_oom(cat, act, upd);
      case Mode::Throw:
         return exec_throw(cat, act);
      case Mode::Mem: {
         int64_t k = 1 + R(A(7), 6);
         int fk = static_cast<int>(R(A(6), 8));
         ticker.arm(0);
         if(fk == 1) {
            alloc::arm(alloc::Mode::Once, static_cast<uint64_t>(k));
         } else if(fk == 2) {
            alloc::arm(alloc::Mode::Persistent, static_cast<uint64_t>(k));
         } else if(fk == 3) {
            alloc::arm(alloc::Mode::BySize, static_cast<uint64_t>(R(A(7), 400) + 1));
         } else if(fk == 4) {
            alloc::arm(alloc::Mode::Off, 0);
            ticker.arm(static_cast<uint64_t>(R(A(7), 40)) + 1);
         } else {
            alloc::arm(alloc::Mode::Off, 0);
         }
         Out o = attempt(act, &what);
         alloc::disarm();
         log_u64(static_cast<uint64_t>(o) * 16 + alloc::fired());
         if(alloc::fired()) {
            count_named(fk == 1 ? "fault.alloc_once"
                                : (fk == 2 ? "fault.alloc_persistent" : "fault.alloc_by_size"));
         }
         if(ticker.fired) {
            SIM_COUNT("fault.operand_throw");
         }
         ticker.arm(0);
         resync();
         check_memory();
         state(mix2(mix2(shape_hash(), static_cast<uint64_t>(st->op)),
                    static_cast<uint64_t>(fk * 64 + k) * 8 + static_cast<uint64_t>(o)));
         return;
      }
      }
   }

   void exec_oom(Cat, Fn act, Fn upd) {
      Snap before = snap(stepno);
      uint64_t live = alloc::live_sut();
      alloc::Mode am = (A(7) & 1) ? alloc::Mode::Persistent : alloc::Mode::Once;
      for(uint64_t k = 1;; ++k) {
         uint64_t kk = k <= 40 ? k : k + (k - 40) * 7;
         alloc::arm(am, kk);
         std::string what;
         Out o = attempt(act, &what);
         alloc::disarm();
         uint64_t f = alloc::fired();
         if(f == 0) {
            log_u64(k * 8 + static_cast<uint64_t>(o));
            break; // the clean attempt
         }
         count_named(am == alloc::Mode::Once ? "fault.alloc_once" : "fault.alloc_persistent");
         state(mix2(mix2(shape_hash(), static_cast<uint64_t>(st->op) * 64 + kk),
                    static_cast<uint64_t>(R(A(5), 64))));
         if(o == Out::Ok) {
            // The failure was absorbed: the result must be the complete one.
            SIM_COUNT("probe.oom_absorbed");
            upd();
            Snap s = snap(stepno);
            if(!(s == m)) {
               bad("silent", "allocation failure swallowed with a wrong result: " + diff(s, m));
            }
            return;
         }
         if(o == Out::Other || o == Out::Thrown) {
            bad("wrong-error", "allocation failure surfaced as an unknown exception");
         }
         fault_window = true;
         Snap s = snap(stepno);
         fault_window = false;
         if(!(s == before)) {
            bad("state-changed",
                "failed allocation " + std::to_string(kk) + " changed an array: " + diff(before, s));
         }
         if(alloc::live_sut() != live) {
            bad("leak", "failed allocation " + std::to_string(kk) + " leaked memory");
         }
      }
      resync();
   }

   void exec_throw(Cat cat, Fn act) {
      Snap before = snap(stepno);
      uint64_t live = alloc::live_sut();
      std::vector<std::pair<uint64_t, Snap>> partial;
      alloc::arm(alloc::Mode::Off, 0);
      for(uint64_t k = 1;; ++k) {
         uint64_t kk = k <= 24 ? k : 24 + (k - 24) * 5;
         ticker.arm(kk);
         Out o = attempt(act);
         bool f = ticker.fired;
         ticker.arm(0);
         if(!f) {
            log_u64(k * 8 + static_cast<uint64_t>(o));
            break;
         }
         SIM_COUNT("fault.operand_throw");
         state(mix2(mix2(shape_hash(), static_cast<uint64_t>(st->op) * 64 + kk),
                    static_cast<uint64_t>(R(A(5), 64))));
         if(o == Out::Ok) {
            bad("swallowed", "an exception thrown by an operand was swallowed");
         }
         if(o != Out::Thrown) {
            bad("wrong-error", "an exception thrown by an operand was replaced");
         }
         fault_window = true;
         Snap s = snap(stepno);
         fault_window = false;
         if(cat == Cat::Strong) {
            if(!(s == before)) {
               bad("state-changed",
                   "operand throwing at element " + std::to_string(kk)
                      + " changed an array: " + diff(before, s));
            }
         } else {
            partial.emplace_back(kk, s);
            for(int i = 0; i < 3; ++i) {
               if(s.m1[i].size() != before.m1[i].size() || s.m2[i].r != before.m2[i].r
                  || s.m2[i].c != before.m2[i].c) {
                  bad("shape-changed",
                      "element-wise operation interrupted by a throwing operand changed a shape: "
                         + diff(before, s));
               }
            }
            restore(before);
         }
         if(alloc::live_sut() != live) {
            bad("leak", "operand throwing at element " + std::to_string(kk) + " leaked memory");
         }
      }
      resync();
      for(auto& [kk, s] : partial) {
         for(int i = 0; i < 3; ++i) {
            for(size_t j = 0; j < s.m1[i].size(); ++j) {
               T x = s.m1[i][j];
               if(x != static_cast<T>(before.m1[i][j]) && x != static_cast<T>(m.m1[i][j])) {
                  bad("torn", "interrupted assignment left an element neither old nor new");
               }
            }
            for(size_t j = 0; j < s.m2[i].v.size(); ++j) {
               T x = s.m2[i].v[j];
               if(x != static_cast<T>(before.m2[i].v[j]) && x != static_cast<T>(m.m2[i].v[j])) {
                  bad("torn", "interrupted assignment left an element neither old nor new");
               }
            }
         }
      }
   }

   // ---- operands -------------------------------------------------------------------------
   struct Sq {
      long st, n, sd;
   };
   static Sq mkseq(long size, int64_t p, int64_t q) {
      Sq r{0, 0, 1};
      if(size == 0) {
         return r;
      }
      static const long strides[] = {1, 2, -1, 3, -2, 0, 1, 5};
      r.st = R(p, size);
      r.sd = strides[R(q, 8)];
      long mx = r.sd == 0 ? 3 : (r.sd > 0 ? (size - 1 - r.st) / r.sd : r.st / -r.sd) + 1;
      r.n = R(q / 8, mx + 1);
      if(r.n == 0 && R(q / 64, 4) != 0) {
         r.n = mx;
      }
      return r;
   }
   static V take(const V& v, const Sq& q) {
      V r;
      for(long i = 0; i < q.n; ++i) {
         r.push_back(v[static_cast<size_t>(q.st + q.sd * i)]);
      }
      return r;
   }
   static spp::seqN sq(const Sq& q) {
      return spp::seqN{q.st, q.n, q.sd};
   }
   // Strictly increasing subset of [0, n).
   static std::vector<long> subset(long n, int64_t p, int64_t q) {
      std::vector<long> r;
      uint64_t h = mix2(static_cast<uint64_t>(p), static_cast<uint64_t>(q));
      int density = static_cast<int>(R(q, 5)); // 0: none
      for(long i = 0; i < n; ++i) {
         h = mix64(h);
         if(static_cast<int>(h % 4) < density) {
            r.push_back(i);
         }
      }
      return r;
   }
   static std::vector<long> anyidx(long n, int64_t p, int64_t q) {
      std::vector<long> r;
      if(n == 0) {
         return r;
      }
      uint64_t h = mix2(static_cast<uint64_t>(p), static_cast<uint64_t>(q) + 5);
      long cnt = R(q, n + 3);
      for(long i = 0; i < cnt; ++i) {
         h = mix64(h);
         r.push_back(static_cast<long>(h % static_cast<uint64_t>(n)));
      }
      return r;
   }
   // A list that is not a strictly increasing list of positions of [0, n): a good one with one flaw somewhere.
   static std::vector<long> badlist(long n, int64_t p, int64_t q) {
      auto r = subset(n, p, q);
      uint64_t h = mix64(mix2(static_cast<uint64_t>(q), static_cast<uint64_t>(p) + 9));
      auto k = static_cast<long>(h / 64 % (r.size() + 1));
      auto at = static_cast<size_t>(k);
      switch(h % 8) {
      case 0:
      case 1:
      case 2: // repeated, additionally or in place of a neighbour
         if(at < r.size() && h / 8 % 2 == 0) {
            r.insert(r.begin() + k, r[at]);
            return r;
         }
         if(at < r.size() && r.size() > 1) {
            r[at] = at > 0 && h / 16 % 2 != 0 ? r[at - 1] : at + 1 < r.size() ? r[at + 1] : r[at - 1];
            return r;
         }
         break;
      case 3:
      case 4: // two neighbours in the wrong order
         if(at + 1 < r.size()) {
            std::swap(r[at], r[at + 1]);
            return r;
         }
         break;
      case 5:
         if(r.size() > 1) {
            std::reverse(r.begin(), r.end());
            return r;
         }
         break;
      default:
         break;
      }
      // A position outside, with the others in order around it or not.
      long out = h / 8 % 2 != 0 ? n + static_cast<long>(h / 16 % 3) : -1 - static_cast<long>(h / 16 % 3);
      if(h / 4096 % 2 != 0) {
         r.insert(out < 0 ? r.begin() : r.end(), out);
      } else {
         r.insert(r.begin() + k, out);
      }
      return r;
   }
   // Positions in any order with one outside of [0, n).
   static std::vector<long> outlist(long n, int64_t p, int64_t q) {
      auto r = anyidx(n, p, q);
      uint64_t h = mix64(mix2(static_cast<uint64_t>(p), static_cast<uint64_t>(q) + 11));
      long out = h % 2 != 0 ? n + static_cast<long>(h / 16 % 3) : -1 - static_cast<long>(h / 16 % 3);
      r.insert(r.begin() + static_cast<long>(h / 64 % (r.size() + 1)), out);
      return r;
   }
   static std::vector<II> vi(const std::vector<long>& v) {
      return std::vector<II>(v.begin(), v.end());
   }

   static constexpr int n_forms1 = 22;
   // Size-independent operand of a 1-D operation, inside the Sut scope.
   template <bool Small = false, class G>
   void operand1(int form, int s, int64_t p, int64_t q, G&& g) {
      A1& x = a[s];
      const A1& cx = x;
      A2& y = b[s];
      const A2& cy = y;
      long n = cx.size().val();
      auto gen = [](auto e) {
         ticker.tick();
         return e;
      };
      switch(form) {
      case 5:
         g(generate(cx, gen));
         return;
      case 1:
         g(cx(sq(mkseq(n, p, q))));
         return;
      case 4: {
         g(x(vi(anyidx(n, p, q))));
         return;
      }
      case 9:
         if(y.rows().val() > 0) {
            g(y.row(R(p, cy.rows().val())));
            return;
         }
         g(x);
         return;
      case 7:
         g(merge(cx, sv(p)));
         return;
      default:
         break;
      }
      if constexpr(!Small) {
         switch(form) {
         case 2:
            g(cx(spp::place::reverse));
            return;
         case 3:
            g(x(spp::place::even));
            return;
         case 6:
            if constexpr(arith) {
               g(cx + S{T(1)});
               return;
            }
            break;
         case 8:
            g(spp::const1D(R(q, 9), sv(p)));
            return;
         case 10:
            if(y.rows().val() > 0) {
               g(cy.col(R(p, cy.cols().val())));
               return;
            }
            break;
         case 11:
            g(y.diag());
            return;
         case 12:
            g(cy.view1D());
            return;
         case 13:
            if(n > 0) {
               long pos = R(p, n);
               if(R(q, 3) == 0) {
                  g(exclude(cx, spp::last - (n - 1 - pos)));
               } else if(R(q, 3) == 1) {
                  g(exclude(cx, spp::Pos{pos}, spp::Count{R(q, n - pos) + 1}));
               } else {
                  g(exclude(cx, pos, R(q, n - pos) + 1));
               }
               return;
            }
            break;
         case 14:
            g(f1);
            return;
         case 15: {
            spp::Array1D<T, OF> o(cx);
            g(o);
            return;
         }
         case 16:
            if(n > 0) {
               g(x(spp::place::skipN{R(q, 4) + 1}));
               return;
            }
            break;
         case 17:
            if(p & 1) {
               g(x(spp::place::firstN{R(q, n + 1)}));
            } else {
               g(cx(spp::place::lastN{R(q, n + 1)}));
            }
            return;
         case 18:
            g(cx(spp::place::complement{vi(subset(n, p, q))}));
            return;
         case 19:
            if constexpr(spp::Floating<T>) {
               // End of a single element is of no importance.
               if(long k = R(q, 9); k > 0 && (p & 1) != 0) {
                  g(spp::linspace<T>(k, S{static_cast<T>(R(p, 50))},
                                     S{static_cast<T>(R(p, 50) + (k == 1 ? R(p, 3) : k - 1))}));
                  return;
               }
            }
            if constexpr(arith) {
               g(spp::sequence<T>(R(q, 9), S{static_cast<T>(R(p, 50))}, S{T(1)}));
               return;
            }
            break;
         case 20:
            g(merge(cx, x));
            return;
         case 21:
            g(x(spp::place::reverse)(spp::place::even));
            return;
         default:
            break;
         }
      }
      g(cx);
   }
   V model1(int form, int s, int64_t p, int64_t q, bool small = false) const {
      const V& x = m.m1[s];
      const M2& y = m.m2[s];
      long n = static_cast<long>(x.size());
      V r;
      if(small && form != 5 && form != 1 && form != 4 && form != 9 && form != 7) {
         return x;
      }
      switch(form) {
      case 1:
         return take(x, mkseq(n, p, q));
      case 2:
         return V(x.rbegin(), x.rend());
      case 3:
         for(long i = 0; i < n; i += 2) {
            r.push_back(x[static_cast<size_t>(i)]);
         }
         return r;
      case 4:
         for(long i : anyidx(n, p, q)) {
            r.push_back(x[static_cast<size_t>(i)]);
         }
         return r;
      case 6:
         if constexpr(arith) {
            for(T e : x) {
               r.push_back(static_cast<T>(e + T(1)));
            }
            return r;
         }
         return x;
      case 7:
         r = x;
         r.push_back(val(p));
         return r;
      case 8:
         return V(static_cast<size_t>(R(q, 9)), val(p));
      case 9:
         if(y.r > 0) {
            long i = R(p, y.r);
            for(long j = 0; j < y.c; ++j) {
               r.push_back(y.at(i, j));
            }
            return r;
         }
         return x;
      case 10:
         if(y.r > 0) {
            long j = R(p, y.c);
            for(long i = 0; i < y.r; ++i) {
               r.push_back(y.at(i, j));
            }
            return r;
         }
         return x;
      case 11:
         for(long i = 0; i < std::min(y.r, y.c); ++i) {
            r.push_back(y.at(i, i));
         }
         return r;
      case 12:
         return y.v;
      case 13:
         if(n > 0) {
            long pos = R(p, n), cnt = R(q, 3) == 0 ? 1 : R(q, n - pos) + 1;
            for(long i = 0; i < n; ++i) {
               if(i < pos || i >= pos + cnt) {
                  r.push_back(x[static_cast<size_t>(i)]);
               }
            }
            return r;
         }
         return x;
      case 14:
         return m.f1;
      case 16:
         if(n > 0) {
            for(long i = 0; i < n; i += R(q, 4) + 1) {
               r.push_back(x[static_cast<size_t>(i)]);
            }
            return r;
         }
         return x;
      case 17: {
         long k = R(q, n + 1);
         return (p & 1) ? V(x.begin(), x.begin() + k) : V(x.end() - k, x.end());
      }
      case 18: {
         auto sub = subset(n, p, q);
         size_t k = 0;
         for(long i = 0; i < n; ++i) {
            if(k < sub.size() && sub[k] == i) {
               ++k;
            } else {
               r.push_back(x[static_cast<size_t>(i)]);
            }
         }
         return r;
      }
      case 19:
         if constexpr(arith) {
            for(long i = 0; i < R(q, 9); ++i) {
               r.push_back(static_cast<T>(R(p, 50) + i));
            }
            return r;
         }
         return x;
      case 20:
         return cat(x, x);
      case 21: {
         V t(x.rbegin(), x.rend());
         for(long i = 0; i < n; i += 2) {
            r.push_back(t[static_cast<size_t>(i)]);
         }
         return r;
      }
      default:
         return x;
      }
   }

   static constexpr int n_forms2 = 17;
   struct Blk {
      long r0, c0, nr, nc;
   };
   static Blk mkblk(long r, long c, int64_t p, int64_t q) {
      Blk k{0, 0, 0, 0};
      if(r == 0) {
         return k;
      }
      k.r0 = R(p, r);
      k.c0 = R(p / 7, c);
      k.nr = R(q, r - k.r0) + 1;
      k.nc = R(q / 7, c - k.c0) + 1;
      return k;
   }
   static long factor(long n, int64_t p) {
      if(n == 0) {
         return 0;
      }
      long f = R(p, n) + 1;
      while(n % f) {
         --f;
      }
      return f;
   }
   template <bool Small = false, class G>
   void operand2(int form, int s, int64_t p, int64_t q, G&& g) {
      A2& x = b[s];
      const A2& cx = x;
      long r = cx.rows().val(), c = cx.cols().val();
      auto gen = [](auto e) {
         ticker.tick();
         return e;
      };
      switch(form) {
      case 5:
         g(generate(cx, gen));
         return;
      case 1:
         if(r > 0) {
            Blk k = mkblk(r, c, p, q);
            g(cx.blockN(k.r0, k.c0, k.nr, k.nc));
            return;
         }
         break;
      case 4:
         g(transpose(cx));
         return;
      case 2:
         if(r > 0) {
            auto iv = anyidx(r, p, q);
            if(!iv.empty()) {
               g(x.rows(vi(iv)));
               return;
            }
         }
         break;
      default:
         break;
      }
      if constexpr(!Small) {
         switch(form) {
         case 3:
            if(r > 0) {
               g(x(spp::place::reverse, spp::place::even));
               return;
            }
            break;
         case 6:
            g(merge_horizontal(cx, x));
            return;
         case 7:
            g(merge_vertical(cx, x));
            return;
         case 8:
            g(spp::const2D(R(q, 4) + 1, R(q / 4, 4) + 1, sv(p)));
            return;
         case 9: {
            long n = a[s].size().val();
            if(n > 0) {
               long f = factor(n, p);
               g(a[s].view2D(f, n / f));
               return;
            }
            break;
         }
         case 10: {
            spp::Array2D<T, OF> o(cx);
            g(o);
            return;
         }
         case 11:
            g(f2);
            return;
         case 12:
            if(r > 0) {
               auto iv = anyidx(c, p, q);
               if(!iv.empty()) {
                  g(cx(spp::seqN{0, r, 1}, vi(iv)));
                  return;
               }
            }
            break;
         case 13:
            if constexpr(arith) {
               g(spp::identity<T>(R(p, 5)));
               return;
            }
            break;
         case 14:
            if constexpr(arith) {
               g(cx + S{T(1)});
               return;
            }
            break;
         case 15:
            if(r > 0) {
               g(x.cols(spp::place::reverse));
               return;
            }
            break;
         case 16:
            if(r > 0) {
               Blk k = mkblk(r, c, p, q);
               g(x.block(k.r0, k.c0, k.r0 + k.nr - 1, k.c0 + k.nc - 1));
               return;
            }
            break;
         default:
            break;
         }
      }
      g(cx);
   }
   template <class F>
   static M2 build(long r, long c, F f) {
      M2 o;
      o.r = r;
      o.c = c;
      for(long i = 0; i < r; ++i) {
         for(long j = 0; j < c; ++j) {
            o.v.push_back(f(i, j));
         }
      }
      return o;
   }
   M2 model2(int form, int s, int64_t p, int64_t q, bool small = false) const {
      const M2& x = m.m2[s];
      if(small && form != 5 && form != 1 && form != 4 && form != 2) {
         return x;
      }
      switch(form) {
      case 1:
      case 16:
         if(x.r > 0) {
            Blk k = mkblk(x.r, x.c, p, q);
            return build(k.nr, k.nc, [&](long i, long j) { return x.at(k.r0 + i, k.c0 + j); });
         }
         return x;
      case 2:
         if(x.r > 0) {
            auto iv = anyidx(x.r, p, q);
            if(!iv.empty()) {
               return build(static_cast<long>(iv.size()), x.c, [&](long i, long j) {
                  return x.at(iv[static_cast<size_t>(i)], j);
               });
            }
         }
         return x;
      case 3:
         if(x.r > 0) {
            return build(x.r, (x.c + 1) / 2, [&](long i, long j) { return x.at(x.r - 1 - i, 2 * j); });
         }
         return x;
      case 4:
         return build(x.c, x.r, [&](long i, long j) { return x.at(j, i); });
      case 6:
         return build(x.r, 2 * x.c, [&](long i, long j) { return x.at(i, j % x.c); });
      case 7:
         return build(2 * x.r, x.c, [&](long i, long j) { return x.at(i % x.r, j); });
      case 8:
         return build(R(q, 4) + 1, R(q / 4, 4) + 1, [&](long, long) { return val(p); });
      case 9: {
         long n = static_cast<long>(m.m1[s].size());
         if(n > 0) {
            long f = factor(n, p);
            M2 o;
            o.r = f;
            o.c = n / f;
            o.v = m.m1[s];
            return o;
         }
         return x;
      }
      case 11: {
         M2 o;
         o.r = 2;
         o.c = 3;
         o.v = m.f2;
         return o;
      }
      case 12:
         if(x.r > 0) {
            auto iv = anyidx(x.c, p, q);
            if(!iv.empty()) {
               return build(x.r, static_cast<long>(iv.size()), [&](long i, long j) {
                  return x.at(i, iv[static_cast<size_t>(j)]);
               });
            }
         }
         return x;
      case 13:
         if constexpr(arith) {
            long n = R(p, 5);
            return build(n, n, [&](long i, long j) { return static_cast<T>(i == j ? 1 : 0); });
         }
         return x;
      case 14:
         if constexpr(arith) {
            return build(x.r, x.c, [&](long i, long j) { return static_cast<T>(x.at(i, j) + T(1)); });
         }
         return x;
      case 15:
         if(x.r > 0) {
            return build(x.r, x.c, [&](long i, long j) { return x.at(i, x.c - 1 - j); });
         }
         return x;
      default:
         return x;
      }
   }

   int form1(int i = 5) const {
      if(mode == Mode::Throw) {
         return 5;
      }
      return static_cast<int>(R(A(i), n_forms1));
   }
   int form2(int i = 5) const {
      if(mode == Mode::Throw) {
         return 5;
      }
      return static_cast<int>(R(A(i), n_forms2));
   }
   bool too_big(size_t n) const {
      return static_cast<long>(n) > scale * 4;
   }

#include "arrays_help.inc"
#include "arrays_help_api.inc"
#include "arrays_help_alg.inc"
#include "arrays_help_iter.inc"
#include "arrays_help_slc.inc"

#define X(n) void do_##n();
#include "arrays_ops.inc"
#undef X

   void step(const Step& s, int no) {
      st = &s;
      stepno = no;
      opname = op_names[s.op];
      set_step(no);
      ticker.arm(0);
      switch(s.op) {
#define X(n)      \
   case op_##n:   \
      do_##n();   \
      break;
#include "arrays_ops.inc"
#undef X
      default:
         break;
      }
      alloc::disarm();
      if(mode == Mode::Model) {
         compare_model();
         state(mix2(mix2(shape_hash(), static_cast<uint64_t>(s.op)),
                    static_cast<uint64_t>(R(s.a[5], 64) * 8 + R(s.a[6], 8))));
      }
      log_state();
   }
};

template <class T, AlignmentFlag AF>
void run_world(const Plan& p) {
   uint64_t live0 = alloc::live_sut();
   (void)alloc::take_error();
   bool given_up = false;
   {
      auto w = std::make_unique<W<T, AF>>();
      w->prop = p.prop;
      w->mode = p.prop == "C01" ? Mode::Oom
              : p.prop == "C02" ? Mode::Reject
              : p.prop == "C03" ? Mode::Throw
              : p.prop == "C06" ? Mode::Mem
              : p.prop == "C07" ? Mode::NoAlloc
              : p.prop == "C08" ? Mode::View
              : p.prop == "C21" ? Mode::Reject
              : p.prop == "C22" && p.cfg[3] != 0 ? Mode::View
                                : Mode::Model;
      w->scale = p.cfg[1];
      w->faulty = p.cfg[2] != 0;
      try {
         w->resync();
         int i = 0;
         for(auto& s : p.steps) {
            w->step(s, i++);
         }
         w->finish();
      } catch(const typename W<T, AF>::Abandon&) {
         SIM_COUNT("probe.run_given_up");
         alloc::disarm();
         given_up = true;
      }
   }
   const char* e = alloc::take_error();
   if(p.prop != "C06" || given_up) {
      return;
   }
   if(alloc::live_sut() != live0) {
      fail(p.prop + ":leak:end", "blocks still live after every array was destroyed");
   }
   if(e) {
      fail(p.prop + ":memory:end", e);
   }
}

} // namespace sim::arrays
