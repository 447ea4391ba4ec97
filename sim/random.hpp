// Harness "random": random fills, shuffles and semi-random numbers (C17..C19) over a simulated
// entropy device and a simulated build second.
#pragma once
#include "core.hpp"
#include "entropy.hpp"

extern char sim_time[9]; // stands for __TIME__

#include <cstdio>
#include <strictpp/strict.hpp>

#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <type_traits>
#include <vector>

namespace sim::rnd {

enum Op : int {
#define X(n) op_##n,
#include "random_ops.inc"
#undef X
   op_count
};

template <class T>
struct World {
   using S = spp::Strict<T>;
   using A1 = spp::Array1D<T, SIM_AF>;
   using A2 = spp::Array2D<T, SIM_AF>;
   using V = std::vector<T>;
   static constexpr bool real = !std::is_same_v<T, bool>;
   static constexpr bool integer = std::is_integral_v<T> && real;
   static constexpr bool floating = !std::is_integral_v<T>;
   static constexpr bool quad = sizeof(T) == 16 && !std::is_same_v<T, long double>;

   std::string prop;
   A1 a, c;
   A2 b;
   spp::FixedArray1D<T, 5, SIM_AF> f;
   V ma, mc, mb, mf = V(5, T{});
   long br = 0, bc = 0;
   std::map<uint64_t, V> memo;
   uint64_t dev_seed = 0;

   [[noreturn]] void bad(const std::string& what, const std::string& msg) {
      sim::fail(prop + ":" + what, msg);
   }
   static std::string str(T v) {
      if constexpr(std::is_integral_v<T>) {
         return std::to_string(v);
      } else {
         char buf[64];
         std::snprintf(buf, sizeof buf, "%.21Lg", static_cast<long double>(v));
         return buf;
      }
   }
   static uint64_t h(const V& v) {
      uint64_t r = v.size();
      for(T e : v) {
         if constexpr(std::is_integral_v<T>) {
            r = mix2(r, static_cast<uint64_t>(e));
         } else {
            e = e + T(0); // one zero
            r = mix2(r, hash_bytes(&e, std::is_same_v<T, long double> ? 10 : sizeof e));
         }
      }
      return r;
   }

   V get(const auto& x) {
      V r;
      if constexpr(requires { x.rows(); }) {
         for(long i = 0; i < x.rows().val(); ++i) {
            for(long j = 0; j < x.cols().val(); ++j) {
               r.push_back(x.un(i, j).val());
            }
         }
      } else {
         for(long i = 0; i < x.size().val(); ++i) {
            r.push_back(x.un(i).val());
         }
      }
      return r;
   }
   static bool eq(const V& x, const V& y) {
      if(x.size() != y.size()) {
         return false;
      }
      for(size_t i = 0; i < x.size(); ++i) {
         if(!(x[i] == y[i])) {
            return false;
         }
      }
      return true;
   }
   void unchanged(const char* when) {
      if(!eq(get(a), ma) || !eq(get(c), mc) || !eq(get(f), mf)) {
         bad("target", std::string("1-D array changed ") + when);
      }
      if(b.rows().val() != br || b.cols().val() != bc || !eq(get(b), mb)) {
         bad("target", std::string("2-D array changed ") + when);
      }
   }

   struct Bounds {
      T lo, hi;
      bool small; // few enough integers that a long series reaches all of them
      bool odd = false; // floating-point bounds of any magnitude
   };
   // A finite number of any magnitude, subnormal ones and the largest included.
   static T any_float(uint64_t k) {
      using L = std::numeric_limits<T>;
      constexpr int d = quad ? 113 : L::digits, e0 = quad ? 16384 : L::max_exponent;
      uint64_t z = mix2(k, 77);
      int e = static_cast<int>(mix2(k, 78) % static_cast<uint64_t>(2 * e0 + d)) - e0 - d; // exponent of the last bit, roughly
      switch(z % 4) {
      case 0:
         e = static_cast<int>(mix2(k, 79) % 40) - 20 - d;
         break;
      case 1:
         e = z % 8 < 4 ? e0 - d : 3 - e0 - d;
         break;
      default:
         break;
      }
      e = std::min(e, e0 - d);
      T m = static_cast<T>(mix2(k, 80) >> 11);
      if constexpr(d > 53) {
         m = m * T(2048) + static_cast<T>(mix2(k, 81) >> 53);
      }
      if constexpr(d > 64) {
         m = m * static_cast<T>(1ull << 49) + static_cast<T>(mix2(k, 82) >> 15);
      }
      if constexpr(d < 53) {
         m = static_cast<T>(mix2(k, 80) >> (64 - d));
      }
      for(; e > 0; e -= std::min(e, 60)) {
         m = m * static_cast<T>(1ull << std::min(e, 60));
      }
      for(; e < 0; e += std::min(-e, 60)) {
         m = m / static_cast<T>(1ull << std::min(-e, 60));
      }
      return mix2(k, 83) & 1 ? m : -m;
   }
   static T float_max() {
      T r = 1, top = 0;
      constexpr int d = quad ? 113 : std::numeric_limits<T>::digits;
      constexpr int e0 = quad ? 16384 : std::numeric_limits<T>::max_exponent;
      for(int i = 0; i < d; ++i) {
         top = top * T(2) + T(1);
      }
      for(int i = 0; i < e0 - d; ++i) {
         r = r * T(2);
      }
      return top * r;
   }
   // The next number above x (x below the largest).
   static T above(T x) {
      T s = T(1);
      constexpr int d = quad ? 113 : std::numeric_limits<T>::digits;
      for(int i = 0; i < d; ++i) {
         s = s / T(2);
      }
      T ax = x < T(0) ? -x : x;
      T y = x + (ax * s);
      for(T w = ax * s; y == x && w > T(0) && w < float_max() / T(4); w = w * T(2)) {
         y = x + w;
      }
      return y > x ? y : x;
   }
   Bounds bounds(int64_t k, int64_t x) {
      Bounds r{T(0), T(1), true};
      if constexpr(integer) {
         using L = std::numeric_limits<T>;
         long base = std::is_signed_v<T> ? static_cast<long>(R(x, 13)) - 6 : static_cast<long>(R(x, 7));
         switch(R(k, 8)) {
         case 0:
            return r;
         case 1:
            return {std::is_signed_v<T> ? static_cast<T>(-1) : T(1), std::is_signed_v<T> ? T(0) : T(2), true};
         case 2:
            return {static_cast<T>(base), static_cast<T>(base + R(x / 16, 4)), true};
         case 3:
            return {L::min(), static_cast<T>(L::min() + static_cast<T>(R(x, 4))), true};
         case 4:
            return {static_cast<T>(L::max() - static_cast<T>(R(x, 4))), L::max(), true};
         case 5:
            switch(R(x / 16, 5)) {
            case 0:
               return {static_cast<T>(base), static_cast<T>(base + 1000000), false};
            case 1:
               return {static_cast<T>(base), L::max(), false};
            case 2:
               return {L::min(), static_cast<T>(base + 1000000000), false};
            case 3:
               return {static_cast<T>(L::min() + T(1)), static_cast<T>(L::max() - static_cast<T>(R(x / 80, 2))), false};
            default:
               return {L::min(), L::max(), false};
            }
         case 6:
            return {T(0), static_cast<T>(R(x, 4)), true};
         default:
            return {static_cast<T>(base), static_cast<T>(static_cast<long>(base) + R(x, 1 << 20)), false};
         }
      } else if constexpr(floating) {
         T q = static_cast<T>(R(x, 2048) - 1024) / T(64), w = static_cast<T>(R(x / 7, 2048)) / T(64);
         switch(R(k, 13)) {
         case 8: {
            T l = any_float(static_cast<uint64_t>(x)), h = any_float(static_cast<uint64_t>(x) + 1);
            return l <= h ? Bounds{l, h, false, true} : Bounds{h, l, false, true};
         }
         case 9: {
            T l = any_float(static_cast<uint64_t>(x));
            return {l, above(l), false, true};
         }
         case 10:
            return {-float_max(), R(x, 2) ? float_max() : float_max() / T(4), false, true};
         case 11: {
            T h = any_float(static_cast<uint64_t>(x));
            h = h < T(0) ? -h : h;
            return {R(x, 2) ? T(0) : -h, h, false, true};
         }
         case 12: {
            T h = any_float(static_cast<uint64_t>(x));
            return h < T(0) ? Bounds{h, float_max(), false, true} : Bounds{-float_max(), h, false, true};
         }
         case 0:
            return {T(0), T(1), false};
         case 1:
            return {T(-1), T(0), false};
         case 2:
            return {q, q + w, false};
         case 3:
            return {q, q, true};
         case 4:
            return {T(-1024) * T(1048576), T(1024) * T(1048576), false};
         case 5:
            return {T(0), T(1) / T(1048576), false};
         case 6:
            return {T(-1) / T(1024), T(1), false};
         default:
            return {T(1), T(1) + T(1) / T(1048576), false};
         }
      } else {
         return r;
      }
   }
   bool only_zero(const Bounds& r) {
      return r.lo == T(0) && r.hi == T(0);
   }
   void in_range(const V& v, const Bounds& r, bool not0, const char* what) {
      for(size_t i = 0; i < v.size(); ++i) {
         if(!(r.lo <= v[i] && v[i] <= r.hi)) {
            bad("range", std::string(what) + ": element " + std::to_string(i) + " is " + str(v[i]) + ", outside ["
                             + str(r.lo) + ", " + str(r.hi) + "]");
         }
         if(not0 && v[i] == T(0)) {
            bad("zero", std::string(what) + ": element " + std::to_string(i) + " is zero");
         }
      }
   }
   // 400 or more draws reach every value of a small range and both ends of a real one.
   void covers(const V& v, const Bounds& r, bool not0, const char* what) {
      if constexpr(std::is_integral_v<T>) {
         if(!r.small) {
            return;
         }
         std::set<T> seen(v.begin(), v.end());
         for(T x = r.lo;; x = static_cast<T>(x + T(1))) {
            if(!(not0 && x == T(0)) && !seen.count(x)) {
               bad("coverage", std::string(what) + ": the value " + str(x) + " of [" + str(r.lo) + ", " + str(r.hi)
                                   + "] does not occur in " + std::to_string(v.size()) + " results");
            }
            if(x == r.hi) {
               break;
            }
         }
      } else {
         if(r.lo == r.hi) {
            return;
         }
         T w = r.hi / T(5) - r.lo / T(5);
         bool l = false, h = false;
         for(T x : v) {
            l = l || x <= r.lo + w;
            h = h || x >= r.hi - w;
         }
         if(!l || !h) {
            bad("coverage", std::string(what) + ": one end of [" + str(r.lo) + ", " + str(r.hi)
                                + "] is never approached");
         }
      }
   }

   template <class F>
   bool attempt(F&& g) { // true: returned; false: the device failed
      try {
         g();
         return true;
      } catch(const std::system_error&) {
         return false;
      } catch(const std::runtime_error&) {
         return false;
      } catch(const spp::StrictException& e) {
         bad("rejected", std::string("valid call rejected: ") + e.what());
      }
   }
   void seen(const Step& s, const Bounds& r, bool ok, const V& v) {
      uint64_t k = mix2(mix2(static_cast<uint64_t>(s.op * 64 + R(s.a[0], 64)), static_cast<uint64_t>(r.lo != T(0)) * 4 + ok),
                        mix2(h(V{r.lo, r.hi}), h(v)));
      state(k);
      log_u64(h(v));
      log_u64(ok);
   }

   // old and new contents of one target of a call that may have been cut short by the device
   void settle(const V& now, V& model, const Bounds& r, bool not0, bool ok, const char* what) {
      if(now.size() != model.size()) {
         bad("target", std::string(what) + ": the size changed");
      }
      if(!ok && eq(now, model)) {
         return;
      }
      in_range(now, r, not0, what);
      model = now;
   }

   template <class X>
   bool fill(X&& x, int64_t form, const Bounds& r, bool not0) {
      S lo{r.lo}, hi{r.hi};
      return attempt([&] {
         if constexpr(!real) {
            spp::random(x);
         } else if(not0) {
            switch(R(form, 3)) {
            case 0:
               return spp::random_not0(x, lo, hi);
            case 1:
               return spp::random_not0(x, spp::Low<T>{r.lo}, spp::High<T>{r.hi});
            default:
               return spp::random_not0(x);
            }
         } else {
            switch(R(form, 3)) {
            case 0:
               return spp::random(x, lo, hi);
            case 1:
               return spp::random(x, spp::Low<T>{r.lo}, spp::High<T>{r.hi});
            default:
               return spp::random(x);
            }
         }
      });
   }
   // The bounds a call of this form really uses.
   Bounds pick(const Step& s, bool& not0) {
      not0 = real && (s.a[1] & 1);
      Bounds r = bounds(s.a[2], s.a[3]);
      if(!real || R(s.a[0], 3) == 2) {
         r = {T(0), T(1), true};
      }
      if(not0 && only_zero(r)) {
         r.hi = T(1);
      }
      return r;
   }

   void op_fill1_(const Step& s) {
      bool z;
      Bounds r = pick(s, z);
      if(s.a[4] % 4 == 0) {
         bool ok = fill(f, s.a[0], r, z);
         settle(get(f), mf, r, z, ok, "random(FixedArray1D)");
         seen(s, r, ok, mf);
      } else {
         bool ok = fill(a, s.a[0], r, z);
         settle(get(a), ma, r, z, ok, "random(Array1D)");
         seen(s, r, ok, ma);
      }
      unchanged("although it was not the target");
   }
   void op_fill2_(const Step& s) {
      bool z;
      Bounds r = pick(s, z);
      bool ok = fill(b, s.a[0], r, z);
      settle(get(b), mb, r, z, ok, "random(Array2D)");
      seen(s, r, ok, mb);
      unchanged("although it was not the target");
   }
   void op_fill_many_(const Step& s) {
      bool z;
      Bounds r = pick(s, z);
      S lo{r.lo}, hi{r.hi};
      bool ok = attempt([&] {
         if constexpr(!real) {
            spp::random(a, b, c);
         } else if(z) {
            switch(R(s.a[0], 3)) {
            case 0:
               return spp::random_not0(a, b, c, lo, hi);
            case 1:
               return spp::random_not0(a, b, c, spp::Low<T>{r.lo}, spp::High<T>{r.hi});
            default:
               return spp::random_not0(a, b, c);
            }
         } else {
            switch(R(s.a[0], 3)) {
            case 0:
               return spp::random(a, b, c, lo, hi);
            case 1:
               return spp::random(a, b, c, spp::Low<T>{r.lo}, spp::High<T>{r.hi});
            default:
               return spp::random(a, b, c);
            }
         }
      });
      settle(get(a), ma, r, z, ok, "first of several");
      settle(get(b), mb, r, z, ok, "second of several");
      settle(get(c), mc, r, z, ok, "third of several");
      seen(s, r, ok, ma);
      unchanged("although it was not the target");
   }
   // Positions of a part of a (or of b) and the call on that part.
   template <class G>
   void part(const Step& s, std::vector<long>& idx, bool& two, G&& g) {
      long n = static_cast<long>(ma.size());
      two = false;
      idx.clear();
      switch(R(s.a[4], 5)) {
      case 0:
         for(long i = 0; i < n; i += 2) {
            idx.push_back(i);
         }
         return g(a(spp::place::even));
      case 1:
         for(long i = n - 1; i >= 0; --i) {
            idx.push_back(i);
         }
         return g(a(spp::place::reverse));
      case 2:
         if(br > 0) {
            two = true;
            long k = R(s.a[5], br);
            for(long j = 0; j < bc; ++j) {
               idx.push_back(k * bc + j);
            }
            return g(b.row(k));
         }
         break;
      case 3:
         if(br > 0) {
            two = true;
            long k = R(s.a[5], bc);
            for(long i = 0; i < br; ++i) {
               idx.push_back(i * bc + k);
            }
            return g(b.col(k));
         }
         break;
      default:
         break;
      }
      long cnt = R(s.a[5], n + 1);
      for(long i = 0; i < cnt; ++i) {
         idx.push_back(i);
      }
      return g(a(spp::place::firstN{cnt}));
   }
   void op_fill_slice_(const Step& s) {
      bool z;
      Bounds r = pick(s, z);
      std::vector<long> idx;
      bool two = false, ok = true;
      part(s, idx, two, [&](auto&& sl) { ok = fill(sl, s.a[0], r, z); });
      V now = two ? get(b) : get(a);
      V& model = two ? mb : ma;
      V sub, old;
      V rest = now;
      for(long i : idx) {
         sub.push_back(now[static_cast<size_t>(i)]);
         old.push_back(model[static_cast<size_t>(i)]);
         rest[static_cast<size_t>(i)] = model[static_cast<size_t>(i)];
      }
      if(!eq(rest, model)) {
         bad("target", "filling a slice changed other elements");
      }
      settle(sub, old, r, z, ok, "random(slice)");
      model = now;
      seen(s, r, ok, sub);
      unchanged("although it was not the target");
   }
   void op_scalar_(const Step& s) {
      bool z;
      Bounds r = pick(s, z);
      T v{};
      S lo{r.lo}, hi{r.hi};
      bool ok = attempt([&] {
         if constexpr(!real) {
            v = spp::rands<T>().val();
         } else if(z) {
            v = (R(s.a[0], 3) == 0   ? spp::rands_not0(lo, hi)
                 : R(s.a[0], 3) == 1 ? spp::rands_not0(spp::Low<T>{r.lo}, spp::High<T>{r.hi})
                                     : spp::rands_not0<T>())
                   .val();
         } else {
            v = (R(s.a[0], 3) == 0   ? spp::rands(lo, hi)
                 : R(s.a[0], 3) == 1 ? spp::rands(spp::Low<T>{r.lo}, spp::High<T>{r.hi})
                                     : spp::rands<T>())
                   .val();
         }
      });
      if(ok) {
         in_range(V{v}, r, z, "rands");
      }
      seen(s, r, ok, V{v});
      unchanged("by a scalar draw");
   }
   void use_expr(const Step& s, const Bounds& r, bool z, auto&& e, long n, long m) {
      if constexpr(requires { e.rows(); }) {
         if(e.rows().val() != n || e.cols().val() != m) {
            bad("shape", "random expression has the wrong shape");
         }
      } else if(e.size().val() != n) {
         bad("shape", "random expression has the wrong size");
      }
      in_range(get(e), r, z, "random expression");
      in_range(get(e), r, z, "random expression evaluated again");
      if(s.a[5] & 1) {
         if constexpr(requires { e.rows(); }) {
            A2 t(e);
            in_range(get(t), r, z, "Array2D from a random expression");
            b.resize_and_assign(e);
            mb = get(b);
            br = n;
            bc = m;
            if(static_cast<long>(mb.size()) != n * m) {
               bad("shape", "array from a random expression has the wrong shape");
            }
            in_range(mb, r, z, "Array2D assigned from a random expression");
         } else {
            A1 t(e);
            in_range(get(t), r, z, "Array1D from a random expression");
            a.resize_and_assign(e);
            ma = get(a);
            if(static_cast<long>(ma.size()) != n) {
               bad("shape", "array from a random expression has the wrong size");
            }
            in_range(ma, r, z, "Array1D assigned from a random expression");
         }
      }
   }
   void op_expr1_(const Step& s) {
      bool z;
      Bounds r = pick(s, z);
      S lo{r.lo}, hi{r.hi};
      long n = R(s.a[4], 20);
      bool ok = attempt([&] {
         if constexpr(!real) {
            if(s.a[6] & 1) {
               use_expr(s, r, z, spp::random<T>(spp::Size{n}), n, 0);
            } else {
               use_expr(s, r, z, spp::random<T>(n), n, 0);
            }
         } else if(z) {
            switch(R(s.a[0], 3)) {
            case 0:
               return use_expr(s, r, z, spp::random_not0<T>(n, lo, hi), n, 0);
            case 1:
               return use_expr(s, r, z, spp::random_not0<T>(spp::Size{n}, spp::Low<T>{r.lo}, spp::High<T>{r.hi}), n, 0);
            default:
               return use_expr(s, r, z, spp::random_not0<T>(n), n, 0);
            }
         } else {
            switch(R(s.a[0], 3)) {
            case 0:
               return use_expr(s, r, z, spp::random<T>(n, lo, hi), n, 0);
            case 1:
               return use_expr(s, r, z, spp::random<T>(spp::Size{n}, spp::Low<T>{r.lo}, spp::High<T>{r.hi}), n, 0);
            default:
               return use_expr(s, r, z, spp::random<T>(spp::Size{n}), n, 0);
            }
         }
      });
      seen(s, r, ok, ma);
      unchanged("by a random expression");
   }
   void op_expr2_(const Step& s) {
      bool z;
      Bounds r = pick(s, z);
      S lo{r.lo}, hi{r.hi};
      long n = R(s.a[4], 6), m = n ? 1 + R(s.a[6], 6) : 0;
      bool ok = attempt([&] {
         if constexpr(!real) {
            use_expr(s, r, z, spp::random<T>(n, m), n, m);
         } else if(z) {
            switch(R(s.a[0], 3)) {
            case 0:
               return use_expr(s, r, z, spp::random_not0<T>(n, m, lo, hi), n, m);
            case 1:
               return use_expr(s, r, z,
                               spp::random_not0<T>(spp::Rows{n}, spp::Cols{m}, spp::Low<T>{r.lo}, spp::High<T>{r.hi}), n, m);
            default:
               return use_expr(s, r, z, spp::random_not0<T>(spp::Rows{n}, spp::Cols{m}), n, m);
            }
         } else {
            switch(R(s.a[0], 3)) {
            case 0:
               return use_expr(s, r, z, spp::random<T>(n, m, lo, hi), n, m);
            case 1:
               return use_expr(s, r, z,
                               spp::random<T>(spp::Rows{n}, spp::Cols{m}, spp::Low<T>{r.lo}, spp::High<T>{r.hi}), n, m);
            default:
               return use_expr(s, r, z, spp::random<T>(spp::Rows{n}, spp::Cols{m}), n, m);
            }
         }
      });
      seen(s, r, ok, mb);
      unchanged("by a random expression");
   }
   // Long series under varying entropy.
   void op_cover_(const Step& s) {
      bool z;
      Bounds r = pick(s, z);
      entropy::fail_at(0, false);
      entropy::set(entropy::Random, static_cast<uint64_t>(s.a[5]));
      V v;
      A1 t(400);
      if(s.a[4] & 1) {
         fill(t, s.a[0], r, z);
         v = get(t);
      } else {
         for(int i = 0; i < 400; ++i) {
            if constexpr(!real) {
               v.push_back(spp::rands<T>().val());
            } else if(z) {
               v.push_back(spp::rands_not0(S{r.lo}, S{r.hi}).val());
            } else {
               v.push_back(spp::rands(S{r.lo}, S{r.hi}).val());
            }
         }
      }
      in_range(v, r, z, "long series");
      covers(v, r, z, "long series");
      seen(s, r, true, v);
      unchanged("by a long series");
   }
   // Different entropy, different numbers.
   void op_vary_(const Step& s) {
      bool z;
      Bounds r = pick(s, z);
      bool wide = floating ? !(r.lo == r.hi) : !r.small;
      A1 t(64), u(64);
      entropy::fail_at(0, false);
      entropy::set(entropy::Random, static_cast<uint64_t>(s.a[5]));
      fill(t, s.a[0], r, z);
      entropy::set(entropy::Random, static_cast<uint64_t>(s.a[5]) + 1);
      fill(u, s.a[0], r, z);
      V x = get(t), y = get(u);
      if(wide || (r.lo != r.hi && !z)) {
         if(eq(x, y)) {
            bad("vary", "two fills of 64 elements under different entropy are identical");
         }
         bool varied = false;
         for(T e : x) {
            varied = varied || !(e == x[0]);
         }
         if(!varied) {
            bad("vary", "a fill of 64 elements is constant");
         }
      }
      seen(s, r, true, x);
   }
   // Unordered, or (only for the forms without zero) nothing but zero.
   static Bounds bad_bounds(const Step& s, bool zero) {
      using L = std::numeric_limits<T>;
      if(zero && (s.a[1] & 2)) {
         if constexpr(floating) {
            if(s.a[1] & 4) {
               return {s.a[1] & 8 ? -T(0) : T(0), s.a[1] & 8 ? T(0) : -T(0), true};
            }
         }
         return {T(0), T(0), true};
      }
      switch(R(s.a[2], floating ? 7 : 5)) {
      case 0:
         return {T(3), T(2), true};
      case 1:
         return {T(1), T(0), true};
      case 2:
         return {std::is_unsigned_v<T> ? T(7) : T(0), std::is_unsigned_v<T> ? T(0) : T(-1), true};
      case 3:
         return {floating ? T(1e30) : L::max(), std::is_unsigned_v<T> ? T(1) : T(-5), true};
      case 4:
         return {T(R(s.a[3], 100) + 1), T(R(s.a[3], 100) - R(s.a[4], std::is_unsigned_v<T> ? R(s.a[3], 100) + 1 : 50)), true};
      case 5:
         return {T(__builtin_nan("")), T(1), true};
      default:
         return {T(0), T(__builtin_nan("")), true};
      }
   }
   void op_invalid_(const Step& s) {
      if constexpr(real) {
         bool zero = s.a[1] & 1;
         Bounds r = bad_bounds(s, zero);
         S lo{r.lo}, hi{r.hi};
         bool threw = false;
         try {
            switch(R(s.a[0], 10)) {
            case 0:
               zero ? spp::random_not0(a, lo, hi) : spp::random(a, lo, hi);
               break;
            case 1:
               zero ? spp::random_not0(b, lo, hi) : spp::random(b, lo, hi);
               break;
            case 2:
               (void)(zero ? spp::rands_not0(lo, hi) : spp::rands(lo, hi));
               break;
            case 3:
               if(zero) {
                  (void)spp::random_not0<T>(4, lo, hi);
               } else {
                  (void)spp::random<T>(4, lo, hi);
               }
               break;
            case 4:
               if(zero) {
                  (void)spp::random_not0<T>(4, 3, lo, hi);
               } else {
                  (void)spp::random<T>(4, 3, lo, hi);
               }
               break;
            case 5:
               zero ? spp::random_not0(a, b, lo, hi) : spp::random(a, b, lo, hi);
               break;
            case 6:
               (void)(zero ? spp::rands_not0(spp::Low<T>{r.lo}, spp::High<T>{r.hi}) : spp::rands(spp::Low<T>{r.lo}, spp::High<T>{r.hi}));
               break;
            case 7:
               if(zero) {
                  (void)spp::random_not0<T>(spp::Rows{2}, spp::Cols{3}, spp::Low<T>{r.lo}, spp::High<T>{r.hi});
               } else {
                  (void)spp::random<T>(spp::Rows{2}, spp::Cols{3}, spp::Low<T>{r.lo}, spp::High<T>{r.hi});
               }
               break;
            case 8:
               zero ? spp::random_not0(a, b, spp::Low<T>{r.lo}, spp::High<T>{r.hi})
                    : spp::random(a, b, spp::Low<T>{r.lo}, spp::High<T>{r.hi});
               break;
            default:
               zero ? spp::random_not0(a, spp::Low<T>{r.lo}, spp::High<T>{r.hi})
                    : spp::random(a, spp::Low<T>{r.lo}, spp::High<T>{r.hi});
               break;
            }
         } catch(const spp::StrictException&) {
            threw = true;
         } catch(const std::system_error&) {
            threw = true;
         }
         if(!threw) {
            bad("accepted", "bounds [" + str(r.lo) + ", " + str(r.hi) + "] accepted");
         }
         SIM_COUNT("probe.invalid_rejected");
         seen(s, r, false, ma);
         unchanged("by a rejected call");
      }
   }

   // ---- shuffle -----------------------------------------------------------------------------------
   static V sorted(V v) {
      std::sort(v.begin(), v.end());
      return v;
   }
   void judge_shuffle(const V& now, V& model, bool ok, const char* what) {
      if(!ok && !eq(now, model)) {
         bad("target", std::string(what) + ": a failed shuffle changed the array");
      }
      if(!eq(sorted(now), sorted(model))) {
         bad("permutation", std::string(what) + ": the result is not a permutation");
      }
      model = now;
   }
   void op_shuffle_(const Step& s) {
      Bounds r{T(0), T(1), true};
      switch(R(s.a[0], 3)) {
      case 0: {
         bool ok = attempt([&] { spp::shuffle(a); });
         judge_shuffle(get(a), ma, ok, "shuffle(Array1D)");
         seen(s, r, ok, ma);
         break;
      }
      case 1: {
         bool ok = attempt([&] { spp::shuffle(b); });
         judge_shuffle(get(b), mb, ok, "shuffle(Array2D)");
         seen(s, r, ok, mb);
         break;
      }
      default: {
         bool ok = attempt([&] { spp::shuffle(f); });
         judge_shuffle(get(f), mf, ok, "shuffle(FixedArray1D)");
         seen(s, r, ok, mf);
         break;
      }
      }
      unchanged("although it was not shuffled");
   }
   void op_shuffle_part_(const Step& s) {
      Bounds r{T(0), T(1), true};
      std::vector<long> idx;
      bool two = false, ok = true;
      part(s, idx, two, [&](auto&& sl) { ok = attempt([&] { spp::shuffle(sl); }); });
      V now = two ? get(b) : get(a);
      V& model = two ? mb : ma;
      V sub, old, rest = now;
      for(long i : idx) {
         sub.push_back(now[static_cast<size_t>(i)]);
         old.push_back(model[static_cast<size_t>(i)]);
         rest[static_cast<size_t>(i)] = model[static_cast<size_t>(i)];
      }
      if(!eq(rest, model)) {
         bad("target", "shuffling a slice changed other elements");
      }
      judge_shuffle(sub, old, ok, "shuffle(slice)");
      model = now;
      seen(s, r, ok, sub);
      unchanged("although it was not shuffled");
   }
   void op_shuffle_cover_(const Step& s) {
      if constexpr(real) {
         Bounds r{T(0), T(1), true};
         entropy::fail_at(0, false);
         entropy::set(entropy::Random, static_cast<uint64_t>(s.a[5]));
         int n = static_cast<int>(2 + R(s.a[4], 6));
         bool hit[8][8] = {};
         std::set<uint64_t> orders;
         for(int k = 0; k < 300; ++k) {
            A1 t(n);
            for(int i = 0; i < n; ++i) {
               t[i] = S{static_cast<T>(i)};
            }
            if(s.a[0] & 1) {
               spp::shuffle(t.view1D());
            } else {
               spp::shuffle(t);
            }
            V v = get(t);
            for(int i = 0; i < n; ++i) {
               hit[static_cast<int>(v[static_cast<size_t>(i)])][i] = true;
            }
            orders.insert(h(v));
         }
         for(int i = 0; i < n; ++i) {
            for(int j = 0; j < n; ++j) {
               if(!hit[i][j]) {
                  bad("coverage", "in 300 shuffles of " + std::to_string(n) + " elements, element "
                                      + std::to_string(i) + " never reached position " + std::to_string(j));
               }
            }
         }
         if((n == 2 && orders.size() < 2) || (n == 3 && orders.size() < 6) || (n > 3 && orders.size() < 20)) {
            bad("coverage", "300 shuffles of " + std::to_string(n) + " elements give only "
                                + std::to_string(orders.size()) + " orders");
         }
         seen(s, r, true, V{static_cast<T>(n)});
      }
   }

   // ---- semi-random -------------------------------------------------------------------------------
   void remember(const Step& s, uint64_t key, const V& v, const char* what) {
      auto [it, fresh] = memo.emplace(mix2(key, static_cast<uint64_t>(s.op)), v);
      if(!fresh) {
         SIM_COUNT("probe.semi_repeated");
         if(!eq(it->second, v)) {
            bad("reproducible", std::string(what) + " gives different numbers for the same arguments");
         }
      }
   }
   uint64_t key_of(const Bounds& r, bool z, int64_t form, uint64_t seed, long n, long m) {
      uint64_t k = mix2(h(V{r.lo, r.hi}), static_cast<uint64_t>(R(form, 3) * 2 + z));
      return mix2(mix2(k, seed), mix2(static_cast<uint64_t>(n), static_cast<uint64_t>(m)));
   }
   static unsigned seed_of(const Step& s) {
      static const unsigned sd[] = {0, 1, 2, 3, 42, 1000, 42948, 42949, 42950, 100000, 4294967295u, 2147483648u};
      int64_t k = R(s.a[5], 24);
      return k < 12 ? sd[k] : static_cast<unsigned>(R(s.a[5] / 24, 50));
   }
   template <class X>
   void semi_fill_of(X&& x, int64_t form, const Bounds& r, bool z, unsigned seed) {
      S lo{r.lo}, hi{r.hi};
      if constexpr(!real) {
         spp::semi_random(x);
      } else if(z) {
         switch(R(form, 3)) {
         case 0:
            return spp::semi_random_not0(x, lo, hi, spp::Seed{seed});
         case 1:
            return spp::semi_random_not0(x, spp::Low<T>{r.lo}, spp::High<T>{r.hi}, spp::Seed{seed});
         default:
            return spp::semi_random_not0(x);
         }
      } else {
         switch(R(form, 3)) {
         case 0:
            return spp::semi_random(x, lo, hi, spp::Seed{seed});
         case 1:
            return spp::semi_random(x, spp::Low<T>{r.lo}, spp::High<T>{r.hi}, spp::Seed{seed});
         default:
            return spp::semi_random(x);
         }
      }
   }
   void op_semi_fill_(const Step& s) {
      bool z;
      Bounds r = pick(s, z);
      unsigned seed = seed_of(s);
      attempt([&] {
         switch(R(s.a[4], 4)) {
         case 0:
            semi_fill_of(b, s.a[0], r, z, seed);
            mb = get(b);
            in_range(mb, r, z, "semi_random(Array2D)");
            remember(s, key_of(r, z, s.a[0], R(s.a[0], 3) == 2 ? 0 : seed, br, bc), mb, "semi_random(Array2D)");
            seen(s, r, true, mb);
            break;
         case 1: {
            V keep = ma;
            semi_fill_of(a(spp::place::even), s.a[0], r, z, seed);
            V now = get(a), sub;
            for(size_t i = 0; i < now.size(); ++i) {
               if(i % 2) {
                  if(!(now[i] == keep[i])) {
                     bad("target", "filling a slice changed other elements");
                  }
               } else {
                  sub.push_back(now[i]);
               }
            }
            ma = now;
            in_range(sub, r, z, "semi_random(slice)");
            remember(s, key_of(r, z, s.a[0], R(s.a[0], 3) == 2 ? 0 : seed, static_cast<long>(sub.size()), -1), sub,
                     "semi_random(slice)");
            seen(s, r, true, sub);
            break;
         }
         default:
            semi_fill_of(a, s.a[0], r, z, seed);
            ma = get(a);
            in_range(ma, r, z, "semi_random(Array1D)");
            remember(s, key_of(r, z, s.a[0], R(s.a[0], 3) == 2 ? 0 : seed, static_cast<long>(ma.size()), -1), ma,
                     "semi_random(Array1D)");
            seen(s, r, true, ma);
         }
      });
      unchanged("although it was not the target");
   }
   void op_semi_scalar_(const Step& s) {
      bool z;
      Bounds r = pick(s, z);
      unsigned seed = seed_of(s);
      S lo{r.lo}, hi{r.hi};
      spp::Seed sd{seed};
      T v{};
      attempt([&] {
         if constexpr(!real) {
            v = spp::semi_rands<T>(sd).val();
         } else if(z) {
            v = (R(s.a[0], 3) == 0   ? spp::semi_rands_not0(lo, hi, sd)
                 : R(s.a[0], 3) == 1 ? spp::semi_rands_not0(spp::Low<T>{r.lo}, spp::High<T>{r.hi}, sd)
                                     : spp::semi_rands_not0<T>(sd))
                   .val();
         } else {
            v = (R(s.a[0], 3) == 0   ? spp::semi_rands(lo, hi, sd)
                 : R(s.a[0], 3) == 1 ? spp::semi_rands(spp::Low<T>{r.lo}, spp::High<T>{r.hi}, sd)
                                     : spp::semi_rands<T>(sd))
                   .val();
         }
      });
      in_range(V{v}, r, z, "semi_rands");
      remember(s, key_of(r, z, s.a[0], seed, 0, 0), V{v}, "semi_rands");
      seen(s, r, true, V{v});
      unchanged("by a scalar draw");
   }
   void semi_use(const Step& s, const Bounds& r, bool z, auto&& e, long n, long m, unsigned seed) {
      long rows = n, cols = m;
      if constexpr(requires { e.rows(); }) {
         if(e.rows().val() != n || e.cols().val() != m) {
            bad("shape", "semi-random expression has the wrong shape");
         }
      } else if(e.size().val() != n) {
         bad("shape", "semi-random expression has the wrong size");
      }
      V v;
      if constexpr(requires { e.rows(); }) {
         A2 t(e);
         v = get(t);
      } else {
         A1 t(e);
         v = get(t);
      }
      in_range(v, r, z, "semi-random expression");
      remember(s, key_of(r, z, s.a[0], seed, rows, cols), v, "semi-random expression");
      seen(s, r, true, v);
   }
   void op_semi_expr_(const Step& s) {
      bool z;
      Bounds r = pick(s, z);
      unsigned seed = seed_of(s);
      S lo{r.lo}, hi{r.hi};
      spp::Seed sd{seed};
      long n = R(s.a[4], 12), m = n ? 1 + R(s.a[6], 5) : 0;
      bool two = s.a[7] & 1;
      attempt([&] {
         if constexpr(!real) {
            if(two) {
               semi_use(s, r, z, spp::semi_random<T>(n, m, sd), n, m, seed);
            } else {
               semi_use(s, r, z, spp::semi_random<T>(n, sd), n, -1, seed);
            }
         } else {
            spp::Low<T> l{r.lo};
            spp::High<T> hh{r.hi};
            switch(R(s.a[0], 3) * 4 + two * 2 + z) {
            case 0:
               return semi_use(s, r, z, spp::semi_random<T>(n, lo, hi, sd), n, -1, seed);
            case 1:
               return semi_use(s, r, z, spp::semi_random_not0<T>(n, lo, hi, sd), n, -1, seed);
            case 2:
               return semi_use(s, r, z, spp::semi_random<T>(n, m, lo, hi, sd), n, m, seed);
            case 3:
               return semi_use(s, r, z, spp::semi_random_not0<T>(n, m, lo, hi, sd), n, m, seed);
            case 4:
               return semi_use(s, r, z, spp::semi_random<T>(spp::Size{n}, l, hh, sd), n, -1, seed);
            case 5:
               return semi_use(s, r, z, spp::semi_random_not0<T>(spp::Size{n}, l, hh, sd), n, -1, seed);
            case 6:
               return semi_use(s, r, z, spp::semi_random<T>(spp::Rows{n}, spp::Cols{m}, l, hh, sd), n, m, seed);
            case 7:
               return semi_use(s, r, z, spp::semi_random_not0<T>(spp::Rows{n}, spp::Cols{m}, l, hh, sd), n, m, seed);
            case 8:
               return semi_use(s, r, z, spp::semi_random<T>(spp::Size{n}, sd), n, -1, seed);
            case 9:
               return semi_use(s, r, z, spp::semi_random_not0<T>(spp::Size{n}, sd), n, -1, seed);
            case 10:
               return semi_use(s, r, z, spp::semi_random<T>(spp::Rows{n}, spp::Cols{m}, sd), n, m, seed);
            default:
               return semi_use(s, r, z, spp::semi_random_not0<T>(spp::Rows{n}, spp::Cols{m}, sd), n, m, seed);
            }
         }
      });
      unchanged("by a semi-random expression");
   }
   void op_semi_cover_(const Step& s) {
      bool z;
      Bounds r = pick(s, z);
      unsigned seed = seed_of(s);
      A1 t(2000);
      attempt([&] { semi_fill_of(t, s.a[0], r, z, seed); });
      V v = get(t);
      in_range(v, r, z, "long semi-random fill");
      covers(v, r, z, "long semi-random fill");
      if constexpr(floating) {
         // The generator state is a permutation of its start, so neighbouring seeds never coincide.
         if(R(s.a[0], 3) != 2 && !r.odd && r.hi - r.lo >= T(1) / T(16)) {
            A1 u(2000);
            attempt([&] { semi_fill_of(u, s.a[0], r, z, seed + 1); });
            if(eq(get(u), v)) {
               bad("seed", "neighbouring seeds give the same 2000 numbers");
            }
         }
      }
      seen(s, r, true, v);
   }
   void op_semi_invalid_(const Step& s) {
      if constexpr(real) {
         bool zero = s.a[1] & 1;
         Bounds r = bad_bounds(s, zero);
         S lo{r.lo}, hi{r.hi};
         bool threw = false;
         try {
            const spp::Low<T> l{r.lo};
            const spp::High<T> h{r.hi};
            switch(R(s.a[0], 9)) {
            case 0:
               zero ? spp::semi_random_not0(a, lo, hi) : spp::semi_random(a, lo, hi);
               break;
            case 1:
               zero ? spp::semi_random_not0(b, lo, hi) : spp::semi_random(b, lo, hi);
               break;
            case 2:
               (void)(zero ? spp::semi_rands_not0(lo, hi) : spp::semi_rands(lo, hi));
               break;
            case 3:
               (void)(zero ? spp::semi_rands_not0(l, h) : spp::semi_rands(l, h));
               break;
            case 4:
               zero ? spp::semi_random_not0(a, l, h) : spp::semi_random(a, l, h);
               break;
            case 5:
               if(zero) {
                  (void)spp::semi_random_not0<T>(4, 3, lo, hi);
               } else {
                  (void)spp::semi_random<T>(4, 3, lo, hi);
               }
               break;
            case 6:
               if(zero) {
                  (void)spp::semi_random_not0<T>(spp::Rows{2}, spp::Cols{3}, l, h);
               } else {
                  (void)spp::semi_random<T>(spp::Rows{2}, spp::Cols{3}, l, h);
               }
               break;
            case 7:
               if(zero) {
                  (void)spp::semi_random_not0<T>(spp::Size{3}, l, h);
               } else {
                  (void)spp::semi_random<T>(spp::Size{3}, l, h);
               }
               break;
            default:
               if(zero) {
                  (void)spp::semi_random_not0<T>(4, lo, hi);
               } else {
                  (void)spp::semi_random<T>(4, lo, hi);
               }
               break;
            }
         } catch(const spp::StrictException&) {
            threw = true;
         }
         if(!threw) {
            bad("accepted", "bounds [" + str(r.lo) + ", " + str(r.hi) + "] accepted");
         }
         SIM_COUNT("probe.invalid_rejected");
         seen(s, r, false, ma);
         unchanged("by a rejected call");
      }
   }

   void op_preset_(const Step& s) {
      static const long sizes[] = {0, 1, 2, 3, 5, 8, 13, 30};
      auto make = [&](A1& x, V& m, long n, int64_t base) {
         A1 t(n);
         m.clear();
         for(long i = 0; i < n; ++i) {
            T v = static_cast<T>((base + i * 3) % 97 + 5);
            t[i] = S{v};
            m.push_back(v);
         }
         x.swap(t);
      };
      make(a, ma, sizes[R(s.a[0], 8)], R(s.a[1], 90));
      make(c, mc, sizes[R(s.a[2], 5)], R(s.a[3], 90));
      br = sizes[R(s.a[4], 5)];
      bc = br ? 1 + R(s.a[5], 5) : 0;
      A2 t(br, bc);
      mb.clear();
      for(long i = 0; i < br; ++i) {
         for(long j = 0; j < bc; ++j) {
            T v = static_cast<T>((s.a[6] + i * 7 + j) % 91 + 5);
            t.un(i, j) = S{v};
            mb.push_back(v);
         }
      }
      b.swap(t);
      unchanged("after setting up");
   }

   void run(const Plan& p) {
      prop = p.prop;
      sim_time[7] = static_cast<char>('0' + R(p.cfg[1], 10));
      entropy::set(entropy::Counter, p.seed);
      entropy::fail_at(0, false);
      int i = 0;
      for(auto& s : p.steps) {
         set_step(i++);
         log_u64(static_cast<uint64_t>(s.op));
         switch(s.op) {
         case op_device:
            entropy::set(static_cast<entropy::Kind>(R(s.a[0], entropy::Kinds)), static_cast<uint64_t>(s.a[1]));
            continue;
         case op_device_fail:
            entropy::fail_at(1 + R(s.a[0], 4), s.a[1] & 1);
            continue;
#define X(n) \
   case op_##n: \
      op_##n##_(s); \
      break;
            X(fill1) X(fill2) X(fill_many) X(fill_slice) X(scalar) X(expr1) X(expr2) X(cover) X(vary) X(invalid)
            X(shuffle) X(shuffle_part) X(shuffle_cover) X(semi_fill) X(semi_scalar) X(semi_expr) X(semi_cover)
            X(semi_invalid)
#undef X
         case op_preset_arrays:
            op_preset_(s);
            break;
         default:
            break;
         }
         entropy::fail_at(0, false);
      }
   }
};

} // namespace sim::rnd
