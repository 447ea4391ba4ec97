// Harness "num": a register machine over Strict<T> (C25), arrays of arbitrary values under element-wise expressions
// (C26), compensated algorithms on ill-conditioned data (C27).
#pragma once
#include "alloc.hpp"
#include "asserts.hpp"
#include "core.hpp"
#include <cmath>
#include <cstdint>
#include <limits>
#include <new>
#include <string>
#include <type_traits>
#include <vector>
#include <strictpp/strict.hpp>
#ifdef STRICT_QUAD_PRECISION
#include <quadmath.h>
#endif

namespace sim::num {

enum Op : int {
#define X(n) op_##n,
#include "num_ops.inc"
#undef X
   op_count
};

using namespace spp::literals;
#ifdef SIM_ASSERTS
using Refused = AssertFailed;
#else
using Refused = spp::StrictException;
#endif

template <class T>
constexpr bool is_quad = std::is_same_v<T, __float128>;
template <class T>
constexpr bool is_flt = is_quad<T> || std::is_floating_point_v<T>;
template <class T>
constexpr bool is_int = std::is_integral_v<T> && !std::is_same_v<T, bool>;
template <class T>
constexpr bool is_sint = is_int<T> && std::is_signed_v<T>;

// Significant bits and extreme exponents of a floating-point type.
template <class T>
constexpr int digits() {
   return is_quad<T> ? 113 : std::numeric_limits<T>::digits;
}
template <class T>
constexpr int maxexp() {
   return is_quad<T> ? 16384 : std::numeric_limits<T>::max_exponent;
}

template <class T>
bool neg(T x) { // sign bit
   if constexpr(is_flt<T>) {
      return static_cast<bool>(__builtin_copysignl(1.0L, static_cast<long double>(x)) < 0);
   } else {
      return x < T(0);
   }
}
// The same value: NaN equals NaN, the zeros differ.
template <class T>
bool same(T a, T b) {
   if constexpr(is_flt<T>) {
      if(a != a || b != b) {
         return a != a && b != b;
      }
      return a == b && neg(a) == neg(b);
   } else {
      return a == b;
   }
}
template <class T>
uint64_t bits(T x) {
   if constexpr(is_flt<T>) {
      if(x != x) {
         return 77;
      }
      auto l = static_cast<long double>(x);
      double d = static_cast<double>(l);
      double e = static_cast<double>(l - static_cast<long double>(d));
      return mix2(hash_bytes(&d, 8), hash_bytes(&e, 8));
   } else {
      return mix64(static_cast<uint64_t>(x));
   }
}
template <class T>
std::string show(T x) {
   char b[80];
   if constexpr(is_flt<T>) {
      snprintf(b, sizeof b, "%.21Lg", static_cast<long double>(x));
   } else if constexpr(is_sint<T>) {
      snprintf(b, sizeof b, "%ld", static_cast<long>(x));
   } else {
      snprintf(b, sizeof b, "%lu", static_cast<unsigned long>(x));
   }
   return b;
}
template <class T>
T scale(T x, int e) { // x * 2^e
   for(; e > 0; --e) {
      x *= T(2);
   }
   for(; e < 0; ++e) {
      x /= T(2);
   }
   return x;
}
template <class T>
T mantissa(uint64_t h) { // in [1, 2)
   uint64_t g = mix64(h + 5);
   T x = T(1) + scale(T(static_cast<double>(h >> 32)), -32);
   if constexpr(digits<T>() > 32) {
      x += scale(T(static_cast<double>(g >> 33)), -63);
   }
   if constexpr(digits<T>() > 64) {
      x += scale(T(static_cast<double>(mix64(g) >> 15)), -112);
   }
   return x < T(2) ? x : T(1);
}
template <class T>
T extreme(int k) {
   T big = scale(T(1), maxexp<T>() - 1);
   T eps = scale(T(1), 1 - digits<T>());
   switch(k % 6) {
   case 0:
      return big * (T(2) - eps);
   case 1:
      return scale(T(1), 2 - maxexp<T>() - 1); // smallest normal
   case 2:
      return scale(T(1), 2 - maxexp<T>() - digits<T>()); // smallest subnormal
   case 3:
      return eps;
   case 4:
      return T(1) + eps;
   default:
      return T(1) - eps / T(2);
   }
}

// A value of a kind; kinds 0-4 are harmless, the others reach for the edges of the type.
template <class T>
T draw(int64_t kind, int64_t v) {
   uint64_t h = mix64(static_cast<uint64_t>(v));
   if constexpr(std::is_same_v<T, bool>) {
      return (h & 1) != 0;
   } else if constexpr(is_int<T>) {
      constexpr int w = static_cast<int>(sizeof(T)) * 8;
      switch(R(kind, 12)) {
      case 0:
         return T(0);
      case 1:
         return T(1);
      case 2:
         return static_cast<T>(is_sint<T> ? static_cast<long>(h % 7) - 3 : static_cast<long>(h % 7));
      case 3:
      case 4:
         return static_cast<T>(is_sint<T> ? static_cast<long>(h % 200) - 100 : static_cast<long>(h % 200));
      case 5:
         return static_cast<T>(static_cast<long>(h % 60000) - (is_sint<T> ? 30000 : 0));
      case 6:
         return static_cast<T>(T(1) << (h % static_cast<uint64_t>(w - 1)));
      case 7:
         return static_cast<T>((T(1) << (h % static_cast<uint64_t>(w - 1))) - 1);
      case 8:
         return std::numeric_limits<T>::max();
      case 9:
         return std::numeric_limits<T>::min();
      case 10:
         return static_cast<T>(~T(0));
      default:
         return static_cast<T>(h);
      }
   } else {
      T s = (h >> 60) & 1 ? T(-1) : T(1);
      switch(R(kind, 14)) {
      case 0:
         return T(0);
      case 1:
         return s;
      case 2:
         return T(static_cast<int>(h % 41) - 20);
      case 3:
         return s * scale(T(static_cast<int>(h % 1000)), -static_cast<int>(h / 1000 % 6));
      case 4:
         return s * scale(mantissa<T>(h), static_cast<int>(h % 7) - 3);
      case 5:
         return s * scale(mantissa<T>(h), static_cast<int>(h % 81) - 40);
      case 6:
         return s * T(static_cast<int>(h % 100)) / T(10);
      case 7:
         return -T(0);
      case 8:
         return s * scale(mantissa<T>(h), static_cast<int>(h % static_cast<uint64_t>(2 * maxexp<T>() - 4)) - maxexp<T>() + 3);
      case 9:
         return s * (extreme<T>(0) * T(2)); // infinite
      case 10:
         return extreme<T>(0) * T(2) - extreme<T>(0) * T(2); // not a number
      case 11:
      case 12:
         return s * extreme<T>(static_cast<int>(h % 6));
      default:
         return s * T(static_cast<double>(h >> 12));
      }
   }
}

// ---- builtin operations: false where the builtin operation is not defined ----------------------------
enum Bin { ADD, SUB, MUL, DIV, MOD, SHL, SHR, AND, OR, XOR };

template <class T>
bool builtin_bin(int o, T a, T b, T& r) {
   if constexpr(is_flt<T>) {
      switch(o) {
      case ADD:
         r = a + b;
         return true;
      case SUB:
         r = a - b;
         return true;
      case MUL:
         r = a * b;
         return true;
      case DIV:
         r = a / b;
         return true;
      default:
         return false;
      }
   } else if constexpr(is_int<T>) {
      constexpr auto w = static_cast<T>(sizeof(T) * 8);
      bool over = false;
      switch(o) {
      case ADD:
         over = __builtin_add_overflow(a, b, &r);
         return !over || !is_sint<T>;
      case SUB:
         over = __builtin_sub_overflow(a, b, &r);
         return !over || !is_sint<T>;
      case MUL:
         over = __builtin_mul_overflow(a, b, &r);
         return !over || !is_sint<T>;
      case DIV:
      case MOD:
         if(b == 0 || (is_sint<T> && b == static_cast<T>(-1) && a == std::numeric_limits<T>::min())) {
            return false;
         }
         r = o == DIV ? static_cast<T>(a / b) : static_cast<T>(a % b);
         return true;
      case SHL:
      case SHR:
         if(b >= w || a < T(0) || b < T(0)) {
            return false;
         }
         r = o == SHL ? static_cast<T>(a << b) : static_cast<T>(a >> b);
         return true;
      case AND:
         r = static_cast<T>(a & b);
         return true;
      case OR:
         r = static_cast<T>(a | b);
         return true;
      default:
         r = static_cast<T>(a ^ b);
         return true;
      }
   } else {
      return false;
   }
}

// Whether the conversion of x to U is defined.
template <class U, class T>
bool convertible(T x) {
   if constexpr(is_flt<T> && is_int<U>) {
      if(x != x) {
         return false;
      }
      auto l = static_cast<long double>(x);
      auto lo = static_cast<long double>(std::numeric_limits<U>::min());
      auto hi = static_cast<long double>(std::numeric_limits<U>::max());
      return l > lo - (is_sint<U> ? 0.5L : 0.9L) && l <= hi && (sizeof(U) < 8 || l < 9.2e18L);
   } else if constexpr(is_flt<T> && is_flt<U> && digits<U>() < digits<T>()) {
      // Overflow of a finite value is not defined either.
      return x != x || x > extreme<T>(0) || x < -extreme<T>(0)
          || (x <= static_cast<T>(extreme<U>(0)) && x >= -static_cast<T>(extreme<U>(0)));
   } else {
      return true;
   }
}

template <class T>
T absolute(T x) {
   if constexpr(is_flt<T>) {
      return neg(x) ? -x : x;
   } else if constexpr(is_sint<T>) {
      return x < 0 ? static_cast<T>(-x) : x;
   } else {
      return x;
   }
}
template <class T>
bool whole_abs(T x) { // |x| exists
   if constexpr(is_sint<T>) {
      return x != std::numeric_limits<T>::min();
   } else {
      return true;
   }
}

#ifdef STRICT_QUAD_PRECISION
#define NUM_Q(n, x) \
   if constexpr(is_quad<T>) { \
      return n##q(x); \
   } else
#else
#define NUM_Q(n, x)
#endif
// exp log log2 log10 sqrt cbrt sin cos tan floor ceil
template <class T>
T library_math(int k, T x) {
   switch(k) {
#define M(i, n) \
   case i: \
      NUM_Q(n, x) { \
         return std::n(x); \
      }
      M(0, exp)
      M(1, log)
      M(2, log2)
      M(3, log10)
      M(4, sqrt)
      M(5, cbrt)
      M(6, sin)
      M(7, cos)
      M(8, tan)
      M(9, floor)
   default:
      NUM_Q(ceil, x) {
         return std::ceil(x);
      }
#undef M
   }
}
template <class T>
T library_pow(T x, T y) {
#ifdef STRICT_QUAD_PRECISION
   if constexpr(is_quad<T>) {
      return powq(x, y);
   } else
#endif
      return std::pow(x, y);
}
template <class T>
T library_fma(T x, T y, T z) {
#ifdef STRICT_QUAD_PRECISION
   if constexpr(is_quad<T>) {
      return fmaq(x, y, z);
   } else
#endif
      return std::fma(x, y, z);
}

using Wide = __float128;
inline Wide wabs(Wide x) {
   return x < 0 ? -x : x;
}

} // namespace sim::num
