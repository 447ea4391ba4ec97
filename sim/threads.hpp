// Harness "threads": several threads use the library under a simulated scheduler (C15, C20).
#pragma once
#include "core.hpp"
#include "thr.hpp"

#ifdef STRICT_QUAD_PRECISION
#include <quadmath.h>
#include <cstddef>
namespace sim {
template <class... A>
int traced_quadmath_snprintf(char* b, size_t n, const char* f, A... a) {
   int k = ::quadmath_snprintf(b, n, f, a...);
   if(n && k >= 0) {
      thr::wrote(b, static_cast<size_t>(k) < n ? static_cast<size_t>(k) + 1 : n);
   }
   return k;
}
} // namespace sim
#define quadmath_snprintf ::sim::traced_quadmath_snprintf
#endif

#include <strictpp/strict.hpp>
#include <sstream>
#include <string>
#include <vector>

namespace sim::threads {

enum Op : int {
#define X(n) op_##n,
#include "threads_ops.inc"
#undef X
   op_count
};

// The simulated console (h_threads_main.cpp, not instrumented).
struct Piece {
   int who, call;
   size_t at, n;
};
struct Console {
   char text[1 << 17];
   size_t used;
   Piece piece[8192];
   size_t pieces;
   bool overflow;
   int call[thr::MAX]; // what each thread is doing
};
Console& console();

// What a run reports to the parent process (shared memory).
struct Report {
   bool done, failed;
   char cls[64], msg[1200];
   uint64_t log, schedule, switches, events, blocked, ops, faults, failures, compared;
};
Report& report();
std::string scratch();

struct Bad {
   std::string cls, msg;
};
[[noreturn]] inline void bad(const std::string& c, const std::string& m) {
   throw Bad{c, m};
}

inline uint64_t hv(uint64_t h, const void* p, size_t n) {
   return hash_bytes(p, n, h);
}
template <class T>
uint64_t bits(T x) {
   if constexpr(std::is_same_v<T, long double>) {
      return hash_bytes(&x, 10);
   } else {
      return hash_bytes(&x, sizeof x);
   }
}

template <class T, spp::AlignmentFlag AF>
struct World {
   using S = spp::Strict<T>;
   using A1 = spp::Array1D<T, AF>;
   using A2 = spp::Array2D<T, AF>;
   static constexpr bool floating = spp::Floating<T>;
   static constexpr bool quad = sizeof(T) == 16 && floating && !std::is_same_v<T, long double>;

   static constexpr int PART = 7;
   // Read by every thread, written by none.
   struct Shared {
      A1 a, p, none;
      A2 m, none2;
      spp::FixedArray1D<T, 7> f;
      spp::FixedArray2D<T, 3, 4> g;
      std::vector<T> raw;
      std::string text1, text2;
      // Every thread writes a part of its own.
      mutable A1 parts;
      mutable A2 rows;
      static auto make1(const A1& x, const A1& y) {
         return x + y * x;
      }
      static auto make2(const A2& x) {
         return spp::transpose(x);
      }
      explicit Shared(const Plan& q) : a(5 + R(q.cfg[2], 20)), p(a.size().val()), m(1 + R(q.cfg[3], 5), 1 + R(q.cfg[4], 6)), parts(thr::MAX * PART), rows(thr::MAX, PART) {
         for(auto i : spp::irange(a)) {
            a.un(i) = val(q.cfg[5] + i.val() * 7);
            p.un(i) = val(q.cfg[6] + i.val() * 5);
         }
         for(long i = 0; i < m.size().val(); ++i) {
            m.un(i) = val(q.cfg[5] + i * 3);
         }
         for(int i = 0; i < 7; ++i) {
            f[i] = val(q.cfg[6] + i);
         }
         for(int i = 0; i < 12; ++i) {
            g.un(i) = val(q.cfg[5] + i * i);
         }
         for(int i = 0; i < 9; ++i) {
            raw.push_back(val(i * q.cfg[6]).val());
         }
         text1 = "1 2 3 4 5 6 7 8 9 10 11";
         text2 = "1 2 3\n4 5 6\n\n7 8 9\n";
      }
      static S val(int64_t x) {
         int64_t v = R(x, 41) - 20;
         v += v == 0;
         if constexpr(floating) {
            return S{static_cast<T>(v) / static_cast<T>(4)};
         } else {
            return S{static_cast<T>(v)};
         }
      }
   };

   struct Own {
      A1 a, b;
      A2 m;
      uint64_t h = 0;
      void reset(int tid) {
         A1 x(6 + tid);
         A1 y(6 + tid);
         for(auto i : spp::irange(x)) {
            x.un(i) = Shared::val(i.val() * 3 + tid);
            y.un(i) = Shared::val(i.val() * 11 + tid * 5);
         }
         A2 z(3, 2 + tid);
         for(long i = 0; i < z.size().val(); ++i) {
            z.un(i) = Shared::val(i * 13 + tid);
         }
         a.swap(x);
         b.swap(y);
         m.swap(z);
      }
      void add(uint64_t x) {
         h = mix2(h, x);
      }
      void add(const std::string& s) {
         h = mix2(h, hash_bytes(s.data(), s.size()));
      }
      void add_v(S x) {
         h = mix2(h, bits(x.val()));
      }
      void add_b(spp::StrictBool b) {
         h = mix2(h, b.val());
      }
      void add_a(const auto& x) {
         h = mix2(h, static_cast<uint64_t>(x.size().val()));
         if constexpr(requires { x.rows(); }) {
            h = mix2(h, static_cast<uint64_t>(x.rows().val()));
         }
         for(long i = 0; i < x.size().val(); ++i) {
            h = mix2(h, bits(x.un(i).val()));
         }
      }
   };

   static constexpr int MAXSTEP = 24;
   struct Program {
      int n = 0;
      const Step* step[MAXSTEP];
      uint64_t result[2][MAXSTEP];
      bool faulted[2][MAXSTEP];
      bool threw[2][MAXSTEP];
   };
   struct Ctx {
      Shared sh;
      const decltype(Shared::make1(std::declval<const A1&>(), std::declval<const A1&>())) e1;
      const decltype(Shared::make2(std::declval<const A2&>())) e2;
      Program prog[thr::MAX];
      const Plan& plan;
      int pass = 0;
      explicit Ctx(const Plan& q) : sh(q), e1{Shared::make1(sh.a, sh.p)}, e2{Shared::make2(sh.m)}, plan{q} {
      }
   };

   static std::string pad(std::string s) {
      return s;
   }

   static void do_op(int tid, Own& w, const Ctx& c, const Step& s) {
      const Shared& sh = c.sh;
      switch(s.op) {
      case op_build: {
         switch(R(s.a[1], 5)) {
         case 0: {
            A1 t(c.e1);
            w.add_a(t);
            w.a.swap(t);
            break;
         }
         case 1: {
            A2 t(c.e2);
            w.add_a(t);
            w.m.swap(t);
            break;
         }
         case 2: {
            A1 t(sh.f);
            w.add_a(t);
            break;
         }
         case 3: {
            A2 t(sh.g);
            w.add_a(t);
            break;
         }
         default: {
            const T* d = sh.raw.data();
            const auto v = spp::attach1D(d, static_cast<long>(sh.raw.size()));
            A1 t(v + v);
            w.add_a(t);
            break;
         }
         }
         break;
      }
      case op_expr: {
         switch(R(s.a[1], 6)) {
         case 0: {
            A1 t(w.a.size().val());
            t = w.a + w.b;
            w.add_a(t);
            break;
         }
         case 1:
            w.a += w.b;
            w.add_a(w.a);
            break;
         case 2: {
            if constexpr(std::is_unsigned_v<T>) {
               w.add_a(A1(sh.a - sh.p));
            } else {
               w.add_a(A1(spp::abs(sh.a) - sh.p));
            }
            break;
         }
         case 3: {
            if constexpr(std::is_unsigned_v<T>) {
               w.add_a(A1(sh.a * S{T(2)} + sh.p));
            } else {
               w.add_a(A1(-sh.a * S{T(2)} + sh.p));
            }
            break;
         }
         case 4:
            w.add_a(c.e1);
            break;
         default: {
            if constexpr(floating) {
               A1 t(spp::sin(sh.a) + spp::exp(sh.p / S{T(8)}));
               w.add_a(t);
            } else {
               A1 t(sh.a / sh.p);
               w.add_a(t);
            }
         }
         }
         break;
      }
      case op_reduce: {
         w.add_v(spp::sum(sh.a));
         w.add_v(spp::max(sh.a));
         w.add_v(spp::min(c.e1));
         w.add_v(spp::dot_prod(sh.a, sh.p));
         if constexpr(floating) {
            w.add_v(spp::norm_inf(sh.m));
            w.add_v(spp::norm1(c.e2));
         }
         w.add(static_cast<uint64_t>(spp::max_index(sh.a).first.val()));
         w.add(static_cast<uint64_t>(std::get<1>(spp::min_index(sh.m)).val()));
         w.add_v(spp::sum(w.a));
         if constexpr(floating) {
            w.add_v(spp::norm2(sh.a));
            w.add_v(spp::norm2_scaled(sh.m));
            w.add_v(spp::mean(sh.a));
            w.add_v(spp::norm_lp(sh.a, 3));
            w.add_v(spp::norm_lp_scaled(sh.p, 3));
         }
         break;
      }
      case op_sortit:
         R(s.a[1], 2) ? spp::sort_increasing(w.a) : spp::sort_decreasing(w.a);
         w.add_a(w.a);
         break;
      case op_resize:
         if(R(s.a[1], 2)) {
            w.a.resize(R(s.a[2], 30));
            w.b.resize(w.a.size());
            w.add_a(w.a);
         } else {
            w.m.resize(1 + R(s.a[2], 6), 1 + R(s.a[3], 6));
            w.add_a(w.m);
         }
         break;
      case op_edit:
         switch(R(s.a[1], 5)) {
         case 0:
            w.a.insert(0, sh.a);
            break;
         case 1:
            w.a.insert(R(s.a[2], w.a.size().val() + 1), Shared::val(s.a[3]));
            break;
         case 2:
            if(!w.a.empty()) {
               w.a.remove(R(s.a[2], w.a.size().val()));
            }
            break;
         case 3:
            w.a.resize_and_assign(c.e1);
            break;
         default:
            w.m.resize_and_assign(c.e2);
         }
         w.b.resize(w.a.size());
         w.add_a(w.a);
         w.add_a(w.m);
         break;
      case op_slices: {
         using namespace spp::place;
         w.add_a(sh.a(even));
         w.add_a(sh.a(odd));
         w.add_a(sh.a(reverse));
         w.add_a(sh.a(skipN{2 + R(s.a[1], 3)}));
         w.add_a(sh.m.row(R(s.a[1], sh.m.rows().val())));
         w.add_a(sh.m.col(R(s.a[2], sh.m.cols().val())));
         w.add_a(sh.f(firstN{3}));
         if(w.a.size().val() > 2) {
            w.a(lastN{2}) = Shared::val(s.a[3]);
            w.a(even) += Shared::val(s.a[4]);
         }
         w.add_a(w.a);
         break;
      }
      case op_views: {
         const A1& ca = sh.a;
         w.add_a(ca.view1D());
         w.add_a(sh.m.view1D());
         w.add_a(sh.g.view1D());
         w.add_a(sh.a.eval());
         w.add_a(spp::transpose(sh.m));
         w.add_a(w.m.view1D());
         break;
      }
      case op_iterate: {
         for(auto x : sh.a) {
            w.add_v(x);
         }
         for(auto it = sh.m.view1D(); auto x : it) {
            w.add_v(x);
         }
         for(auto x : c.e1) {
            w.add_v(x);
         }
         for(auto& x : w.a) {
            x += S{T(1)};
         }
         w.add_v(sh.a[spp::last]);
         w.add_v(sh.a.at(0));
         w.add_v(sh.g(1, 2));
         w.add_a(w.a);
         break;
      }
      case op_predicates:
         w.add_b(spp::has_zero(sh.a));
         w.add_b(spp::all_pos(sh.a));
         w.add_b(spp::all_of(sh.a, [](auto x) { return x != S{}; }));
         w.add_b(spp::any_of(c.e1, [](auto x) { return x < S{}; }));
         w.add_b(spp::none_of(sh.m, [](auto x) { return x == S{}; }));
         if constexpr(floating && !quad) {
            w.add_b(spp::all_finite(sh.a));
            w.add_b(spp::has_nan(sh.m));
         }
         break;
      case op_stable:
         if constexpr(floating) {
            w.add_v(spp::stable_sum(sh.a));
            w.add_v(spp::semi_stable_sum(c.e1));
            w.add_v(spp::stable_prod(sh.p));
            w.add_v(spp::stable_dot_prod(sh.a, sh.p));
            w.add_v(spp::stable_norm2(sh.m));
            w.add_v(spp::stable_norm1(sh.a));
            w.add_v(spp::stable_mean(sh.a));
         }
         break;
      case op_mat: {
         A1 x(sh.m.cols().val());
         for(auto i : spp::irange(x)) {
            x.un(i) = Shared::val(i.val() + s.a[1]);
         }
         A2 t(spp::tensor_prod(sh.a, sh.p));
         w.add_a(t);
         A2 u(spp::row_broadcast(sh.f));
         w.add_a(u);
         break;
      }
      case op_random: {
         constexpr int L = std::is_unsigned_v<T> ? 0 : -1;
         // The numbers themselves are nobody's business here: where they come from is unspecified.
         auto in = [&](const auto& x, int lo, int hi, bool not0) {
            uint64_t ok = 1;
            for(long i = 0; i < x.size().val(); ++i) {
               ok &= x.un(i).val() >= static_cast<T>(lo) && x.un(i).val() <= static_cast<T>(hi)
                   && !(not0 && x.un(i).val() == static_cast<T>(0));
            }
            w.add(ok);
            w.add(static_cast<uint64_t>(x.size().val()));
         };
         spp::random(w.a, S{T(L * 50)}, S{T(50)});
         in(w.a, L * 50, 50, false);
         spp::random_not0(w.m, S{T(L * 3)}, S{T(3)});
         in(w.m, L * 3, 3, true);
         A1 t(spp::random<T>(4, S{T(1)}, S{T(9)}));
         in(t, 1, 9, false);
         t.un(0) = spp::rands(S{T(0)}, S{T(100)});
         in(t, 0, 100, false);
         w.reset(tid);
         break;
      }
      case op_semi: {
         constexpr int L = std::is_unsigned_v<T> ? 0 : -1;
         spp::Seed sd{static_cast<unsigned>(R(s.a[1], 50))};
         spp::semi_random(w.a, S{T(L * 50)}, S{T(50)}, sd);
         w.add_a(w.a);
         w.add_v(spp::semi_rands(S{T(0)}, S{T(100)}, sd));
         A1 t(spp::semi_random<T>(4, S{T(1)}, S{T(9)}, sd));
         w.add_a(t);
         break;
      }
      case op_shuffle:
         spp::shuffle(w.a);
         spp::sort_increasing(w.a);
         w.add_a(w.a);
         break;
      case op_out1: {
         std::ostringstream o;
         switch(R(s.a[1], 4)) {
         case 0:
            o << sh.a;
            break;
         case 1:
            o << w.a;
            break;
         case 2:
            o << c.e1;
            break;
         default:
            o << sh.f << w.b;
         }
         w.add(o.str());
         break;
      }
      case op_out2: {
         std::ostringstream o;
         switch(R(s.a[1], 4)) {
         case 0:
            o << sh.m;
            break;
         case 1:
            o << w.m;
            break;
         case 2:
            o << c.e2;
            break;
         default:
            o << sh.g;
         }
         w.add(o.str());
         break;
      }
      case op_scalar_io: {
         std::ostringstream o;
         o << sh.a.un(0) << ' ' << Shared::val(s.a[1]) << ' ' << spp::Strict{7L} << ' ' << spp::true_sb;
         w.add(o.str());
         std::istringstream i{"12 -3"};
         S x;
         i >> x;
         w.add_v(x);
         i >> x;
         w.add_v(x);
         break;
      }
      case op_in1: {
         std::istringstream i{R(s.a[1], 3) ? sh.text1 : "3 4 x"};
         i >> w.a;
         w.b.resize(w.a.size());
         w.add_a(w.a);
         break;
      }
      case op_in2: {
         std::istringstream i{R(s.a[1], 3) ? sh.text2 : "3 4\n5"};
         i >> w.m;
         w.add_a(w.m);
         break;
      }
      case op_file: {
         std::string p = scratch() + "-" + std::to_string(tid);
         if(R(s.a[1], 2)) {
            spp::print_to_file(p, w.a);
            A1 t;
            spp::read_from_file(p, t);
            w.add_a(t);
         } else {
            spp::print_to_file(p, sh.m);
            A2 t;
            spp::read_from_file(p, t);
            w.add_a(t);
         }
         break;
      }
      case op_invalid: {
         try {
            switch(R(s.a[1], 5)) {
            case 0:
               (void)sh.a.at(sh.a.size());
               break;
            case 1:
               w.a.remove(w.a.size());
               break;
            case 2:
               (void)sh.a(spp::place::firstN{sh.a.size() + spp::Strict{1L}});
               break;
            case 3: {
               A2 t(-1, 2);
               break;
            }
            default:
               (void)(sh.a + sh.f);
            }
            w.add(uint64_t{1});
         } catch(const spp::StrictException& e) {
            w.add(std::string(e.what()));
         }
         break;
      }
      case op_tools:
         if constexpr(floating && !quad) {
            w.add_b(spp::within_tol_abs(sh.a, sh.a));
            w.add_b(spp::within_tol_rel(sh.a, sh.p));
            w.add_v(spp::max_abs_error(sh.a, sh.p));
         }
         if constexpr(!std::is_unsigned_v<T>) {
            w.add_v(spp::abss(sh.a.un(1)));
         }
         w.add_v(spp::maxs(sh.a.un(0), sh.p.un(0)));
         w.add_a(A1(spp::sequence<T>(R(s.a[1], 9))));
         break;
      case op_copy: {
         A1 t(sh.a);
         A2 u(sh.m);
         w.add_a(t);
         w.add_a(u);
         w.b.resize(w.a.size());
         w.b = A1(w.a);
         A1 v(w.a);
         v = w.b;
         w.add_a(v);
         break;
      }
      case op_moveit: {
         A1 u(w.a.size().val());
         A1 t(std::move(w.a));
         u = std::move(t);
         w.a.swap(u);
         A2 y(w.m.rows().val(), w.m.cols().val());
         A2 x(std::move(w.m));
         y = std::move(x);
         w.m.swap(y);
         w.add_a(w.a);
         w.add_a(w.m);
         break;
      }
      case op_timing: {
         spp::timer t;
         w.add_b(t.wall_time() >= spp::Strict{0.0});
         t.restart();
         if(R(s.a[2], 2) == 0) {
            STRICT_TIME(w.add_b(spp::true_sb));
         }
         break;
      }
      case op_block: {
         using namespace spp::place;
         auto part = sh.parts(spp::seqN{tid * PART, PART});
         auto row = sh.rows.row(tid);
         auto stripe = sh.parts(spp::seqN{tid * PART, PART / 2 + 1, 2});
         part = Shared::val(s.a[2]);
         row = Shared::val(s.a[3]);
         switch(R(s.a[1], 6)) {
         case 0:
            stripe = sh.f(firstN{PART / 2 + 1});
            break;
         case 1:
            part += sh.f;
            break;
         case 2:
            row = part + sh.f;
            break;
         case 3:
            for(auto& x : part) {
               x += S{T(1)};
            }
            spp::sort_decreasing(row);
            break;
         case 4:
            sh.rows(spp::seqN{tid, 1}, all) = Shared::val(s.a[4]);
            break;
         default:
            spp::semi_random(part, S{T(1)}, S{T(9)}, spp::Seed{static_cast<unsigned>(R(s.a[4], 50))});
         }
         w.add_a(part);
         w.add_a(row);
         break;
      }
      // ---- console ----
      case op_print1:
         R(s.a[1], 4) == 3 ? spp::print(sh.none, name(s)) : R(s.a[1], 2) ? spp::print(w.a, name(s)) : spp::print(sh.a, name(s));
         break;
      case op_print2:
         R(s.a[1], 4) == 3 ? spp::print(sh.none2, name(s)) : R(s.a[1], 2) ? spp::print(w.m, name(s)) : spp::print(sh.m, name(s));
         break;
      case op_print_many:
         switch(R(s.a[1], 4)) {
         case 3:
            spp::print(sh.a, sh.none, w.m, sh.none2);
            break;
         case 0:
            spp::print(sh.a, w.m);
            break;
         case 1:
            spp::print(sh.m, w.a, sh.f);
            break;
         default:
            spp::print(sh.g);
         }
         break;
      case op_printn1:
         switch(R(s.a[1], 4)) {
         case 3:
            spp::printn(sh.none, w.a);
            break;
         case 0:
            spp::printn(sh.a, name(s));
            break;
         case 1:
            spp::printn(w.m, name(s));
            break;
         default:
            spp::printn(sh.a, w.m);
         }
         break;
      case op_print_scalar:
         switch(R(s.a[1], 4)) {
         case 0:
            spp::print(Shared::val(s.a[2]), name(s));
            break;
         case 1:
            spp::print(Shared::val(s.a[2]), Shared::val(s.a[3]));
            break;
         case 2:
            spp::printn(Shared::val(s.a[2]), name(s));
            break;
         default:
            spp::printn(Shared::val(s.a[2]), Shared::val(s.a[3]));
         }
         break;
      case op_user_write:
         std::cout << static_cast<unsigned long>(R(s.a[2], 100000));
         break;
      case op_print_expr:
         R(s.a[1], 2) ? spp::print(c.e1, name(s)) : spp::print(c.e2, name(s));
         break;
      default:
         break;
      }
   }
   static std::string name(const Step& s) {
      static const char* const names[] = {"", "A", "some array"};
      return names[R(s.a[4], 3)];
   }

   // ---- expected console text: units that must arrive in one piece ----
   static std::string text(const auto& x, const std::string& nm) {
      std::ostringstream o;
      if(!nm.empty()) {
         o << nm << ":\n";
      }
      o << x;
      return o.str();
   }
   static void units(int, Own& w, const Ctx& c, const Step& s, std::vector<std::string>& u) {
      const Shared& sh = c.sh;
      auto arr = [&](const auto& x, const std::string& nm) { u.push_back(text(x, nm)); };
      switch(s.op) {
      case op_print1:
         R(s.a[1], 4) == 3 ? arr(sh.none, name(s)) : R(s.a[1], 2) ? arr(w.a, name(s)) : arr(sh.a, name(s));
         break;
      case op_print2:
         R(s.a[1], 4) == 3 ? arr(sh.none2, name(s)) : R(s.a[1], 2) ? arr(w.m, name(s)) : arr(sh.m, name(s));
         break;
      case op_print_many:
         switch(R(s.a[1], 4)) {
         case 3:
            arr(sh.a, "");
            u.push_back("\n");
            arr(sh.none, "");
            u.push_back("\n");
            arr(w.m, "");
            u.push_back("\n");
            arr(sh.none2, "");
            break;
         case 0:
            arr(sh.a, "");
            u.push_back("\n");
            arr(w.m, "");
            break;
         case 1:
            arr(sh.m, "");
            u.push_back("\n");
            arr(w.a, "");
            u.push_back("\n");
            arr(sh.f, "");
            break;
         default:
            arr(sh.g, "");
         }
         break;
      case op_printn1:
         switch(R(s.a[1], 4)) {
         case 3:
            arr(sh.none, "");
            u.push_back("\n");
            arr(w.a, "");
            u.push_back("\n");
            break;
         case 0:
            arr(sh.a, name(s));
            u.push_back("\n");
            break;
         case 1:
            arr(w.m, name(s));
            u.push_back("\n");
            break;
         default:
            arr(sh.a, "");
            u.push_back("\n");
            arr(w.m, "");
            u.push_back("\n");
         }
         break;
      case op_print_scalar:
         switch(R(s.a[1], 4)) {
         case 0:
            arr(Shared::val(s.a[2]), name(s));
            u.push_back("\n");
            break;
         case 1:
         case 3:
            arr(Shared::val(s.a[2]), "");
            u.push_back("\n");
            arr(Shared::val(s.a[3]), "");
            u.push_back("\n");
            break;
         default:
            arr(Shared::val(s.a[2]), name(s));
            u.push_back("\n");
         }
         if(R(s.a[1], 4) >= 2) {
            u.push_back("\n");
         }
         break;
      case op_user_write: {
         std::ostringstream o;
         o.flags(std::cout.flags());
         o.precision(std::cout.precision());
         o << static_cast<unsigned long>(R(s.a[2], 100000));
         u.push_back(o.str());
         break;
      }
      case op_print_expr:
         R(s.a[1], 2) ? arr(c.e1, name(s)) : arr(c.e2, name(s));
         break;
      default:
         break;
      }
   }

   static void body(int tid, void* p) {
      Ctx& c = *static_cast<Ctx*>(p);
      Program& pr = c.prog[tid];
      Own w;
      w.reset(tid);
      for(int i = 0; i < pr.n; ++i) {
         const Step& s = *pr.step[i];
         w.h = static_cast<uint64_t>(s.op);
         bool threw = false;
         console().call[tid] = i;
         if(s.a[6] > 0) {
            thr::fail_at(s.a[6], s.a[7] & 1);
         }
         try {
            do_op(tid, w, c, s);
         } catch(const std::exception& e) {
            threw = true;
            w.add(uint64_t{7777});
         }
         bool hit = s.a[6] > 0 && thr::failed();
         thr::fail_at(0, false);
         if(hit) {
            w.reset(tid);
         }
         pr.result[c.pass][i] = w.h;
         pr.faulted[c.pass][i] = hit;
         pr.threw[c.pass][i] = threw;
      }
   }

   static void execute(const Plan& q) {
      // The formats are chosen before the threads start.
      spp::format.reset();
      spp::array_format.reset();
      spp::format.scientific(static_cast<bool>(q.cfg[7] & 1)).precision(1 + R(q.cfg[7] >> 4, 12));
      if(q.cfg[7] & 2) {
         spp::array_format.row_style();
      }
      spp::array_format.detailed(static_cast<bool>(q.cfg[7] & 4));
      Ctx c(q);
      int n = static_cast<int>(2 + R(q.cfg[1], 8) / 3);
      n = n > thr::MAX ? thr::MAX : n;
      for(auto& s : q.steps) {
         Program& pr = c.prog[R(s.a[0], n)];
         if(pr.n < MAXSTEP) {
            pr.step[pr.n++] = &s;
         }
      }
      bool con = q.prop == "C15";
      if(con && (q.cfg[7] & 8)) {
         std::cout.setf(std::ios::hex, std::ios::basefield);
      }
      if(con && (q.cfg[7] & 256)) {
         std::cout.setf(std::ios::showpos | std::ios::showbase);
         std::cout.precision(3);
      }
      auto fl = std::cout.flags();
      auto pc = std::cout.precision();
      auto fi = std::cout.fill();
      thr::Policy po;
      po.seed = q.seed;
      po.mode = static_cast<int>(R(q.cfg[0] >> 8, 3));
      static const int64_t means[] = {2, 5, 20, 80, 300, 1000};
      po.mean = means[R(q.cfg[0] >> 12, 6)];
      po.depth = static_cast<int>(1 + R(q.cfg[0] >> 16, 6));
      static const int64_t hor[] = {50, 300, 2000, 10000, 40000};
      po.horizon = hor[R(q.cfg[0] >> 20, 5)];
      thr::start_logical();
      thr::Outcome o = thr::run(n, body, &c, po);
      Report& r = report();
      r.schedule = o.schedule;
      r.switches = o.switches;
      r.events = o.events;
      r.blocked = o.blocked;
      if(o.deadlock) {
         bad(q.prop + ":deadlock", o.msg);
      }
      if(o.race) {
         bad(q.prop + ":race", o.msg);
      }
      if(o.escaped) {
         bad(q.prop + ":escaped", "an exception that is not a std::exception escaped");
      }
      uint64_t log = 0;
      for(int t = 0; t < n; ++t) {
         for(int i = 0; i < c.prog[t].n; ++i) {
            ++r.ops;
            r.failures += c.prog[t].threw[0][i];
            r.faults += c.prog[t].faulted[0][i];
            if(!c.prog[t].faulted[0][i]) {
               log = mix2(log, c.prog[t].result[0][i]);
            }
         }
      }
      if(!con) {
         // The same programs, one after the other.
         c.pass = 1;
         thr::start_logical();
         for(int t = 0; t < n; ++t) {
            thr::serial(t);
            body(t, &c);
         }
         for(int t = 0; t < n; ++t) {
            for(int i = 0; i < c.prog[t].n; ++i) {
               if(c.prog[t].faulted[0][i] || c.prog[t].faulted[1][i]) {
                  if(c.prog[t].faulted[0][i] != c.prog[t].faulted[1][i]) {
                     break; // the library allocates differently the first time; later steps differ too
                  }
                  continue;
               }
               ++r.compared;
               if(c.prog[t].result[0][i] != c.prog[t].result[1][i]) {
                  bad(q.prop + ":result", "thread " + std::to_string(t) + ", call " + std::to_string(i) + " ("
                                             + op_names[c.prog[t].step[i]->op]
                                             + ") gives another result than when the threads run one after the other");
               }
            }
         }
      } else {
         if(std::cout.flags() != fl || std::cout.precision() != pc || std::cout.fill() != fi) {
            bad("C15:cout", "printing changed the format of std::cout");
         }
         if(!std::cout) {
            bad("C15:cout", "std::cout has failed although the console has not");
         }
         judge_console(c, n, r);
         const Console& k = console();
         log = mix2(log, hash_bytes(k.text, k.used));
      }
      r.log = mix2(mix2(log, o.schedule), o.events);
   }

   static void judge_console(const Ctx& c, int n, Report& r) {
      const Console& k = console();
      if(k.overflow) {
         return;
      }
      for(int t = 0; t < n; ++t) {
         Own w;
         w.reset(t);
         for(int i = 0; i < c.prog[t].n; ++i) {
            const Step& s = *c.prog[t].step[i];
            std::string g; // what this call wrote
            std::vector<size_t> pos; // where each byte is on the console
            for(size_t j = 0; j < k.pieces; ++j) {
               const Piece& p = k.piece[j];
               if(p.who == t && p.call == i) {
                  for(size_t m = 0; m < p.n; ++m) {
                     g += k.text[p.at + m];
                     pos.push_back(p.at + m);
                  }
               }
            }
            auto where = [&] {
               return "thread " + std::to_string(t) + ", call " + std::to_string(i) + " (" + op_names[s.op] + ")"
                    + (c.prog[t].faulted[0][i] ? " with a failed allocation" : "")
                    + (c.prog[t].threw[0][i] ? ", which threw" : "") + ": ";
            };
            std::vector<std::string> u;
            units(t, w, c, s, u);
            // A failed allocation may suppress a unit and those that follow, if the caller learns of it.
            bool may_stop = c.prog[t].faulted[0][i] && c.prog[t].threw[0][i];
            if(c.prog[t].threw[0][i] && !may_stop) {
               bad("C15:threw", where() + "nothing had failed");
            }
            size_t at = 0;
            for(auto& x : u) {
               ++r.compared;
               if(at == g.size() && may_stop) {
                  break;
               }
               if(g.compare(at, x.size(), x) != 0) {
                  bad("C15:text", where() + "the console shows \"" + g.substr(at, x.size() + 20) + "\" where \"" + x
                                     + "\" is expected");
               }
               if(!x.empty() && pos[at + x.size() - 1] != pos[at] + x.size() - 1) {
                  bad("C15:torn", where() + "another thread's output tears \"" + x + "\" apart");
               }
               at += x.size();
            }
            if(at != g.size()) {
               bad("C15:text", where() + "unexpected output \"" + g.substr(at) + "\"");
            }
         }
      }
   }
};

} // namespace sim::threads
