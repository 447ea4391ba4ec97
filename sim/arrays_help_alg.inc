// Queries and reductions: what they answer, and what a plain loop over the model answers.

// An answer: a number, a position, a truth value.
struct Ans {
   bool done = false, b = false, none = false;
   long i = -1, j = -1;
   T v{};
   bool inexact = false;
};
static Ans num(S x) {
   Ans q;
   q.v = x.val();
   return q;
}
static Ans flag(spp::StrictBool x) {
   Ans q;
   q.b = x.val();
   return q;
}
template <class P>
static Ans place1(const P& p) {
   Ans q = num(p.second);
   q.i = p.first.val();
   return q;
}
template <class P>
static Ans place2(const P& p) {
   Ans q = num(std::get<2>(p));
   q.i = std::get<0>(p).val();
   q.j = std::get<1>(p).val();
   return q;
}
static Ans wnum(T x) {
   Ans q;
   q.v = x;
   return q;
}
static Ans wapx(T x) {
   Ans q = wnum(x);
   q.inexact = true;
   return q;
}
static Ans wflag(bool b) {
   Ans q;
   q.b = b;
   return q;
}
static bool close(T x, T y) {
   if(x == y) {
      return true;
   }
   if constexpr(spp::Floating<T>) {
      T d = x > y ? x - y : y - x, m = y > T(0) ? y : -y;
      constexpr T eps = sizeof(T) == 4 ? T(1e-5) : T(1e-13);
      return d <= eps * m;
   }
   return false;
}
// Two operands of one and the same type that name the standard library in their template arguments: what does not
// compile for them is built without (SIM_NO_SAME, the last resort of the build) and fails when it is reached.
template <class E>
static constexpr bool left_out() {
#ifdef SIM_NO_SAME
   return std::is_same_v<E, std::remove_cvref_t<decltype(std::declval<A1&>()(std::declval<std::vector<II>&>()))>>
       || std::is_same_v<E, std::remove_cvref_t<decltype(std::declval<A2&>().rows(std::declval<std::vector<II>&>()))>>;
#else
   return false;
#endif
}
template <class G>
static auto usable(G g) {
   return [g](const auto& e) {
      if constexpr(left_out<std::remove_cvref_t<decltype(e)>>()) {
         throw std::logic_error("this call does not compile");
      } else {
         g(e);
      }
   };
}
// Asks and compares.
template <class G>
void ask(const Ans& want, int fn, G&& g) {
   Ans q;
   exec(Cat::Strong,
        [&] {
           q = g();
           q.done = true;
        },
        [&] {});
   if(mode != Mode::Model || !q.done) {
      return;
   }
   bool same = q.b == want.b && q.none == want.none && q.i == want.i && q.j == want.j
            && (want.inexact ? close(q.v, want.v) : q.v == want.v);
   if(!same) {
      auto str = [](const Ans& x) {
         return std::string(x.none ? "nothing" : x.b ? "true" : "false") + " " + std::to_string(static_cast<double>(x.v)) + " at "
              + std::to_string(x.i) + "," + std::to_string(x.j);
      };
      bad("query", "query " + std::to_string(fn) + " answers " + str(q) + " where the elements give " + str(want));
   }
}
static const int* small_forms1() {
   static const int f[] = {0, 5, 1, 4, 9, 7};
   return f;
}
static const int* small_forms2() {
   static const int f[] = {0, 5, 1, 4, 2};
   return f;
}
int algform1(int i) const {
   return small_forms1()[R(A(i), 6)];
}
int algform2(int i) const {
   return small_forms2()[R(A(i), 5)];
}
// A few small values, mostly of magnitude one, so that products stay exact.
static T tinyv(T x) {
   long h = static_cast<long>(x);
   h = (h < 0 ? -h : h) % 16;
   if constexpr(sgn) {
      static const int t[] = {1, -1, 2, 1, -1, 1, 1, -2, -1, 1, 1, 0, -1, 1, 3, 1};
      return static_cast<T>(t[h]);
   } else {
      static const int t[] = {1, 1, 2, 1, 1, 1, 1, 2, 1, 1, 1, 0, 1, 1, 3, 1};
      return static_cast<T>(t[h]);
   }
}
static V tinyw(V v) {
   for(size_t i = 0; i < v.size(); ++i) {
      v[i] = tinyv(v[i]);
   }
   return v;
}
// Largest magnitude up to which whole numbers are exact.
static double exact_limit() {
   return sizeof(T) == 4 && spp::Floating<T> ? 16e6 : sizeof(T) == 4 ? 2e9 : 9e15;
}
static T mag(T x) {
   if constexpr(sgn) {
      return x < T(0) ? static_cast<T>(-x) : x;
   } else {
      return x;
   }
}
static T root(T x, int k) {
   if constexpr(spp::Floating<T>) {
      // Newton's iteration for x^(1/k).
      if(x <= T(0)) {
         return T(0);
      }
      long double y = std::pow(static_cast<long double>(x), 1.0L / k);
      return static_cast<T>(y);
   } else {
      (void)k;
      return x;
   }
}
static T ipow(T x, long k) {
   T r(1);
   for(long i = 0; i < k; ++i) {
      r = static_cast<T>(r * x);
   }
   return r;
}
static constexpr int n_red = 26;
// Number of the query the step asks for.
int redfn() const {
   return static_cast<int>(R(A(3) / 2, n_red));
}
template <class E>
Ans red(int fn, const E& e, S x) {
   namespace sp = spp;
   S d = sv(A(4) + 3);
   bool def = (A(3) & 1) != 0;
   sp::StrictBool bd{(A(4) & 1) != 0};
   auto eq = [x](auto y) {
      ticker.tick();
      return y == x;
   };
   switch(fn) {
   case 0:
      return num(def ? sp::sum(e, d) : sp::sum(e));
   case 1:
      return num(def ? sp::min(e, d) : sp::min(e));
   case 2:
      return num(def ? sp::max(e, d) : sp::max(e));
   case 3:
      if constexpr(sp::OneDimBaseType<E>) {
         return place1(def ? sp::min_index(e, {sp::index_t{77L}, d}) : sp::min_index(e));
      } else {
         return place2(def ? sp::min_index(e, {sp::index_t{77L}, sp::index_t{78L}, d}) : sp::min_index(e));
      }
   case 4:
      if constexpr(sp::OneDimBaseType<E>) {
         return place1(def ? sp::max_index(e, {sp::index_t{77L}, d}) : sp::max_index(e));
      } else {
         return place2(def ? sp::max_index(e, {sp::index_t{77L}, sp::index_t{78L}, d}) : sp::max_index(e));
      }
   case 5:
      return flag(def ? sp::has_zero(e, bd) : sp::has_zero(e));
   case 6:
      return flag(def ? sp::all_zeros(e, bd) : sp::all_zeros(e));
   case 7:
      return flag(def ? sp::all_pos(e, bd) : sp::all_pos(e));
   case 8:
      return flag(def ? sp::all_neg(e, bd) : sp::all_neg(e));
   case 9:
      return flag(def ? sp::all_non_pos(e, bd) : sp::all_non_pos(e));
   case 10:
      return flag(def ? sp::all_non_neg(e, bd) : sp::all_non_neg(e));
   case 11:
      return flag(def ? sp::none_of(e, x, bd) : sp::none_of(e, sp::Value{x}));
   case 12:
      return flag(def ? sp::any_of(e, sp::Value{x}, bd) : sp::any_of(e, x));
   case 13:
      return flag(def ? sp::all_of(e, x, bd) : sp::all_of(e, sp::Value{x}));
   case 14:
      return flag(def ? sp::none_of(e, eq, bd) : sp::none_of(e, eq));
   case 15:
      return flag(def ? sp::any_of(e, eq, bd) : sp::any_of(e, eq));
   case 16:
      return flag(def ? sp::all_of(e, eq, bd) : sp::all_of(e, eq));
   case 17: {
      auto p = sp::blas_array(e);
      Ans q;
      q.b = p != nullptr;
      q.i = 0;
      if(p) {
         for(long k = 0; k < e.size().val(); ++k) {
            q.v = static_cast<T>(q.v + static_cast<T>(T(k % 5 + 1) * p[static_cast<size_t>(k)]));
         }
      }
      return q;
   }
   case 18: {
      Ans q;
      q.i = 0;
      sp::for_each(e, [&q](auto y) {
         ticker.tick();
         ++q.i;
         q.v = static_cast<T>(q.v + static_cast<T>(T(q.i % 5 + 1) * S{y}.val()));
      });
      return q;
   }
   default:
      break;
   }
   if constexpr(sp::Floating<T>) {
      switch(fn) {
      case 19:
         return num(def ? sp::mean(e, d) : sp::mean(e));
      case 20:
         return num(def ? sp::norm_inf(e, d) : sp::norm_inf(e));
      case 21:
         return num(def ? sp::norm1(e, d) : sp::norm1(e));
      case 22:
         return num(def ? sp::norm1_scaled(e, d) : sp::norm1_scaled(e));
      case 23:
         return num(def ? sp::stable_sum(e, d) : sp::stable_sum(e));
      case 24:
         return num(def ? sp::semi_stable_sum(e, d) : sp::semi_stable_sum(e));
      default:
         return num(def ? sp::stable_mean(e, d) : sp::stable_mean(e));
      }
   }
   return flag(def ? sp::all_of(e, x, bd) : sp::all_of(e, sp::Value{x}));
}
Ans redw(int fn, const V& w, long cols, S xs) {
   T x = xs.val();
   bool def = (A(3) & 1) != 0, bd = (A(4) & 1) != 0;
   size_t n = w.size();
   if constexpr(!spp::Floating<T>) {
      if(fn > 18) {
         fn = 13;
      }
   }
   if(n == 0) {
      T d = def ? sv(A(4) + 3).val() : T{};
      Ans q;
      if(fn == 3 || fn == 4) {
         q.v = d;
         if(def) {
            q.i = 77;
            q.j = cols < 0 ? -1 : 78;
         }
         return q;
      }
      if(fn >= 5 && fn <= 16) {
         return wflag(def && bd);
      }
      if(fn == 17 || fn == 18) {
         q.i = 0;
         return q;
      }
      return wnum(d);
   }
   T s{}, a1{};
   size_t lo = 0, hi = 0;
   T big{};
   long z = 0, pos = 0, neg = 0, eq = 0;
   T chk{}, chk1{};
   for(size_t i = 0; i < n; ++i) {
      T e = w[i];
      s = static_cast<T>(s + e);
      a1 = static_cast<T>(a1 + mag(e));
      lo = e < T(w[lo]) ? i : lo;
      hi = e > T(w[hi]) ? i : hi;
      big = mag(e) > big ? mag(e) : big;
      z += e == T(0);
      pos += e > T(0);
      neg += e < T(0);
      eq += e == x;
      chk = static_cast<T>(chk + static_cast<T>(T(i % 5 + 1) * e));
      chk1 = static_cast<T>(chk1 + static_cast<T>(T((i + 1) % 5 + 1) * e));
   }
   long nn = static_cast<long>(n);
   auto at = [&](size_t k) {
      Ans q = wnum(w[k]);
      q.i = cols < 0 ? static_cast<long>(k) : static_cast<long>(k) / cols;
      q.j = cols < 0 ? -1 : static_cast<long>(k) % cols;
      return q;
   };
   switch(fn) {
   case 0:
      return wnum(s);
   case 1:
      return wnum(w[lo]);
   case 2:
      return wnum(w[hi]);
   case 3:
      return at(lo);
   case 4:
      return at(hi);
   case 5:
      return wflag(z > 0);
   case 6:
      return wflag(z == nn);
   case 7:
      return wflag(pos == nn);
   case 8:
      return wflag(neg == nn);
   case 9:
      return wflag(pos == 0);
   case 10:
      return wflag(neg == 0);
   case 11:
   case 14:
      return wflag(eq == 0);
   case 12:
   case 15:
      return wflag(eq > 0);
   case 13:
   case 16:
      return wflag(eq == nn);
   case 17: {
      Ans q = wnum(chk);
      q.b = true;
      q.i = 0;
      return q;
   }
   case 18: {
      Ans q = wnum(chk1);
      q.i = nn;
      return q;
   }
   case 19:
   case 25:
      return wapx(static_cast<T>(s / T(nn)));
   case 20:
      return wnum(big);
   case 21:
      return wnum(a1);
   case 22:
      return wapx(static_cast<T>(a1 / T(nn)));
   default:
      return wnum(s);
   }
}
// A value to look for: one that is there, or any.
S sought(const V& w) const {
   return w.empty() || (A(4) & 2) != 0 ? sv(A(4)) : S{static_cast<T>(w[static_cast<size_t>(R(A(4) / 4, static_cast<long>(w.size())))])};
}

// Queries on small values.
static constexpr int n_tiny = 16;
template <class E>
Ans tiny(int fn, const E& e0, long lp, S x) {
   namespace sp = spp;
   S d = sv(A(4) + 3);
   bool def = (A(3) & 1) != 0;
   auto e = sp::generate(e0, [](auto y) {
      ticker.tick();
      return S{tinyv(S{y}.val())};
   });
   switch(fn) {
   case 0:
      return num(def ? sp::prod(e, d) : sp::prod(e));
   case 1:
      if constexpr(sp::OneDimBaseType<E>) {
         return num(def ? sp::polynomial(e, x, d) : sp::polynomial(e, x));
      } else {
         return num(def ? sp::prod(e, d) : sp::prod(e));
      }
   case 2:
      return num(def ? sp::dot_prod(e, e0, d) : sp::dot_prod(e, e0));
   default:
      break;
   }
   if constexpr(sp::Floating<T>) {
      switch(fn) {
      case 3:
         return num(def ? sp::norm2(e, d) : sp::norm2(e));
      case 4:
         return num(def ? sp::norm2_scaled(e, d) : sp::norm2_scaled(e));
      case 5:
         return num(def ? sp::norm_lp(e, lp, d) : sp::norm_lp(e, lp));
      case 6:
         return num(def ? sp::norm_lp_scaled(e, lp, d) : sp::norm_lp_scaled(e, lp));
      case 7:
         return num(def ? sp::stable_prod(e, d) : sp::stable_prod(e));
      case 8:
         return num(def ? sp::stable_norm1(e, d) : sp::stable_norm1(e));
      case 9:
         return num(def ? sp::stable_norm1_scaled(e, d) : sp::stable_norm1_scaled(e));
      case 10:
         return num(def ? sp::stable_norm2(e, d) : sp::stable_norm2(e));
      case 11:
         return num(def ? sp::stable_norm2_scaled(e, d) : sp::stable_norm2_scaled(e));
      case 12:
         return num(def ? sp::stable_norm_lp(e, lp, d) : sp::stable_norm_lp(e, lp));
      case 13:
         return num(def ? sp::stable_norm_lp_scaled(e, lp, d) : sp::stable_norm_lp_scaled(e, lp));
      case 14:
         if constexpr(sp::OneDimBaseType<E>) {
            return num(def ? sp::stable_polynomial(e, x, d) : sp::stable_polynomial(e, x));
         } else {
            return num(def ? sp::stable_dot_prod(e, e0, d) : sp::stable_dot_prod(e, e0));
         }
      default: {
         // Not a number, infinite, finite: quotients by zero.
         auto q = e / (e + x);
         Ans r;
         r.b = sp::all_finite(q).val();
         r.i = sp::has_inf(q).val() ? 1 : 0;
         r.j = (sp::has_nan(q).val() ? 1 : 0) + (def ? sp::has_nan(e, sp::StrictBool{true}).val() ? 2 : 0 : 0);
         return r;
      }
      }
   }
   return num(def ? sp::prod(e, d) : sp::prod(e));
}
// Returns false where the exact answer does not fit.
bool tinyans(int fn, const V& v, bool two, long lp, S xs, Ans& q) {
   V w = tinyw(v);
   long n = static_cast<long>(w.size());
   bool def = (A(3) & 1) != 0;
   long double p = 1, po = 0, dp = 0, da = 0, s2 = 0, s1 = 0, sl = 0, pa = 0;
   bool inf = false, nan = false;
   T x = xs.val();
   for(long i = n - 1; i >= 0; --i) {
      T e = w[static_cast<size_t>(i)], y = v[static_cast<size_t>(i)];
      p *= static_cast<long double>(e);
      po = po * static_cast<long double>(x) + static_cast<long double>(e);
      pa = pa * static_cast<long double>(mag(x)) + static_cast<long double>(mag(e));
      dp += static_cast<long double>(e) * static_cast<long double>(y);
      da += static_cast<long double>(mag(e)) * static_cast<long double>(mag(y));
      s2 += static_cast<long double>(e) * static_cast<long double>(e);
      s1 += static_cast<long double>(mag(e));
      sl += static_cast<long double>(ipow(mag(e), lp));
      T z = static_cast<T>(e + x);
      inf = inf || (z == T(0) && e != T(0));
      nan = nan || (z == T(0) && e == T(0));
   }
   long double lim = exact_limit(), sz = static_cast<long double>(n);
   if constexpr(!spp::Floating<T>) {
      if(fn > 2) {
         fn = 0;
      }
   }
   if(fn == 1 && two) {
      fn = 0;
   }
   if(fn == 14 && two) {
      fn = 2;
   }
   if(n == 0 && fn != 15) {
      q = wnum(def ? sv(A(4) + 3).val() : T{});
      return true;
   }
   // Every partial product must be exact, not only the last.
   long double run = 1, top = 0;
   for(long i = 0; i < n; ++i) {
      run *= static_cast<long double>(mag(w[static_cast<size_t>(i)]));
      top = std::max(top, run);
   }
   auto ex = [&](long double y, long double bound) {
      q = wnum(static_cast<T>(y));
      return bound < lim;
   };
   auto ap = [&](long double y) {
      q = wapx(static_cast<T>(y));
      return true;
   };
   switch(fn) {
   case 0:
   case 7:
      return ex(p, top);
   case 1:
   case 14:
      if(fn == 14 && static_cast<long double>(mag(x)) > 1 && n > 40) {
         return false;
      }
      return ex(po, pa) && pa < lim;
   case 2:
      return ex(dp, da);
   case 3:
   case 10:
      return ap(std::sqrt(s2));
   case 4:
   case 11:
      return ap(std::sqrt(s2 / sz));
   case 5:
   case 12:
      return ap(std::pow(sl, 1.0L / static_cast<long double>(lp)));
   case 6:
   case 13:
      return ap(std::pow(sl / sz, 1.0L / static_cast<long double>(lp)));
   case 8:
      return ex(s1, s1);
   case 9:
      return ap(s1 / sz);
   default:
      q = Ans{};
      if(n == 0) {
         q.b = true;
         q.i = 0;
         q.j = def ? 2 : 0;
         return true;
      }
      q.b = !inf && !nan;
      q.i = inf ? 1 : 0;
      q.j = nan ? 1 : 0;
      return true;
   }
}

// Queries on two operands.
static constexpr int n_pair = 16;
template <class E, class F>
Ans pair(int fn, const E& x, const F& y) {
   namespace sp = spp;
   bool def = (A(3) & 1) != 0;
   sp::StrictBool bd{(A(4) & 1) != 0};
   auto lt = [](auto p, auto q) {
      ticker.tick();
      return p < q;
   };
   auto ne = [](auto p, auto q) {
      ticker.tick();
      return p != q;
   };
   switch(fn) {
   case 0:
      return flag(x == y);
   case 1:
      return flag(x != y);
   case 2:
      return flag(sp::equal(x, y));
   case 3:
      return flag(sp::same_size(x, y));
   case 4:
      return flag(def ? sp::any_of(x, y, lt, bd) : sp::any_of(x, y, lt));
   case 5:
      return flag(def ? sp::all_of(x, y, lt, bd) : sp::all_of(x, y, lt));
   case 6:
      return flag(def ? sp::none_of(x, y, ne, bd) : sp::none_of(x, y, ne));
   default:
      break;
   }
   if constexpr(sp::Floating<T>) {
      S d = sv(A(4) + 3), tol{static_cast<T>(R(A(4) / 2, 3000))};
      switch(fn) {
      case 7:
         return num(def ? sp::stable_dot_prod(x, y, d) : sp::stable_dot_prod(x, y));
      case 8:
         return num(def ? sp::semi_stable_dot_prod(x, y, d) : sp::semi_stable_dot_prod(x, y));
      case 9:
         return flag(def ? sp::within_tol_abs(x, y, tol, bd) : sp::within_tol_abs(x, y, tol));
      case 10:
         return flag(sp::within_tol_abs(x, y));
      case 11:
         return flag(def ? sp::within_tol_rel(x, y, tol / S{T(1024)}, S{T(5)}, bd)
                         : sp::within_tol_rel(x, y, tol / S{T(1024)}, S{T(5)}));
      case 12:
         return num(def ? sp::max_abs_error(x, y, d) : sp::max_abs_error(x, y));
      case 13: {
         auto r = def ? sp::max_rel_error(x, y, d) : sp::max_rel_error(x, y);
         Ans q;
         q.none = !r.has_value();
         q.v = r ? r->val() : T{};
         return q;
      }
      default:
         break;
      }
   }
   S d = sv(A(4) + 3);
   return num(def ? sp::dot_prod(x, y, d) : sp::dot_prod(x, y));
}
// The answer for operands of the same size (or any size, for the comparisons).
bool pairans(int fn, const V& x, const V& y, bool same, Ans& q) {
   if constexpr(!spp::Floating<T>) {
      if(fn > 6) {
         fn = 14;
      }
   }
   bool def = (A(3) & 1) != 0, bd = (A(4) & 1) != 0;
   T d = sv(A(4) + 3).val();
   size_t n = x.size();
   bool eq = same && x == y;
   switch(fn) {
   case 0:
   case 2:
      q = wflag(eq);
      return true;
   case 1:
      q = wflag(!eq);
      return true;
   case 3:
      q = wflag(same);
      return true;
   default:
      break;
   }
   if(!same) {
      return false;
   }
   if(n == 0) {
      if((fn >= 4 && fn <= 6) || (fn >= 9 && fn <= 11)) {
         q = wflag(fn != 10 && def && bd);
      } else if(fn == 12 || fn == 13) {
         q = wnum(def ? d : T(1));
      } else {
         q = wnum(def ? d : T{});
      }
      return true;
   }
   bool any = false, all = true, ta = true, tr = true, z = false;
   long double dp = 0, da = 0, mr = 0;
   T me{};
   T tol = static_cast<T>(R(A(4) / 2, 3000));
   bool fit = true;
   for(size_t i = 0; i < n; ++i) {
      T p = x[i], r = y[i];
      any = any || p < r;
      all = all && p < r;
      dp += static_cast<long double>(p) * static_cast<long double>(r);
      da += static_cast<long double>(mag(p)) * static_cast<long double>(mag(r));
      T e = static_cast<T>(p > r ? p - r : r - p);
      me = e > me ? e : me;
      z = z || p == T(0) || r == T(0);
      if constexpr(spp::Floating<T>) {
         T big = std::max(mag(p), mag(r));
         ta = ta && e <= tol;
         if(big > T(5)) {
            T rel = e / big, t = tol / T(1024);
            tr = tr && rel <= t;
            T gap = rel > t ? rel - t : t - rel;
            fit = fit && (gap > T(1e-5) || rel == t);
         }
         if(r != T(0)) {
            mr = std::max(mr, static_cast<long double>(e) / static_cast<long double>(mag(r)));
         }
      }
   }
   switch(fn) {
   case 4:
      q = wflag(any);
      return true;
   case 5:
      q = wflag(all);
      return true;
   case 6:
      q = wflag(eq);
      return true;
   case 9:
      q = wflag(ta);
      return true;
   case 10:
      q = wflag(eq);
      return true;
   case 11:
      q = wflag(tr);
      return fit;
   case 12:
      q = wnum(me);
      return true;
   case 13:
      q = wapx(z ? T{} : static_cast<T>(mr));
      q.none = z;
      return true;
   default:
      q = wnum(static_cast<T>(dp));
      return da < exact_limit();
   }
}
