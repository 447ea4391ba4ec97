// Steps on single numbers.

template <class U>
static constexpr int tid() {
   return std::is_same_v<U, bool> ? 0 : std::is_same_v<U, int> ? 1 : std::is_same_v<U, long> ? 2
        : std::is_same_v<U, unsigned> ? 3 : std::is_same_v<U, unsigned long> ? 4 : std::is_same_v<U, float> ? 5
        : std::is_same_v<U, double> ? 6 : std::is_same_v<U, long double> ? 7 : 8;
}
template <class U, class X>
static auto member_cast(X v) {
   constexpr int k = tid<U>();
   if constexpr(k == 0) {
      return v.sb();
   } else if constexpr(k == 1) {
      return v.si();
   } else if constexpr(k == 2) {
      return v.sl();
   } else if constexpr(k == 3) {
      return v.sui();
   } else if constexpr(k == 4) {
      return v.sul();
   } else if constexpr(k == 5) {
      return v.sf();
   } else if constexpr(k == 6) {
      return v.sd();
   } else if constexpr(k == 7) {
      return v.sld();
   } else {
#ifdef STRICT_QUAD_PRECISION
      return v.sq();
#endif
   }
}
template <class G>
void any_type(int k, G f) {
#ifdef STRICT_QUAD_PRECISION
   constexpr int types = 9;
#else
   constexpr int types = 8;
#endif
   switch(R(k, types)) {
   case 0:
      return f(bool{});
   case 1:
      return f(int{});
   case 2:
      return f(long{});
   case 3:
      return f(unsigned{});
   case 4:
      return f(static_cast<unsigned long>(0));
   case 5:
      return f(float{});
   case 6:
      return f(double{});
   case 7:
      return f(static_cast<long double>(0));
   default:
#ifdef STRICT_QUAD_PRECISION
      return f(__float128{});
#else
      return;
#endif
   }
}

void do_load() {
   int d = reg(0);
   T v = draw<T>(A(1), A(2));
   switch(R(A(3), 6)) {
   case 0:
      return put(d, S{v}, v, "Strict{v}");
   case 1: {
      S y(v);
      S z{y};
      return put(d, z, v, "copy");
   }
   case 2: {
      S y;
      if(!same(y.val(), T{})) {
         bad("value", "a default number is " + show(y.val()));
      }
      y = S{v};
      return put(d, y, v, "assignment");
   }
   case 3:
      return put(d, spp::Value<T>{v}.get(), v, "Value");
   case 4: {
      int i = reg(4);
      return put(d, x[i], m[i], "register");
   }
   default:
      return put(d, spp::strict_cast<T>(v), v, "strict_cast of its own type");
   }
}

// The operations as written by a user.
static S strict_bin(int o, S y, S z) {
   if constexpr(is_flt<T> || is_int<T>) {
      switch(o) {
      case ADD:
         return y + z;
      case SUB:
         return y - z;
      case MUL:
         return y * z;
      case DIV:
         return y / z;
      default:
         break;
      }
   }
   if constexpr(is_int<T>) {
      switch(o) {
      case MOD:
         return y % z;
      case SHL:
         return y << z;
      case SHR:
         return y >> z;
      case AND:
         return y & z;
      case OR:
         return y | z;
      default:
         return y ^ z;
      }
   }
   return S{};
}
template <class L, class Y>
static void strict_comp(int o, L& y, const Y& z) {
   if constexpr(is_flt<T> || is_int<T>) {
      switch(o) {
      case ADD:
         y += z;
         return;
      case SUB:
         y -= z;
         return;
      case MUL:
         y *= z;
         return;
      case DIV:
         y /= z;
         return;
      default:
         break;
      }
   }
   if constexpr(is_int<T>) {
      switch(o) {
      case MOD:
         y %= z;
         return;
      case SHL:
         y <<= z;
         return;
      case SHR:
         y >>= z;
         return;
      case AND:
         y &= z;
         return;
      case OR:
         y |= z;
         return;
      default:
         y ^= z;
         return;
      }
   }
}
static int bins() {
   return is_int<T> ? 10 : 4;
}
static const char* bin_name(int o) {
   static const char* const k[] = {"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"};
   return k[o];
}
// Operands of shifts are brought near the width first.
void shiftable(int o, int j) {
   if constexpr(is_int<T>) {
      if((o == SHL || o == SHR) && R(A(5), 4) != 0) {
         auto w = static_cast<long>(sizeof(T) * 8);
         m[j] = static_cast<T>(R(A(5) / 4, w));
         x[j] = S{m[j]};
      }
   }
}

void do_bin() {
   int d = reg(0), i = reg(1), j = reg(2), o = static_cast<int>(R(A(3), bins()));
   shiftable(o, j);
   T w;
   if(!builtin_bin(o, m[i], m[j], w)) {
      return;
   }
   std::string what = on(bin_name(o), i, j);
   S v;
   act([&] { v = strict_bin(o, x[i], x[j]); });
   put(d, v, w, what);
}

void do_comp() {
   if constexpr(is_flt<T> || is_int<T>) {
      int i = reg(1), j = reg(2), o = static_cast<int>(R(A(3), bins()));
      shiftable(o, j);
      T w;
      if(!builtin_bin(o, m[i], m[j], w)) {
         return;
      }
      std::string what = on(bin_name(o), i, j) + " in place";
      S v = x[i];
      act([&] { strict_comp(o, v, i == j && (A(4) & 1) != 0 ? v : x[j]); });
      put(i, v, w, what);
   }
}

void do_incdec() {
   if constexpr(is_flt<T> || is_int<T>) {
      int i = reg(0), d = reg(1);
      bool down = (A(2) & 1) != 0, post = (A(2) & 2) != 0;
      T w;
      if(!builtin_bin(down ? SUB : ADD, m[i], T(1), w)) {
         return;
      }
      S got;
      S v = x[i];
      act([&] {
         if(post) {
            got = down ? v-- : v++;
         } else {
            S& ref = down ? --v : ++v;
            if(&ref != &v) {
               bad("value", "does not return the number itself");
            }
            got = ref;
         }
      });
      T shown = post ? m[i] : w;
      std::string what = show(m[i]) + (down ? "--" : "++");
      put(i, v, w, what);
      if(d != i) {
         put(d, got, shown, "value of " + what);
      }
   } else {
      int i = reg(0);
      T w = !m[i];
      put(i, !x[i], w, "!");
   }
}

void do_un() {
   int d = reg(0), i = reg(1), j = reg(2);
   S v;
   T w{};
   const char* what = "";
   if constexpr(is_flt<T> || is_int<T>) {
      switch(R(A(3), 10)) {
      case 0:
         act([&] { v = +x[i]; });
         w = m[i];
         what = "+";
         break;
      case 1:
         if constexpr(is_flt<T> || is_sint<T>) {
            if(!whole_abs(m[i])) {
               return;
            }
            act([&] { v = -x[i]; });
            w = static_cast<T>(-m[i]);
            what = "-";
            break;
         }
         return;
      case 2:
         if constexpr(is_int<T>) {
            act([&] { v = ~x[i]; });
            w = static_cast<T>(~m[i]);
            what = "~";
            break;
         }
         return;
      case 3:
         if(!whole_abs(m[i])) {
            return;
         }
         act([&] { v = spp::abss(x[i]); });
         w = absolute(m[i]);
         what = "abss";
         break;
      case 4:
         act([&] { v = spp::signs(x[i]); });
         w = m[i] > T(0) ? T(1) : m[i] < T(0) ? static_cast<T>(-1) : T(0);
         what = "signs";
         break;
      case 5:
         if(!builtin_bin(MUL, m[i], m[i], w)) {
            return;
         }
         act([&] { v = spp::squares(x[i]); });
         what = "squares";
         break;
      case 6: {
         T q;
         if(!builtin_bin(MUL, m[i], m[i], q) || !builtin_bin(MUL, q, m[i], w)) {
            return;
         }
         act([&] { v = spp::cubes(x[i]); });
         what = "cubes";
         break;
      }
      case 7:
         act([&] { v = spp::mins(x[i], x[j]); });
         w = m[i] < m[j] ? m[i] : m[j];
         what = "mins";
         break;
      case 8:
         act([&] { v = spp::maxs(x[i], x[j]); });
         w = m[i] > m[j] ? m[i] : m[j];
         what = "maxs";
         break;
      default:
         if constexpr(is_flt<T>) {
            act([&] { v = spp::invs(x[i]); });
            w = T(1) / m[i];
            what = "invs";
            break;
         }
         return;
      }
      // Which of two equal zeros an extremum gives is not specified; nor what it gives for a NaN.
      if constexpr(is_flt<T>) {
         if(what[0] == 'm' && (m[i] == m[j] || m[i] != m[i] || m[j] != m[j])) {
            return;
         }
      }
      put(d, v, w, std::string(what) + " of " + show(m[i]) + ", " + show(m[j]));
   } else {
      switch(R(A(3), 4)) {
      case 0:
         v = x[i] && x[j];
         w = m[i] && m[j];
         break;
      case 1:
         v = x[i] || x[j];
         w = m[i] || m[j];
         break;
      case 2:
         v = x[i] ^ x[j];
         w = m[i] != m[j];
         break;
      default:
         v = !x[i];
         w = !m[i];
         break;
      }
      put(d, v, w, "logical operation");
   }
}

void do_cmp() {
   int i = reg(1), j = reg(2), d = static_cast<int>(R(A(0), 3));
   SB got;
   bool w = false;
   T p = m[i], q = m[j];
   int k = static_cast<int>(R(A(3), 7));
   act([&] {
      switch(k) {
      case 0:
         got = x[i] == x[j];
         w = p == q;
         break;
      case 1:
         got = x[i] != x[j];
         w = p != q;
         break;
      case 2:
         got = x[i] < x[j];
         w = p < q;
         break;
      case 3:
         got = x[i] <= x[j];
         w = p <= q;
         break;
      case 4:
         got = x[i] > x[j];
         w = p > q;
         break;
      case 5:
         got = x[i] >= x[j];
         w = p >= q;
         break;
      default:
         got = spp::equal(x[i], x[j]);
         w = p == q;
         break;
      }
   });
   eq(got.val(), w, "comparison " + std::to_string(k) + " of " + show(p) + ", " + show(q));
   b[d] = got;
   bm[d] = w;
   seen(mix2(mix2(bits(p), bits(q)), static_cast<uint64_t>(k)));
}

void do_logic() {
   int d = static_cast<int>(R(A(0), 3)), i = static_cast<int>(R(A(1), 3)), j = static_cast<int>(R(A(2), 3));
   SB got;
   bool w = false, p = bm[i], q = bm[j];
   int k = static_cast<int>(R(A(3), 10));
   switch(k) {
   case 0:
      got = b[i] && b[j];
      w = p && q;
      break;
   case 1:
      got = b[i] || b[j];
      w = p || q;
      break;
   case 2:
      got = b[i] ^ b[j];
      w = p != q;
      break;
   case 3:
      got = !b[i];
      w = !p;
      break;
   case 4:
      got = b[i] == b[j];
      w = p == q;
      break;
   case 5:
      got = b[i] != b[j];
      w = p != q;
      break;
   case 6:
      got = b[i] ? spp::true_sb : spp::false_sb;
      w = p;
      break;
   case 7:
      got = SB{b[i].si().val() == (p ? 1 : 0)};
      w = true;
      break;
   case 8:
      got = SB{b[i].sd().val() == (p ? 1.0 : 0.0)};
      w = true;
      break;
   default:
      got = spp::ImplicitBool{b[i]}.get();
      w = p;
      break;
   }
   eq(got.val(), w, "logical operation " + std::to_string(k));
   b[d] = got;
   bm[d] = w;
   seen(static_cast<uint64_t>(k * 4 + p * 2 + q));
}

void do_conv() {
   int i = reg(1);
   bool from = (A(4) & 1) != 0;
   int64_t kind = A(2), v = A(3);
   any_type(static_cast<int>(A(0)), [&]<class U>(U) {
      if(from) { // a value of type U becomes a T
         U u = draw<U>(kind, v);
         if(!convertible<T>(u)) {
            return;
         }
         spp::Strict<U> s{u};
         T w = static_cast<T>(u), got{};
         act([&] {
            switch(R(A(5), 4)) {
            case 0:
               got = member_cast<T>(s).val();
               break;
            case 1:
               got = spp::strict_cast<T>(s).val();
               break;
            case 2:
               got = spp::strict_cast<T>(u).val();
               break;
            default:
               got = spp::builtin_cast<T>(s);
               break;
            }
         });
         put(i, S{got}, w, "conversion of " + show(u) + " from type " + std::to_string(tid<U>()));
      } else {
         if(!convertible<U>(m[i])) {
            return;
         }
         U w = static_cast<U>(m[i]), got{};
         act([&] {
            switch(R(A(5), 8)) {
            case 0:
            case 1:
               got = member_cast<U>(x[i]).val();
               break;
            case 2:
               got = spp::strict_cast<U>(x[i]).val();
               break;
            case 3:
               got = spp::strict_cast<U>(m[i]).val();
               break;
            case 4:
               got = spp::builtin_cast<U>(x[i]);
               break;
            case 5:
               got = spp::builtin_cast<U>(m[i]);
               break;
            case 6:
               if constexpr(!std::is_same_v<U, bool> && !std::is_same_v<T, bool>) {
                  got = (A(5) & 8) != 0 ? spp::real_cast<U>(x[i]) : spp::real_cast<U>(m[i]);
               } else {
                  got = spp::builtin_cast<U>(x[i]);
               }
               break;
            default:
               if constexpr(is_flt<U> && is_int<T>) {
                  got = (A(5) & 8) != 0 ? spp::whole<U>(x[i]).val() : spp::whole<U>(m[i]).val();
               } else if constexpr(std::is_same_v<U, long>) {
                  got = (A(5) & 8) != 0 ? spp::to_index_t(x[i]).val() : spp::to_index_t(m[i]).val();
               } else if constexpr(std::is_same_v<U, unsigned long>) {
                  got = (A(5) & 8) != 0 ? spp::to_size_t(x[i]) : spp::to_size_t(m[i]);
               } else {
                  got = spp::strict_cast<U>(x[i]).val();
               }
               break;
            }
         });
         eq(got, w, "conversion of " + show(m[i]) + " to type " + std::to_string(tid<U>()));
         seen(mix2(bits(m[i]), static_cast<uint64_t>(tid<U>())));
      }
   });
}

void do_math() {
   if constexpr(is_flt<T>) {
      int d = reg(0), i = reg(1), k = static_cast<int>(R(A(2), 14));
      S v;
      SB f;
      act([&] {
         switch(k) {
         case 0:
            v = spp::exps(x[i]);
            break;
         case 1:
            v = spp::logs(x[i]);
            break;
         case 2:
            v = spp::log2s(x[i]);
            break;
         case 3:
            v = spp::log10s(x[i]);
            break;
         case 4:
            v = spp::sqrts(x[i]);
            break;
         case 5:
            v = spp::cbrts(x[i]);
            break;
         case 6:
            v = spp::sins(x[i]);
            break;
         case 7:
            v = spp::coss(x[i]);
            break;
         case 8:
            v = spp::tans(x[i]);
            break;
         case 9:
            v = spp::floors(x[i]);
            break;
         case 10:
            v = spp::ceils(x[i]);
            break;
         case 11:
            f = spp::isinfs(x[i]);
            break;
         case 12:
            f = spp::isnans(x[i]);
            break;
         default:
            f = spp::isfinites(x[i]);
            break;
         }
      });
      if(k < 11) {
         return put(d, v, library_math(k, m[i]), "function " + std::to_string(k) + " of " + show(m[i]));
      }
      bool nan = m[i] != m[i], inf = !nan && absolute(m[i]) > extreme<T>(0);
      eq(f.val(), k == 11 ? inf : k == 12 ? nan : !inf && !nan, "classification of " + show(m[i]));
      seen(mix2(bits(m[i]), static_cast<uint64_t>(k)));
   }
}

// p as an argument of one of the signed integer types.
template <class G>
void as_int(int64_t how, long q, G f) {
   switch(R(how, 4)) {
   case 0:
      return f(q);
   case 1:
      return f(static_cast<int>(q));
   case 2:
      return f(spp::index_t{q});
   default:
      return f(spp::StrictInt{static_cast<int>(q)});
   }
}

void do_power() {
   if constexpr(is_flt<T>) {
      int d = reg(0), i = reg(1), j = reg(2), l = reg(3);
      long q = R(A(4), 61) - 30;
      S v;
      switch(R(A(5), 6)) {
      case 0:
         act([&] { v = spp::pows(x[i], x[j]); });
         return put(d, v, library_pow(m[i], m[j]), "pows" + on("^", i, j));
      case 1:
         act([&] { v = spp::fmas(x[i], x[j], x[l]); });
         return put(d, v, library_fma(m[i], m[j], m[l]), "fmas" + on("*", i, j) + " + " + show(m[l]));
      case 2:
         as_int(A(6), q, [&](auto z) { act([&] { v = spp::pows_int(x[i], z); }); });
         return put(d, v, library_pow(m[i], static_cast<T>(q)), "pows_int " + show(m[i]) + " ^ " + std::to_string(q));
      case 3:
         as_int(A(6), q, [&](auto z) { act([&] { v = spp::exps_int<T>(z); }); });
         return put(d, v, library_math(0, static_cast<T>(q)), "exps_int " + std::to_string(q));
      default: {
         as_int(A(6), q, [&](auto z) { act([&] { v = spp::fast_pows_int(x[i], z); }); });
         std::string what = "fast_pows_int " + show(m[i]) + " ^ " + std::to_string(q);
         T w = library_pow(m[i], static_cast<T>(q)), y = v.val();
         T hi = scale(T(1), maxexp<T>() - 12), lo = scale(T(1), 12 - maxexp<T>());
         if(absolute(w) < hi && absolute(w) > lo) { // neither overflow nor underflow on the way
            T eps = extreme<T>(3);
            if(!(absolute(y - w) <= absolute(w) * eps * static_cast<T>(4 + 3 * std::abs(q)))) {
               bad("value", what + " gives " + show(y) + " where " + show(w) + " is expected");
            }
            // Whole numbers that fit are exact.
            if(q >= 0 && library_math(9, m[i]) == m[i] && absolute(w) < scale(T(1), digits<T>() - 1) && w != T(0)
               && !same(y, library_math(9, w))) {
               bad("value", what + " gives " + show(y) + ", not the whole number " + show(w));
            }
         }
         if(q == 0) {
            eq(y, T(1), what);
         }
         return put(d, v, y, what);
      }
      }
   }
}

void do_ipower() {
   if constexpr(is_int<T>) {
      int d = reg(0), i = reg(1);
      auto q = static_cast<T>(R(A(2), 70));
      T w = T(1);
      for(T k = 0; k < q; ++k) {
         if(!builtin_bin(MUL, w, m[i], w)) {
            return;
         }
      }
      S v;
      act([&] { v = spp::pows(x[i], S{q}); });
      put(d, v, w, "pows " + show(m[i]) + " ^ " + show(q));
   }
}

void do_comb() {
   spp::StrictLong got;
   long w = 1;
   std::string what;
   if((A(0) & 1) != 0) {
      long q = R(A(1), 21);
      for(long k = 2; k <= q; ++k) {
         w *= k;
      }
      as_int(A(3), q, [&](auto z) { act([&] { got = spp::factorial(z); }); });
      what = "factorial " + std::to_string(q);
   } else {
      long q = R(A(1), 61), k = R(A(2), q + 1);
      std::vector<long> row{1};
      for(long i = 1; i <= q; ++i) {
         std::vector<long> next(static_cast<size_t>(i + 1), 1);
         for(long j = 1; j < i; ++j) {
            next[static_cast<size_t>(j)] = row[static_cast<size_t>(j - 1)] + row[static_cast<size_t>(j)];
         }
         row = next;
      }
      w = row[static_cast<size_t>(k)];
      as_int(A(3), q, [&](auto z) { as_int(A(4), k, [&](auto y) { act([&] { got = spp::binom_coeff(z, y); }); }); });
      what = "binom_coeff " + std::to_string(q) + ", " + std::to_string(k);
   }
   eq(got.val(), w, what);
   seen(mix2(static_cast<uint64_t>(w), hash_bytes(what.data(), what.size())));
}

void do_between() {
   if constexpr(is_flt<T> || is_int<T>) {
      int d = reg(0), i = reg(1), j = reg(2), l = reg(3);
      T v = m[i], lo = m[j], hi = m[l];
      if(hi < lo) {
         std::swap(lo, hi);
         std::swap(j, l);
      }
      if(!(lo <= hi)) {
         return;
      }
      std::string what = show(v) + " in " + show(lo) + ", " + show(hi);
      SB f;
      switch(R(A(4), 6)) {
      case 0:
         act([&] { f = spp::in_open(x[i], x[j], x[l]); });
         eq(f.val(), v > lo && v < hi, "in_open " + what);
         break;
      case 1:
         act([&] { f = spp::in_closed(x[i], x[j], x[l]); });
         eq(f.val(), v >= lo && v <= hi, "in_closed " + what);
         break;
      case 2:
         act([&] { f = spp::in_open(spp::Value{x[i]}, spp::Low{x[j]}, spp::High{x[l]}); });
         eq(f.val(), v > lo && v < hi, "in_open " + what);
         break;
      case 3:
         act([&] { f = spp::in_closed(spp::Value{v}, spp::Low{lo}, spp::High{hi}); });
         eq(f.val(), v >= lo && v <= hi, "in_closed " + what);
         break;
      default: {
         if(v != v) {
            return;
         }
         S y;
         act([&] {
            y = (A(5) & 1) != 0 ? spp::clamps(x[i], x[j], x[l]) : spp::clamps(x[i], spp::Low{x[j]}, spp::High{x[l]});
         });
         return put(d, y, v < lo ? lo : hi < v ? hi : v, "clamps " + what);
      }
      }
      seen(mix2(mix2(bits(v), bits(lo)), bits(hi)));
   }
}

// Error-free transformations: the exact result is the sum of the two parts.
void do_pairs() {
   if constexpr(is_flt<T>) {
      auto part = [&](int64_t v) {
         uint64_t h = mix64(static_cast<uint64_t>(v));
         T y = scale(mantissa<T>(h), static_cast<int>(h % 25) - 12);
         if constexpr(digits<T>() > 53) { // leave room for an exact oracle
            y = static_cast<T>(static_cast<double>(y));
            if constexpr(digits<T>() > 64) {
               y = static_cast<T>(static_cast<float>(y));
            }
         }
         return (h >> 50) & 1 ? -y : y;
      };
      T u = part(A(1)), v = part(A(2));
      bool mul = (A(3) & 1) != 0;
      T s{}, e{};
      act([&] {
         auto [y, z] = mul ? spp::two_prods(S{u}, S{v}) : spp::two_sums(S{u}, S{v});
         s = y.val();
         e = z.val();
      });
      std::string what = (mul ? "two_prods " : "two_sums ") + show(u) + ", " + show(v);
      eq(s, mul ? u * v : u + v, what + " (first)");
      Wide exact = mul ? static_cast<Wide>(u) * static_cast<Wide>(v) : static_cast<Wide>(u) + static_cast<Wide>(v);
      if(static_cast<Wide>(s) + static_cast<Wide>(e) != exact) {
         bad("value", what + ": the second part is " + show(e) + " where " + show(static_cast<T>(exact - static_cast<Wide>(s)))
                         + " is expected");
      }
      seen(mix2(bits(u), mix2(bits(v), mul)));
   }
}

void do_powpair() {
   if constexpr(is_flt<T>) {
      uint64_t h = mix64(static_cast<uint64_t>(A(1)));
      T u = scale(mantissa<T>(h), static_cast<int>(h % 4) - 1);
      u = (h >> 50) & 1 ? -u : u;
      long q = R(A(2), 33);
      T s{}, e{};
      as_int(A(3), q, [&](auto z) {
         act([&] {
            auto [y, w] = spp::pow_prods(S{u}, z);
            s = y.val();
            e = w.val();
         });
      });
      Wide exact = 1, eps = scale(Wide(1), -digits<T>());
      for(long k = 0; k < q; ++k) {
         exact *= static_cast<Wide>(u);
      }
      std::string what = "pow_prods " + show(u) + ", " + std::to_string(q);
      auto k = static_cast<Wide>(q);
      if(wabs(static_cast<Wide>(s) - exact) > wabs(exact) * k * 2 * eps) {
         bad("value", what + ": first part " + show(s));
      }
      if constexpr(!is_quad<T>) {
         if(wabs(static_cast<Wide>(s) + static_cast<Wide>(e) - exact)
            > wabs(exact) * (k * k * 4 * eps * eps + k * scale(Wide(1), -111))) {
            bad("value", what + ": the second part is " + show(e) + " where " + show(static_cast<T>(exact - static_cast<Wide>(s)))
                            + " is expected");
         }
      }
      seen(mix2(bits(u), static_cast<uint64_t>(q)));
   }
}

void do_badnum() {
   int i = reg(0), j = reg(1);
   long k = R(A(2), 1000) + 1;
   k = k <= 400 ? 1 + k % 3 : k; // often next to the limit
   auto keep = [&](auto f) {
      return [this, i, f] {
         f(x[i]);
      };
   };
   (void)keep;
   switch(R(A(3), 16)) {
   case 0:
   case 1:
   case 2:
   case 3:
      if constexpr(is_int<T>) {
         S z{T(0)};
         switch(R(A(3), 16)) {
         case 0:
            return refuse("division by zero", [&] { x[i] /= z; });
         case 1:
            return refuse("remainder by zero", [&] { x[i] %= z; });
         case 2:
            return refuse("division by zero", [&] { (void)(x[i] / z); });
         default:
            return refuse("remainder by zero", [&] { (void)(x[i] % z); });
         }
      }
      return;
   case 4:
   case 5:
   case 6:
   case 7:
      if constexpr(is_sint<T>) {
         S z{static_cast<T>(-k)};
         S y{static_cast<T>(R(A(4), 30))};
         if((A(5) & 1) != 0) { // the shifted number is negative
            switch(R(A(3), 4)) {
            case 0:
               return refuse("shift of a negative number", [&] { (void)(z << y); });
            case 1:
               return refuse("shift of a negative number", [&] { (void)(z >> y); });
            case 2:
               return refuse("shift of a negative number", [&] {
                  S t = z;
                  t <<= y;
               });
            default:
               return refuse("shift of a negative number", [&] {
                  S t = z;
                  t >>= y;
               });
            }
         }
         switch(R(A(3), 4)) {
         case 0:
            return refuse("shift by a negative number", [&] { y <<= z; });
         case 1:
            return refuse("shift by a negative number", [&] { y >>= z; });
         case 2:
            return refuse("shift by a negative number", [&] { (void)(y << z); });
         default:
            return refuse("shift by a negative number", [&] { (void)(y >> z); });
         }
      }
      return;
   case 8:
      return refuse("factorial of a negative number", [&] { (void)spp::factorial(-k); });
   case 9:
      if((A(4) & 1) != 0) {
         return refuse("binom_coeff with k < 0", [&] { (void)spp::binom_coeff(k % 50, -k); });
      }
      return refuse("binom_coeff with n < k", [&] { (void)spp::binom_coeff(R(A(4), 40), R(A(4), 40) + R(A(5), 3) + 1); });
   case 10:
      if constexpr(is_sint<T>) {
         return refuse("pows with a negative exponent", [&] { (void)spp::pows(x[i], S{static_cast<T>(-k)}); });
      }
      if constexpr(is_flt<T>) {
         return refuse("pow_prods with a negative exponent", [&] { (void)spp::pow_prods(x[i], -k); });
      }
      return;
   case 11:
   case 12:
      if constexpr(is_flt<T> || is_int<T>) {
         if(!(m[i] < m[j])) {
            return;
         }
         switch(R(A(4), 4)) {
         case 0:
            return refuse("in_open with swapped bounds", [&] { (void)spp::in_open(x[0], x[j], x[i]); });
         case 1:
            return refuse("in_closed with swapped bounds", [&] { (void)spp::in_closed(x[0], x[j], x[i]); });
         case 2:
            return refuse("clamps with swapped bounds", [&] { (void)spp::clamps(x[0], x[j], x[i]); });
         default:
            return refuse("clamps with swapped bounds", [&] { (void)spp::clamps(x[0], spp::Low{x[j]}, spp::High{x[i]}); });
         }
      }
      return;
   case 13:
      if constexpr(is_flt<T>) {
         S nan{draw<T>(10, 0)}, y{T(1)};
         switch(R(A(4), 3)) {
         case 0:
            return refuse("clamps of a NaN", [&] { (void)spp::clamps(nan, y, y); });
         case 1:
            return refuse("clamps with a NaN bound", [&] { (void)spp::clamps(y, nan, y); });
         default:
            return refuse("clamps with a NaN bound", [&] { (void)spp::clamps(y, y, nan); });
         }
      }
      return;
   default:
      as_int(A(5), -k, [&](auto z) {
         switch(R(A(4), 9)) {
         case 0:
            return refuse("First", [&] { (void)spp::First{z}; });
         case 1:
            return refuse("Endmost", [&] { (void)spp::Endmost{z}; });
         case 2:
            return refuse("Size", [&] { (void)spp::Size{z}; });
         case 3:
            return refuse("Count", [&] { (void)spp::Count{z}; });
         case 4:
            return refuse("Pos", [&] { (void)spp::Pos{z}; });
         case 5:
            return refuse("Index", [&] { (void)spp::Index{z}; });
         case 6:
            return refuse("Rows", [&] { (void)spp::Rows{z}; });
         case 7:
            return refuse("Cols", [&] { (void)spp::Cols{z}; });
         default:
            return refuse("ImplicitNonNegInt", [&] { spp::ImplicitNonNegInt y = z; (void)y; });
         }
      });
   }
}

void do_consts() {
   if constexpr(is_flt<T> || is_int<T>) {
      eq(spp::Zero<T>.val(), T(0), "Zero");
      eq(spp::One<T>.val(), T(1), "One");
      if constexpr(is_flt<T> || is_sint<T>) {
         eq(spp::NegOne<T>.val(), T(-1), "NegOne");
      }
      eq(spp::Thousand<T>.val(), T(1000), "Thousand");
      eq(spp::Million<T>.val(), T(1000000), "Million");
      eq(spp::Billion<T>.val(), T(1000000000), "Billion");
   }
   eq(spp::true_sb.val(), true, "true_sb");
   eq(spp::false_sb.val(), false, "false_sb");
   if constexpr(is_flt<T>) {
      eq(spp::constants::epsilon<T>.val(), extreme<T>(3), "epsilon");
      T pi = spp::constants::pi<T>.val(), e = spp::constants::e<T>.val(), q = spp::constants::sqrt2<T>.val();
      T eps = extreme<T>(3);
      if(absolute(library_math(6, pi / T(2)) - T(1)) > eps || absolute(library_math(7, pi) + T(1)) > eps
         || absolute(pi - T(3.14159265358979323846L)) > T(1e-6)) {
         bad("value", "pi is " + show(pi));
      }
      if(absolute(library_math(1, e) - T(1)) > T(2) * eps) {
         bad("value", "e is " + show(e));
      }
      eq(q, library_math(4, T(2)), "sqrt2");
   }
   eq((42_si).val(), 42, "42_si");
   eq((2147483647_SI).val(), 2147483647, "2147483647_SI");
   eq((9223372036854775807_sl).val(), std::numeric_limits<long>::max(), "_sl");
   eq((1'000'000_SL).val(), 1000000L, "_SL");
   eq((4294967295_sui).val(), 4294967295u, "_sui");
   eq((7_SUI).val(), 7u, "_SUI");
   eq((18446744073709551615_sul).val(), ~0ul, "_sul");
   eq((8_SUL).val(), 8ul, "_SUL");
   eq((007_sl).val(), 7L, "_sl");
   eq((00_si).val(), 0, "_si");
   eq((0x1F_sl).val(), 31L, "_sl");
   eq((0b101_si).val(), 5, "_si");
   eq((0B11_sul).val(), 3ul, "_sul");
   eq((1.5_sf).val(), 1.5f, "_sf");
   eq((0.1_SF).val(), 0.1f, "_SF");
   eq((0.1_sd).val(), 0.1, "_sd");
   eq((2.25e10_SD).val(), 2.25e10, "_SD");
   eq((0.1_sl).val(), 0.1L, "floating _sl");
   eq((1e-400_SL).val(), 1e-400L, "floating _SL");
#ifdef STRICT_QUAD_PRECISION
   eq((1.5_sq).val(), static_cast<__float128>(1.5), "_sq");
   eq((0.1_sq).val(), static_cast<__float128>(1) / 10, "_sq");
   eq((1'000.5_SQ).val(), static_cast<__float128>(1000.5), "_SQ");
   eq((12'345'678_sq).val(), static_cast<__float128>(12345678), "_sq");
   eq((0x1.8p3_sq).val(), static_cast<__float128>(12), "_sq");
#endif
   SIM_COUNT("probe.consts");
}

void do_small() {
   int i = reg(0);
   T v = m[i];
   eq(spp::Low<T>{v}.get().val(), v, "Low");
   eq(spp::High<T>{x[i]}.get().val(), v, "High");
   eq(spp::Start<T>{v}.get().val(), v, "Start");
   eq(spp::End<T>{x[i]}.get().val(), v, "End");
   eq(spp::Incr<T>{v}.get().val(), v, "Incr");
   eq(spp::Value<T>{x[i]}.get().val(), v, "Value");
   long k = R(A(1), 1000), l = R(A(2), 2001) - 1000;
   as_int(A(3), k, [&](auto z) {
      eq(spp::First{z}.get().val(), k, "First");
      eq(spp::Endmost{z}.get().val(), k, "Endmost");
      eq(spp::Size{z}.get().val(), k, "Size");
      eq(spp::Count{z}.get().val(), k, "Count");
      eq(spp::Pos{z}.get().val(), k, "Pos");
      eq(spp::Index{z}.get().val(), k, "Index");
      eq(spp::Rows{z}.get().val(), k, "Rows");
      eq(spp::Cols{z}.get().val(), k, "Cols");
      spp::ImplicitNonNegInt y = z;
      eq(y.get().val(), k, "ImplicitNonNegInt");
   });
   as_int(A(3), l, [&](auto z) {
      spp::ImplicitInt y = z;
      spp::ImplicitInt o{k};
      eq(y.get().val(), l, "ImplicitInt");
      eq(spp::Stride{z}.get().val(), l, "Stride");
      eq((y + o).get().val(), l + k, "ImplicitInt +");
      eq((y - o).get().val(), l - k, "ImplicitInt -");
      eq((spp::last - z).get().val(), l, "last -");
      eq((spp::last + z).get().val(), -l, "last +");
      eq((y + spp::last).get().val(), -l, "+ last");
      eq((spp::last - k + z).get().val(), k - l, "last - +");
      spp::ImplicitIntStatic t = z, u = k;
      eq((t + u).get().val(), l + k, "ImplicitIntStatic +");
      eq((t - u).get().val(), l - k, "ImplicitIntStatic -");
   });
   auto sd = static_cast<unsigned>(mix64(static_cast<uint64_t>(A(4))));
   eq(spp::Seed{sd}.get().val(), sd, "Seed");
   seen(mix2(bits(v), mix2(static_cast<uint64_t>(k), static_cast<uint64_t>(l))));
}
