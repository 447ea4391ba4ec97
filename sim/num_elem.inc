// Steps on arrays of arbitrary values: element-wise expressions.

// The elements of an expression, by one of several ways.
template <class E>
static auto read1(int how, const E& e) {
   using U = spp::BuiltinTypeOf<E>;
   std::vector<U> out;
   auto add = [&](spp::Strict<U> y) {
      alloc::Host h;
      out.push_back(y.val());
   };
   long k = e.size().val();
   switch(how % 5) {
   case 0: {
      spp::Array1D<U> t(e);
      for(long i = 0; i < t.size().val(); ++i) {
         add(t.un(i));
      }
      break;
   }
   case 1:
      for(long i = 0; i < k; ++i) {
         add(e[i]);
      }
      break;
   case 2:
      for(auto y : e) {
         add(y);
      }
      break;
   case 3: {
      spp::Array1D<U> t(spp::Size{k});
      t = e;
      for(auto y : t) {
         add(y);
      }
      break;
   }
   default: {
      spp::Array1D<U> t(spp::Size{k + 2});
      t(spp::seqN{1, k}) = e;
      for(long i = 0; i < k; ++i) {
         add(t[i + 1]);
      }
      break;
   }
   }
   return out;
}
template <class E>
static auto read2(int how, const E& e) {
   using U = spp::BuiltinTypeOf<E>;
   std::vector<U> out;
   auto add = [&](spp::Strict<U> y) {
      alloc::Host h;
      out.push_back(y.val());
   };
   switch(how % 4) {
   case 0: {
      spp::Array2D<U> t(e);
      for(auto y : t) {
         add(y);
      }
      break;
   }
   case 1:
      for(long i = 0; i < e.rows().val(); ++i) {
         for(long j = 0; j < e.cols().val(); ++j) {
            add(e(i, j));
         }
      }
      break;
   case 2: {
      spp::Array2D<U> t(e.rows(), e.cols());
      t = e;
      for(long i = 0; i < t.size().val(); ++i) {
         add(t.un(i));
      }
      break;
   }
   default: {
      const auto v = e.view1D();
      for(long i = 0; i < v.size().val(); ++i) {
         add(v.un(i));
      }
      break;
   }
   }
   return out;
}
template <class E>
static auto read(int how, const E& e) {
   if constexpr(spp::OneDimBaseType<E>) {
      return read1(how, e);
   } else {
      return read2(how, e);
   }
}

// Calls f(operand, its values).
template <class F>
void operand(int64_t form, int64_t which, F f) {
   auto i = static_cast<size_t>(R(which, 3)), k = static_cast<size_t>(R(which, 2));
   switch(R(form, 7)) {
   case 0:
   case 1:
      return f(a[i], am[i]);
   case 2: {
      V w(am[i].rbegin(), am[i].rend());
      return f(std::as_const(a[i])(pl::reverse), w);
   }
   case 3: {
      auto h = static_cast<long>(am[i].size()) / 2;
      V w(am[i].begin() + h, am[i].end());
      return f(generate(a[i](spp::seqN{h, n - h}), [](auto y) { return y; }), w);
   }
   case 4:
   case 5:
      return f(g[k], gm[k]);
   default: {
      V w;
      for(long j = 0; j < c; ++j) {
         for(long l = 0; l < r; ++l) {
            w.push_back(gm[k][static_cast<size_t>(l * c + j)]);
         }
      }
      return f(transpose(g[k]), w);
   }
   }
}

static uint64_t hash_of(const V& w) {
   uint64_t h = w.size();
   for(T y : w) {
      h = mix2(h, bits(y));
   }
   return h;
}

void do_fill() {
   int64_t k = A(3);
   auto gen = [&](size_t i) {
      int64_t v = A(2) * 64 + static_cast<int64_t>(i);
      // Mostly harmless values, some from the edges.
      return draw<T>(R(k, 3) == 0 ? static_cast<int64_t>(mix64(static_cast<uint64_t>(v)) % 14)
                                  : static_cast<int64_t>(mix64(static_cast<uint64_t>(v)) % (is_flt<T> ? 7 : 4)),
                     v);
   };
   if((A(1) & 3) != 0 || n == 0) {
      auto s = static_cast<size_t>(R(A(0), 3));
      for(size_t i = 0; i < am[s].size(); ++i) {
         am[s][i] = gen(i);
         a[s][static_cast<long>(i)] = S{static_cast<T>(am[s][i])};
      }
   } else {
      auto s = static_cast<size_t>(R(A(0), 2));
      for(size_t i = 0; i < gm[s].size(); ++i) {
         gm[s][i] = gen(i);
         g[s].un(static_cast<long>(i)) = S{static_cast<T>(gm[s][i])};
      }
   }
}

void do_ewun() {
   int k = static_cast<int>(R(A(2), 7)), how = static_cast<int>(R(A(3), 60));
   operand(A(0), A(1), [&](const auto& e, const V& w) {
      V want = w, got;
      std::string what = "element-wise unary operation " + std::to_string(k);
      if constexpr(is_flt<T> || is_int<T>) {
         for(T& y : want) {
            if((k == 1 || k == 2) && !whole_abs(y)) {
               return;
            }
            y = k == 1   ? static_cast<T>(is_flt<T> || is_sint<T> ? -y : y)
                : k == 2 ? absolute(y)
                         : y;
         }
         switch(k) {
         case 1:
            if constexpr(is_flt<T> || is_sint<T>) {
               act([&] { got = read(how, -e); });
               break;
            }
            return;
         case 2:
            if constexpr(is_flt<T> || is_sint<T>) {
               act([&] { got = read(how, spp::abs(e)); });
               break;
            }
            return;
         case 3:
            if constexpr(is_int<T>) {
               for(T& y : want) {
                  y = static_cast<T>(~y);
               }
               act([&] { got = read(how, ~e); });
               break;
            }
            return;
         case 4:
            if constexpr(is_flt<T>) {
               for(T& y : want) {
                  y = T(1) / y;
               }
               act([&] { got = read(how, spp::inv(e)); });
               break;
            }
            return;
         case 5:
            act([&] { got = read(how, +e); });
            break;
         default:
            act([&] { got = read(how, e); });
            break;
         }
      } else {
         for(size_t i = 0; i < want.size(); ++i) {
            want[i] = !want[i];
         }
         act([&] { got = read(how, !e); });
      }
      eqv(got, want, what);
      seen(mix2(hash_of(w), static_cast<uint64_t>(k)));
   });
}

template <class E1, class E2>
static V binary_read(int o, int how, const E1& e, const E2& f) {
   if constexpr(is_flt<T> || is_int<T>) {
      switch(o) {
      case ADD:
         return read(how, e + f);
      case SUB:
         return read(how, e - f);
      case MUL:
         return read(how, e * f);
      case DIV:
         return read(how, e / f);
      default:
         break;
      }
   }
   if constexpr(is_int<T>) {
      switch(o) {
      case MOD:
         return read(how, e % f);
      case SHL:
         return read(how, e << f);
      case SHR:
         return read(how, e >> f);
      case AND:
         return read(how, e & f);
      case OR:
         return read(how, e | f);
      default:
         return read(how, e ^ f);
      }
   }
   if constexpr(std::is_same_v<T, bool>) {
      switch(o) {
      case 0:
         return read(how, e && f);
      case 1:
         return read(how, e || f);
      default:
         return read(how, e ^ f);
      }
   }
}
// The same on the model; false where the builtin operation is not defined for some element.
static bool model_bin(int o, const V& u, const V& v, V& w) {
   w.resize(u.size());
   for(size_t i = 0; i < u.size(); ++i) {
      if constexpr(std::is_same_v<T, bool>) {
         w[i] = o == 0 ? u[i] && v[i] : o == 1 ? u[i] || v[i] : u[i] != v[i];
      } else if(!builtin_bin(o, u[i], v[i], w[i])) {
         return false;
      }
   }
   return true;
}
static int array_bins() {
   return is_int<T> ? 10 : std::is_same_v<T, bool> ? 3 : 4;
}
// Makes the elements of array s possible second operands of operation o.
void tame(int o, int s) {
   if constexpr(is_int<T>) {
      auto k = static_cast<size_t>(s);
      bool shift = o == SHL || o == SHR;
      if(shift || o == DIV || o == MOD) {
         for(size_t i = 0; i < am[k].size(); ++i) {
            T y = am[k][i];
            T z = shift ? static_cast<T>(static_cast<uint64_t>(y) % (sizeof(T) * 8)) : y == T(0) ? T(3) : y;
            am[k][i] = z;
            a[k][static_cast<long>(i)] = S{z};
         }
      }
      if(shift) { // the shifted numbers must not be negative
         for(size_t l = 0; l < 3; ++l) {
            for(size_t i = 0; i < am[l].size(); ++i) {
               am[l][i] = am[l][i] < T(0) ? static_cast<T>(~am[l][i]) : am[l][i];
               a[l][static_cast<long>(i)] = S{am[l][i]};
            }
         }
      }
   }
}

void do_ewbin() {
   int o = static_cast<int>(R(A(2), array_bins())), how = static_cast<int>(R(A(3), 60));
   auto i = static_cast<size_t>(R(A(0), 3)), j = static_cast<size_t>(R(A(1), 3));
   V want, got;
   std::string what = "element-wise " + std::string(std::is_same_v<T, bool> ? "logical operation" : bin_name(o));
   if(R(A(4), 3) == 0) {
      if(!model_bin(o, gm[0], gm[1], want)) {
         return;
      }
      act([&] { got = binary_read(o, how, g[0], g[1]); });
   } else if(R(A(4), 3) == 1) {
      tame(o, static_cast<int>(j));
      if(!model_bin(o, am[i], am[j], want)) {
         return;
      }
      act([&] { got = binary_read(o, how, a[i], a[j]); });
   } else {
      tame(o, static_cast<int>(j));
      V u(am[i].rbegin(), am[i].rend());
      if(!model_bin(o, u, am[j], want)) {
         return;
      }
      act([&] { got = binary_read(o, how, a[i](pl::reverse), generate(a[j], [](auto y) { return y; })); });
   }
   eqv(got, want, what);
   seen(mix2(hash_of(want), static_cast<uint64_t>(o)));
}

void do_ewscal() {
   int o = static_cast<int>(R(A(2), array_bins())), how = static_cast<int>(R(A(3), 60));
   int l = reg(4);
   bool left = (A(5) & 1) != 0, two = (A(5) & 6) == 0;
   auto i = static_cast<size_t>(R(A(0), 3));
   if constexpr(is_int<T>) {
      if(!left && (o == SHL || o == SHR)) {
         tame(o, static_cast<int>(R(A(1), 3)));
      }
   }
   shiftable(o, l);
   const V& u = two ? gm[0] : am[i];
   V v(u.size(), m[l]), want, got;
   if(!(left ? model_bin(o, v, u, want) : model_bin(o, u, v, want))) {
      return;
   }
   if constexpr(is_int<T>) {
      // A divisor that is zero is refused also when there is no element to divide.
      if(!left && (o == DIV || o == MOD) && m[l] == T(0)) {
         return;
      }
   }
   if(two) {
      act([&] { got = left ? binary_read(o, how, x[l], g[0]) : binary_read(o, how, g[0], x[l]); });
   } else {
      act([&] { got = left ? binary_read(o, how, x[l], a[i]) : binary_read(o, how, a[i], x[l]); });
   }
   eqv(got, want, std::string("element-wise operation with ") + show(m[l]) + (left ? " on the left" : " on the right"));
   seen(mix2(mix2(hash_of(u), bits(m[l])), static_cast<uint64_t>(o * 2 + left)));
}

void do_ewcomp() {
   if constexpr(is_flt<T> || is_int<T>) {
      int o = static_cast<int>(R(A(2), bins())), l = reg(4);
      auto i = static_cast<size_t>(R(A(0), 3)), j = static_cast<size_t>(R(A(1), 3));
      V want;
      int form = static_cast<int>(R(A(5), 5));
      if(form == 0) {
         shiftable(o, l);
         if constexpr(is_int<T>) {
            if((o == DIV || o == MOD) && m[l] == T(0)) {
               return;
            }
         }
         if(!model_bin(o, am[i], V(am[i].size(), m[l]), want)) {
            return;
         }
         act([&] { strict_comp(o, a[i], x[l]); });
         am[i] = want;
      } else if(form == 1) {
         if(!model_bin(o, gm[0], gm[1], want)) {
            return;
         }
         act([&] { strict_comp(o, g[0], g[1]); });
         gm[0] = want;
      } else if(form == 2 && i != j) {
         tame(o, static_cast<int>(j));
         V u(am[i].rbegin(), am[i].rend());
         if(!model_bin(o, u, am[j], want)) {
            return;
         }
         act([&] {
            auto s = a[i](pl::reverse);
            strict_comp(o, s, a[j]);
         });
         am[i].assign(want.rbegin(), want.rend());
      } else {
         tame(o, static_cast<int>(j));
         if(!model_bin(o, am[i], am[j], want)) {
            return;
         }
         act([&] { strict_comp(o, a[i], a[j]); });
         am[i] = want;
      }
      seen(mix2(hash_of(want), static_cast<uint64_t>(o)));
   }
}

void do_ewmath() {
   if constexpr(is_flt<T>) {
      int k = static_cast<int>(R(A(2), 12)), how = static_cast<int>(R(A(3), 60)), l = reg(4);
      long q = R(A(5), 21) - 10;
      // Exponents for which there are shortcuts.
      static const double handy[] = {0.5, -0.5, 2, 1, 0, -1, 3, 1.5, -2, 0.25};
      int64_t h = R(A(5) / 21, 20);
      S pw = h < 10 ? S{static_cast<T>(handy[h])} : x[l];
      operand(A(0), A(1), [&](const auto& e, const V& w) {
         V want = w, got;
         for(T& y : want) {
            y = k < 9 ? library_math(k, y) : library_pow(y, k == 9 ? pw.val() : static_cast<T>(q));
         }
         act([&] {
            switch(k) {
            case 0:
               got = read(how, exp(e));
               break;
            case 1:
               got = read(how, log(e));
               break;
            case 2:
               got = read(how, log2(e));
               break;
            case 3:
               got = read(how, log10(e));
               break;
            case 4:
               got = read(how, sqrt(e));
               break;
            case 5:
               got = read(how, cbrt(e));
               break;
            case 6:
               got = read(how, sin(e));
               break;
            case 7:
               got = read(how, cos(e));
               break;
            case 8:
               got = read(how, tan(e));
               break;
            case 9:
               got = read(how, pow(e, pw));
               break;
            case 10:
               got = read(how, pow_int(e, q));
               break;
            default:
               got = read(how, fast_pow_int(e, q));
               break;
            }
         });
         std::string what = "element-wise function " + std::to_string(k);
         if(k == 11) { // the scalar function is checked by itself
            for(size_t i = 0; i < want.size(); ++i) {
               want[i] = spp::fast_pows_int(S{w[i]}, q).val();
            }
         }
         eqv(got, want, what);
         seen(mix2(hash_of(w), static_cast<uint64_t>(k)));
      });
   }
}

void do_ewcast() {
   int how = static_cast<int>(R(A(3), 60));
   any_type(static_cast<int>(A(2)), [&]<class U>(U) {
      operand(A(0), A(1), [&](const auto& e, const V& w) {
         std::vector<U> want, got;
         for(T y : w) {
            if(!convertible<U>(y)) {
               return;
            }
            want.push_back(static_cast<U>(y));
         }
         act([&] { got = read(how, spp::array_cast<U>(e)); });
         if(got.size() != want.size()) {
            bad("value", "array_cast changes the size");
         }
         for(size_t i = 0; i < got.size(); ++i) {
            eq(static_cast<U>(got[i]), static_cast<U>(want[i]), "array_cast of " + show(static_cast<T>(w[i])) + " to type " + std::to_string(tid<U>()));
         }
         seen(mix2(hash_of(w), static_cast<uint64_t>(tid<U>())));
      });
   });
}
