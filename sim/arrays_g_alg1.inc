// Step implementations, group alg1: queries and reductions of 1-D operands, selections, rejected queries.

STEP(red1) {
   int s = s0(), form = algform1(5), fn = redfn();
   int64_t p = A(1), q = A(2);
   const V w = model1(form, s, p, q, true);
   if constexpr(arith) {
      S x = sought(w);
      ask(redw(fn, w, -1, x), fn, [&] {
         Ans r;
         operand1<true>(form, s, p, q, usable([&](const auto& e) { r = red(fn, e, x); }));
         return r;
      });
   } else {
      // Boolean elements: counting only.
      S x = sv(A(4) / 4);
      bool def = (A(3) & 1) != 0, bd = (A(4) & 1) != 0;
      long eq = 0, n = static_cast<long>(w.size());
      for(size_t i = 0; i < w.size(); ++i) {
         eq += static_cast<T>(w[i]) == x.val();
      }
      int k = fn % 3;
      Ans want = wflag(n == 0 ? def && bd : k == 0 ? eq == 0 : k == 1 ? eq > 0 : eq == n);
      ask(want, fn, [&] {
         Ans r;
         operand1<true>(form, s, p, q, usable([&](const auto& e) {
            spp::StrictBool d{bd};
            r = flag(k == 0   ? (def ? spp::none_of(e, x, d) : spp::none_of(e, x))
                     : k == 1 ? (def ? spp::any_of(e, x, d) : spp::any_of(e, x))
                              : (def ? spp::all_of(e, x, d) : spp::all_of(e, x)));
         }));
         return r;
      });
   }
}

STEP(tiny1) {
   if constexpr(arith) {
      int s = s0(), form = algform1(5), fn = static_cast<int>(R(A(3) / 2, n_tiny));
      int64_t p = A(1), q = A(2);
      long lp = R(A(4) / 8, 9) + 1;
      const V w = model1(form, s, p, q, true);
      S x{static_cast<T>(sgn ? R(A(4) / 128, 5) - 2 : R(A(4) / 128, 3))};
      Ans want;
      if(tinyans(fn, w, false, lp, x, want)) {
         ask(want, 100 + fn, [&] {
            Ans r;
            operand1<true>(form, s, p, q, usable([&](const auto& e) { r = tiny(fn, e, lp, x); }));
            return r;
         });
      }
   }
}

STEP(pair1) {
   int s = s0(), t = s1(), form = algform1(5), fn = static_cast<int>(R(A(3) / 2, n_pair));
   auto ut = static_cast<size_t>(t);
   int64_t p = A(1), q = A(2);
   const V w = model1(form, s, p, q, true);
   const V v = m.m1[ut];
   long n = static_cast<long>(w.size()), z = std::min<long>(n, len(t));
   namespace pl = spp::place;
   if constexpr(arith) {
      if(fn == 15) {
         // Coefficients, points and powers.
         V c = tinyw(w);
         c.resize(static_cast<size_t>(z));
         V u = tinyw(v);
         std::vector<long> pw;
         T x = static_cast<T>(sgn ? R(A(4) / 128, 5) - 2 : R(A(4) / 128, 3));
         int kind = static_cast<int>(R(A(4) / 2, spp::Floating<T> ? 4 : 2));
         bool def = (A(3) & 1) != 0;
         S d = sv(A(4) + 3);
         T r{};
         for(long i = 0; i < z; ++i) {
            pw.push_back(R(A(4) / 16 + i * 5, 6));
            T b = kind % 2 == 0 ? x : static_cast<T>(u[static_cast<size_t>(i)]);
            r = static_cast<T>(r + static_cast<T>(static_cast<T>(c[static_cast<size_t>(i)]) * ipow(b, pw.back())));
         }
         if(z == 0) {
            r = def ? d.val() : T{};
         }
         return ask(wapx(r), 200 + fn + kind * 10, [&] {
            Ans o;
            operand1<true>(form, s, p, q, usable([&](const auto& e) {
               auto low = [](auto y) {
                  ticker.tick();
                  return S{tinyv(S{y}.val())};
               };
               auto g = spp::generate(e, low);
               spp::Array1D<T> cs(g);
               cs.resize(z);
               spp::Array1D<T> X(a[t](pl::firstN{z}));
               for(long i = 0; i < z; ++i) {
                  X.un(i) = S{tinyv(X.un(i).val())};
               }
               spp::Array1D<long> P(z);
               for(long i = 0; i < z; ++i) {
                  P.un(i) = spp::Strict<long>{pw[static_cast<size_t>(i)]};
               }
               switch(kind) {
               case 0:
                  o = num(def ? spp::polynomial(cs, S{x}, P, d) : spp::polynomial(cs, S{x}, P));
                  return;
               case 1:
                  o = num(def ? spp::gpolynomial(cs, X, P, d) : spp::gpolynomial(cs, X, P));
                  return;
               default:
                  break;
               }
               if constexpr(spp::Floating<T>) {
                  o = kind == 2 ? num(def ? spp::stable_polynomial(cs, S{x}, P, d) : spp::stable_polynomial(cs, S{x}, P))
                                : num(def ? spp::stable_gpolynomial(cs, X, P, d) : spp::stable_gpolynomial(cs, X, P));
               }
            }));
            return o;
         });
      }
      // Half of the time on sizes that match, with equal beginnings now and then.
      int cut = static_cast<int>(R(A(0) / 9, 4));
      bool fits = cut != 0;
      V want2 = v;
      if(fits) {
         want2.resize(static_cast<size_t>(z));
         if(z < n) {
            if(form != 0) {
               return;
            }
         }
      }
      V w1 = w;
      if(fits) {
         w1.resize(static_cast<size_t>(z));
         if(cut == 1) {
            want2 = w1;
         }
      }
      bool same = w1.size() == want2.size();
      Ans want;
      if(!pairans(fn, w1, want2, same, want)) {
         return;
      }
      ask(want, 200 + fn, [&] {
         Ans o;
         if(!fits) {
            operand1<true>(form, s, p, q, usable([&](const auto& e) { o = pair(fn, e, std::as_const(a[t])); }));
         } else if(form == 0) {
            const A1& ca = a[s];
            if(cut == 1) {
               o = pair(fn, ca(pl::firstN{z}), a[s](pl::firstN{z}));
            } else {
               o = pair(fn, ca(pl::firstN{z}), a[t](pl::firstN{z}));
            }
         } else {
            operand1<true>(form, s, p, q, usable([&](const auto& e) {
               if(cut == 1) {
                  o = pair(fn, e, e);
               } else {
                  o = pair(fn, e, a[t](pl::firstN{z}));
               }
            }));
         }
         return o;
      });
   } else {
      Ans want = wflag(fn % 2 == 0 ? w == v : !(w == v));
      ask(want, 200 + fn, [&] {
         Ans o;
         operand1<true>(form, s, p, q, usable([&](const auto& e) { o = flag(fn % 2 == 0 ? e == a[t] : a[t] != e); }));
         return o;
      });
   }
}

// Selections of the elements in a range or satisfying a condition: read and written through.
STEP(sel1) {
   if constexpr(arith) {
      int s = s0();
      auto us = static_cast<size_t>(s);
      const V v = m.m1[us];
      long n = len(s);
      T lo = n > 0 && (A(3) & 1) ? static_cast<T>(v[static_cast<size_t>(R(A(3) / 8, n))]) : val(A(3));
      T hi = n > 0 && (A(3) & 2) ? static_cast<T>(v[static_cast<size_t>(R(A(3) / 16, n))]) : val(A(3) / 3);
      if(hi < lo) {
         std::swap(lo, hi);
      }
      S l{lo}, h{hi};
      int kind = static_cast<int>(R(A(2), 64) % 10);
      bool closed = kind >= 5;
      Ix ix;
      auto in = [&](T x) { return closed ? x >= lo && x <= hi : x > lo && x < hi; };
      for(long i = 0; i < n; ++i) {
         if(in(v[static_cast<size_t>(i)])) {
            ix.push_back(i);
         }
      }
      auto cond = [l, h, closed](auto x) {
         ticker.tick();
         return closed ? x >= l && x <= h : x > l && x < h;
      };
      const A1& c = a[s];
      switch(kind % 5) {
      case 0:
         return look1([&] { return closed ? spp::in_closed_range(c, l, h) : spp::in_open_range(c, l, h); }, pick(v, ix));
      case 1:
         return put1(
            [&] {
               return closed ? spp::in_closed_range(a[s], spp::Low{l}, spp::High{h})
                             : spp::in_open_range(a[s], spp::Low{l}, spp::High{h});
            },
            s, ix);
      case 2:
         return look1([&] { return spp::in_cond_range(c, cond); }, pick(v, ix));
      case 3:
         return put1([&] { return spp::in_cond_range(a[s], cond); }, s, ix);
      default: {
         // On a slice, backwards.
         Ix jx(ix.rbegin(), ix.rend());
         return put1([&] { return spp::in_cond_range(a[s](spp::place::reverse), cond); }, s, jx);
      }
      }
   }
}

// Queries that must be refused.
STEP(badalg) {
   if constexpr(arith) {
      namespace pl = spp::place;
      int s = s0();
      auto us = static_cast<size_t>(s);
      const A1& x = a[s];
      const A2& y = b[s];
      long n = len(s), r = m.m2[us].r, c = m.m2[us].c;
      long k = 1 + R(A(3), 3);
      auto yes = [](auto, auto) { return spp::true_sb; };
      auto more = [&] { return spp::const1D(n + k, S{T(1)}); };
      S lo = sv(A(4)), hi{static_cast<T>(lo.val() + T(k))};
      // n: negative power or small order, at a position of the operand.
      auto powers = [&](long size, bool neg) {
         spp::Array1D<long> p(spp::Size{size}, spp::Value{2L});
         if(neg) {
            p.un(R(A(5), size)) = spp::Strict<long>{-k};
         }
         return p;
      };
      switch(R(A(2), 64) % 24) {
      case 0:
         return reject([&] { (void)spp::dot_prod(x, more()); });
      case 1:
         if(n > 0) {
            return reject([&] { (void)spp::dot_prod(x, x(pl::firstN{n - 1})); });
         }
         return;
      case 2:
         return reject([&] { (void)spp::any_of(x, more(), yes); });
      case 3:
         return reject([&] { (void)spp::all_of(more(), x(pl::reverse), yes); });
      case 4:
         return reject([&] { (void)spp::none_of(x, more(), yes); });
      case 5:
         return reject([&] { (void)spp::in_open_range(x, hi, lo); });
      case 6:
         return reject([&] { (void)spp::in_closed_range(a[s], spp::Low{hi}, spp::High{lo}); });
      case 7:
         return reject([&] { (void)spp::polynomial(x, S{T(1)}, powers(n + k, false)); });
      case 8:
         if(n > 0) {
            return reject([&] { (void)spp::polynomial(x, S{T(1)}, powers(n, true)); });
         }
         return;
      case 9:
         return reject([&] { (void)spp::gpolynomial(x, x, powers(n + k, false)); });
      case 10:
         return reject([&] { (void)spp::gpolynomial(x, more(), powers(n, false)); });
      case 11:
         if(n > 0) {
            return reject([&] { (void)spp::gpolynomial(x, x, powers(n, true)); });
         }
         return;
      case 12:
         if(r > 0) {
            return reject([&] { (void)spp::dot_prod(y, spp::const2D(r + k, c, S{T(1)})); });
         }
         return;
      case 13:
         if(r > 0 && r != c) {
            return reject([&] { (void)spp::dot_prod(y, spp::const2D(c, r, S{T(1)})); });
         }
         return;
      case 14:
         if(r > 0) {
            return reject([&] { (void)spp::all_of(y, spp::const2D(r, c + k, S{T(1)}), yes); });
         }
         return;
      case 15:
         if(r > 1) {
            // As many elements, another shape.
            return reject([&] { (void)spp::any_of(y, spp::const2D(1, r * c, S{T(1)}), yes); });
         }
         return;
      default:
         break;
      }
      if constexpr(spp::Floating<T>) {
         switch(R(A(2), 64) % 24) {
         case 16:
            return reject([&] { (void)spp::norm_lp(x, 1 - k); });
         case 17:
            return reject([&] { (void)spp::norm_lp_scaled(x, 1 - k); });
         case 18:
            return reject([&] { (void)spp::stable_norm_lp(y, 1 - k); });
         case 23:
            return reject([&] { (void)spp::stable_norm_lp_scaled(x, 1 - k); });
         case 19:
            return reject([&] { (void)spp::stable_dot_prod(x, more()); });
         case 20:
            return reject([&] { (void)spp::semi_stable_dot_prod(x, more()); });
         case 21:
            return reject([&] { (void)spp::within_tol_abs(x, more()); });
         case 22:
            return reject([&] { (void)spp::max_abs_error(x, more()); });
         default:
            if(k == 1) {
               return reject([&] { (void)spp::max_rel_error(more(), x); });
            }
            if(k == 2) {
               return reject([&] { (void)spp::within_tol_abs(S{T(1)}, S{T(1)}, S{T(-1)}); });
            }
            return reject([&] { (void)spp::stable_gpolynomial(x, x, powers(n + k, false)); });
         }
      }
   }
}
