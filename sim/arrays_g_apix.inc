// Step implementations, group apix: element-wise operators on arrays, slices and views, and expressions.

// Compound assignments.
STEP(apiop) {
   namespace pl = spp::place;
   int s = s0(), t = s1x();
   auto us = static_cast<size_t>(s), ut = static_cast<size_t>(t);
   int64_t p = A(3), q = A(4);
   int op = static_cast<int>(R(A(2) / 64, n_bops));
   long n = len(s), nt = len(t);
   long r = m.m2[us].r, c = m.m2[us].c;
   T k = bop_scalar(op, q);
   auto rep = [&](long cnt) { return V(static_cast<size_t>(cnt), k); };
   auto count_up = [&](long cnt) {
      V w;
      for(long i = 0; i < cnt; ++i) {
         w.push_back(static_cast<T>(i % 7 + 1));
      }
      return w;
   };
   auto up = [](auto i) { return S{static_cast<T>(i.val() % 7 + 1)}; };
   V& v = m.m1[us];
   switch(R(A(2), 64) % 24) {
   case 0:
      return comp(op, [&]() -> A1& { return a[s]; }, s, iota_ix(n), [&] { return S{k}; }, rep(n));
   case 1:
      return comp(op, [&]() -> A1& { return a[s]; }, s, iota_ix(n), [&] { return generate(spp::irange(n), up); },
                  count_up(n));
   case 2:
      return comp(op, [&] { return a[s](pl::reverse); }, s, iota_ix(n, n - 1, -1), [&] { return S{k}; }, rep(n));
   case 3:
      return comp(op, [&] { return a[s](pl::odd); }, s, iota_ix(n / 2, 1, 2),
                  [&] { return generate(spp::irange(n / 2), up); }, count_up(n / 2));
   case 4:
      if(n > 0) {
         Ix ix = subset(n, p, q);
         return comp(op, [&] { return a[s](vi(ix)); }, s, ix,
                     [&] { return spp::const1D(static_cast<long>(ix.size()), S{k}); },
                     rep(static_cast<long>(ix.size())));
      }
      return;
   case 5: {
      long z = std::min(n, nt);
      return comp(op, [&] { return a[s](pl::firstN{z}); }, s, iota_ix(z), [&] { return a[t](pl::lastN{z}); },
                  pick(m.m1[ut], iota_ix(z, nt - z)));
   }
   case 6: // with itself
      return comp(op, [&]() -> A1& { return a[s]; }, s, iota_ix(n), [&]() -> A1& { return a[s]; }, v);
   case 7:
      return comp(op, [&] { return a[s].view1D(); }, s, iota_ix(n), [&] { return generate(a[s], [](auto e) { return e; }); },
                  v);
   case 8:
      return comp(op, [&]() -> auto& { return f1; }, 6, iota_ix(5), [&] { return S{k}; }, rep(5));
   case 9:
      return comp(op, [&]() -> auto& { return f1; }, 6, iota_ix(5), [&] { return generate(spp::irange(5), up); },
                  count_up(5));
   case 10:
      return comp(op, [&]() -> auto& { return f2; }, 7, iota_ix(6), [&] { return S{k}; }, rep(6));
   case 11:
      return comp(op, [&]() -> auto& { return f2; }, 7, iota_ix(6), [&] { return spp::const2D(2, 3, S{k}); }, rep(6));
   case 12:
      return comp(op, [&]() -> A2& { return b[s]; }, s + 3, iota_ix(r * c), [&] { return S{k}; }, rep(r * c));
   case 13:
      if(r > 0) {
         return comp(op, [&]() -> A2& { return b[s]; }, s + 3, iota_ix(r * c),
                     [&] { return spp::const2D(r, c, S{k}); }, rep(r * c));
      }
      return;
   case 14:
      if(r > 0) {
         return comp(op, [&]() -> A2& { return b[s]; }, s + 3, iota_ix(r * c),
                     [&] { return generate(spp::irange(r * c), up).view2D(r, c); }, count_up(r * c));
      }
      return;
   case 15:
      if(r > 0) {
         long i = R(p, r);
         if((q & 1) != 0) {
            return comp(op, [&] { return b[s].row(i); }, s + 3, iota_ix(c, i * c), [&] { return S{k}; }, rep(c));
         }
         return comp(op, [&] { return b[s].row(i); }, s + 3, iota_ix(c, i * c),
                     [&] { return generate(spp::irange(c), up); }, count_up(c));
      }
      return;
   case 16:
      if(r > 0) {
         long j = R(p, c);
         return comp(op, [&] { return b[s].col(j); }, s + 3, iota_ix(r, j, c), [&] { return generate(spp::irange(r), up); },
                     count_up(r));
      }
      return;
   case 17:
      if(r > 0) {
         Blk z = mkblk(r, c, p, q);
         Ix ix;
         for(long i = 0; i < z.nr; ++i) {
            for(long j = 0; j < z.nc; ++j) {
               ix.push_back((z.r0 + i) * c + z.c0 + j);
            }
         }
         return comp(op, [&] { return b[s].blockN(z.r0, z.c0, z.nr, z.nc); }, s + 3, ix,
                     [&] { return spp::const2D(z.nr, z.nc, S{k}); }, rep(z.nr * z.nc));
      }
      return;
   case 18: {
      Ix ix = diag_ix(r, c, 0);
      return comp(op, [&] { return b[s].diag(); }, s + 3, ix, [&] { return S{k}; }, rep(static_cast<long>(ix.size())));
   }
   case 19:
      if(r > 0) { // rows turned upside down
         Ix ix;
         for(long i = r - 1; i >= 0; --i) {
            for(long j = 0; j < c; ++j) {
               ix.push_back(i * c + j);
            }
         }
         return comp(op, [&] { return b[s].rows(pl::reverse); }, s + 3, ix, [&] { return S{k}; }, rep(r * c));
      }
      return;
   case 20:
      if(m.m2[us].r == m.m2[ut].r && m.m2[us].c == m.m2[ut].c) {
         return comp(op, [&]() -> A2& { return b[s]; }, s + 3, iota_ix(r * c), [&]() -> A2& { return b[t]; },
                     m.m2[ut].v);
      }
      return;
   case 21: {
      auto* d = reinterpret_cast<T*>(a[s].data());
      return comp(op, [&] { return spp::attach1D(d, n); }, s, iota_ix(n), [&] { return S{k}; }, rep(n));
   }
   case 22:
      return comp(op, [&] { return b[s].view1D(); }, s + 3, iota_ix(r * c), [&] { return S{k}; }, rep(r * c));
   default: {
      long f = factor(n, p);
      if(n > 0) {
         return comp(op, [&] { return a[s].view2D(f, n / f); }, s, iota_ix(n),
                     [&] { return spp::const2D(f, n / f, S{k}); }, rep(n));
      }
   }
   }
}

// Expressions, read after they were composed from temporaries.
STEP(apiexp) {
   namespace pl = spp::place;
   int s = s0(), t = s1();
   auto us = static_cast<size_t>(s), ut = static_cast<size_t>(t);
   int64_t p = A(3), q = A(6);
   int op = static_cast<int>(R(A(2) / 64, n_bops));
   const A1& cx = a[s];
   const A2& cb = b[s];
   long n = len(s), nt = len(t);
   const M2 mv = m.m2[us];
   long r = mv.r, c = mv.c;
   const V v = m.m1[us];
   T k = bop_scalar(op, q);
   V rep(v.size(), k);
   auto call = [&](const V& want) { return [this, want](auto mk) { look1(mk, want); }; };
   auto shape = [&](const V& want) {
      return [this, o = M2{r, c, want}](auto mk) { look2(mk, o); };
   };
   switch(R(A(2), 64) % 31) {
   case 0: {
      long z = std::min(n, nt);
      V x = pick(v, iota_ix(z)), y = pick(m.m1[ut], iota_ix(z, nt - 1, -1));
      if(bop_ok(op, x, y, false)) {
         binary(op, [&] { return cx(pl::firstN{z}); }, [&] { return a[t](pl::reverse)(pl::firstN{z}); }, call(bop(op, x, y)));
      }
      return;
   }
   case 1:
   case 2:
      if(bop_ok(op, v, rep, false)) {
         binary(op, [&]() -> auto& { return cx; }, [&] { return S{k}; }, call(bop(op, v, rep)));
      }
      return;
   case 3:
      if(bop_ok(op, rep, v, false)) {
         binary(op, [&] { return S{k}; }, [&]() -> auto& { return cx; }, call(bop(op, rep, v)));
      }
      return;
   case 4:
      if(bop_ok(op, v, v, false)) {
         binary(op, [&]() -> auto& { return cx; }, [&]() -> auto& { return cx; }, call(bop(op, v, v)));
      }
      return;
   case 5:
   case 6: {
      V w(mv.v.size(), k);
      if(bop_ok(op, mv.v, w, false)) {
         binary(op, [&]() -> auto& { return cb; }, [&] { return S{k}; }, shape(bop(op, mv.v, w)));
      }
      return;
   }
   case 7: {
      V w(mv.v.size(), k);
      if(bop_ok(op, w, mv.v, false)) {
         binary(op, [&] { return S{k}; }, [&]() -> auto& { return cb; }, shape(bop(op, w, mv.v)));
      }
      return;
   }
   case 8:
      if(bop_ok(op, mv.v, mv.v, false)) {
         binary(op, [&]() -> auto& { return cb; }, [&] { return b[s](pl::all, pl::all); }, shape(bop(op, mv.v, mv.v)));
      }
      return;
   case 9:
      if(r > 0) {
         V w(mv.v.size(), k);
         if(bop_ok(op, mv.v, w, false)) {
            binary(op, [&]() -> auto& { return cb; }, [&] { return spp::const2D(r, c, S{k}); }, shape(bop(op, mv.v, w)));
         }
      }
      return;
   case 10: { // unary operators
      V w = v;
      int u = static_cast<int>(R(A(7), 5));
      if(!small_values(v)) {
         return;
      }
      switch(u) {
      case 0:
         return look1([&] { return +cx(pl::all); }, w);
      case 1:
         if constexpr(sgn) {
            for(size_t i = 0; i < w.size(); ++i) {
               w[i] = static_cast<T>(-static_cast<T>(w[i]));
            }
            return look1([&] { return -cx; }, w);
         }
         return;
      case 2:
         if constexpr(integer) {
            for(size_t i = 0; i < w.size(); ++i) {
               w[i] = static_cast<T>(~static_cast<T>(w[i]));
            }
            return look1([&] { return ~cx(pl::all); }, w);
         }
         return;
      case 3:
         if constexpr(sgn) {
            for(size_t i = 0; i < w.size(); ++i) {
               T x = static_cast<T>(w[i]);
               w[i] = static_cast<T>(x < T(0) ? -x : x);
            }
            return look1([&] { return spp::abs(cx); }, w);
         }
         return;
      default:
         return look1([&] { return spp::array_cast<T>(spp::array_cast<double>(cx)); }, w);
      }
   }
   case 11: {
      if(!small_values(mv.v)) {
         return;
      }
      M2 w = mv;
      switch(R(A(7), 3)) {
      case 0:
         return look2([&] { return +cb; }, w);
      case 1:
         if constexpr(sgn) {
            for(size_t i = 0; i < w.v.size(); ++i) {
               w.v[i] = static_cast<T>(-static_cast<T>(w.v[i]));
            }
            return look2([&] { return -cb; }, w);
         }
         return;
      default:
         return look2([&] { return spp::array_cast<T>(spp::array_cast<double>(cb)); }, w);
      }
   }
   case 12:
   case 13:
   case 14: { // matrix times vector, of several origins
      T w0 = static_cast<T>(R(q, 9));
      for(size_t i = 0; i < mv.v.size(); ++i) {
         if(!bop_ok(2, static_cast<T>(mv.v[i]), T(1), false)) {
            return;
         }
      }
      V x;
      int how = static_cast<int>(R(A(7), 5));
      for(long j = 0; j < c; ++j) {
         x.push_back(static_cast<T>(how == 0 ? w0
                                    : how == 1 ? static_cast<T>(j + 1)
                                    : how == 2 ? (j < 5 ? static_cast<T>(m.f1[static_cast<size_t>(j)]) : T(0))
                                    : j < nt   ? static_cast<T>(m.m1[ut][static_cast<size_t>(how == 3 ? nt - 1 - j : j)])
                                               : T(0)));
      }
      if((how == 2 && c > 5) || (how > 2 && c > nt) || !bop_ok(2, x, x, false)) {
         return;
      }
      V y;
      for(long i = 0; i < r; ++i) {
         T z{};
         for(long j = 0; j < c; ++j) {
            z = static_cast<T>(z + static_cast<T>(static_cast<T>(mv.at(i, j)) * static_cast<T>(x[static_cast<size_t>(j)])));
         }
         y.push_back(z);
      }
      switch(how) {
      case 0:
         return look1([&] { return matvec_prod(cb, spp::const1D(c, S{w0})); }, y);
      case 1:
         return look1(
            [&] { return matvec_prod(b[s](pl::all, pl::all), spp::sequence(c, S{T(1)}, S{T(1)}) + S{T(0)}); }, y);
      case 2:
         return look1([&] { return matvec_prod(cb, std::as_const(f1)(pl::firstN{c})); }, y);
      case 3:
         return look1([&] { return matvec_prod(cb, a[t](pl::reverse)(pl::firstN{c})); }, y);
      default:
         if(nt == c) {
            return look1([&] { return matvec_prod(cb, std::as_const(a[t])); }, y);
         }
         return look1([&] { return matvec_prod(cb, a[t](pl::firstN{c}).view1D()); }, y);
      }
   }
   case 15: {
      long z = std::min(n, 5L);
      V x = pick(v, iota_ix(z)), y = m.f1;
      if(!bop_ok(2, x, x, false) || !bop_ok(2, y, y, false) || z == 0) {
         return;
      }
      M2 o = build(z, 5, [&](long i, long j) {
         return static_cast<T>(static_cast<T>(x[static_cast<size_t>(i)]) * static_cast<T>(y[static_cast<size_t>(j)]));
      });
      if((q & 1) != 0) {
         return look2([&] { return tensor_prod(cx(pl::firstN{z}), std::as_const(f1)); }, o);
      }
      return look2([&] { return tensor_prod(+cx(pl::firstN{z}), f1(pl::all)); }, o);
   }
   case 16: {
      if(!small_values(mv.v)) {
         return;
      }
      V y;
      for(long i = 0; i < r; ++i) {
         T z{};
         for(long j = 0; j < c; ++j) {
            z = static_cast<T>(z + static_cast<T>(mv.at(i, j)));
         }
         y.push_back(z);
      }
      auto add = [](auto line) {
         S z{};
         for(auto e : line) {
            z += e;
         }
         return z;
      };
      if((q & 1) != 0) {
         return look1([&] { return row_reduce(b[s](pl::all, pl::all), add); }, y);
      }
      return look1([&] { return row_reduce(cb, add); }, y);
   }
   case 17: {
      V y;
      for(long j = 0; j < c; ++j) {
         T z = static_cast<T>(mv.at(0, j));
         for(long i = 1; i < r; ++i) {
            z = std::max(z, static_cast<T>(mv.at(i, j)));
         }
         y.push_back(z);
      }
      auto top = [](auto line) {
         S z = line[0];
         for(long i = 1; i < line.size().val(); ++i) {
            z = bool{z < line[i]} ? S{line[i]} : z;
         }
         return z;
      };
      if((q & 1) != 0) {
         return look1([&] { return col_reduce(b[s](pl::all, pl::all), top); }, y);
      }
      return look1([&] { return col_reduce(cb, top); }, y);
   }
   case 18:
   case 19: {
      long z = std::min(n, 5L);
      M2 o;
      bool rows = (q & 1) != 0;
      if(z > 0) {
         o = build(z, z, [&](long i, long j) { return static_cast<T>(v[static_cast<size_t>(rows ? j : i)]); });
      }
      if(rows) {
         return look2([&] { return row_broadcast(cx(pl::firstN{z})); }, o);
      }
      return look2([&] { return col_broadcast(cx(pl::firstN{z})); }, o);
   }
   case 20: { // part of a sum of temporaries
      if(!small_values(v)) {
         return;
      }
      V w;
      for(long i = 1; i < n; i += 2) {
         w.push_back(static_cast<T>(static_cast<T>(v[static_cast<size_t>(i)]) + static_cast<T>(v[static_cast<size_t>(n - 1 - i)])));
      }
      return look1([&] { return (cx + a[s](pl::reverse))(pl::odd); }, w);
   }
   case 21: {
      if(!small_values(mv.v)) {
         return;
      }
      M2 w = build(c, r, [&](long i, long j) {
         return static_cast<T>(static_cast<T>(mv.at(j, i)) + static_cast<T>(mv.at(r - 1 - j, c - 1 - i)));
      });
      return look2([&] { return transpose(cb + b[s](pl::reverse, pl::reverse)); }, w);
   }
   case 22: {
      long i = R(p, n + 1);
      if(i < n) {
         long cnt = 1 + R(q, n - i);
         Ix ix = iota_ix(i);
         for(long j = i + cnt; j < n; ++j) {
            ix.push_back(j);
         }
         return look1([&] { return exclude(a[s](pl::reverse)(pl::reverse), i, cnt); }, pick(v, ix));
      }
      return;
   }
   case 23:
      if(r > 0) {
         long i = R(p, r);
         V w;
         for(long j = 0; j < c; ++j) {
            w.push_back(mv.at(i, j));
         }
         return look1([&] { return generate(cb, [](auto e) { return e; }).row(i); }, w);
      }
      return;
   case 24:
      if(r > 0) {
         long j = R(p, c);
         V w;
         for(long i = 0; i < r; ++i) {
            w.push_back(mv.at(i, j));
         }
         return look1([&] { return generate(cb, cb, [](auto e, auto) { return e; }).col(j); }, w);
      }
      return;
   case 25: {
      V w;
      for(long i = 0; i < n; ++i) {
         w.push_back(static_cast<T>(i % 5));
      }
      return look1([&] { return generate(spp::irange(cx), [](auto i) { return S{static_cast<T>(i.val() % 5)}; }); }, w);
   }
   case 26:
      if(n > 0) {
         std::string got, want;
         bool done = false;
         exec(Cat::Strong,
              [&] {
                 auto i1 = spp::irange_m1(cx);
                 alloc::Host h;
                 got = std::to_string(i1.size().val()) + " " + std::to_string(cx.size_m1().val()) + " "
                     + std::to_string(cx.bytes().val()) + " " + std::to_string(i1.empty() ? -1 : i1[spp::last].val());
                 done = true;
              },
              [&] {});
         want = std::to_string(n - 1) + " " + std::to_string(n - 1) + " "
              + std::to_string(n * static_cast<long>(sizeof(T))) + " " + std::to_string(n - 2);
         if(n == 1) {
            want = "0 0 " + std::to_string(sizeof(T)) + " -1";
         }
         if(done && mode == Mode::Model && got != want) {
            bad("path", "sizes read " + got + " instead of " + want);
         }
      }
      return;
   case 28:
   case 29:
      return temporaries(s, R(A(5), 64));
   default: { // an identity and a block of it
      long z = R(q, 5) + 1;
      M2 o = build(z, z, [&](long i, long j) { return static_cast<T>(i == j ? 1 : 0); });
      return look2([&] { return spp::identity<T>(z); }, o);
   }
   }
}

// Operands of the wrong size, and elements for which an operator is not defined.
STEP(badop) {
   namespace pl = spp::place;
   int s = s0();
   auto us = static_cast<size_t>(s);
   A1& x = a[s];
   A2& y = b[s];
   long n = len(s), r = m.m2[us].r, c = m.m2[us].c;
   long k = 1 + R(A(3), 3);
   int op = static_cast<int>(R(A(2) / 64, n_bops));
   int form = static_cast<int>(R(A(2), 64) % 20);
   if(integer && (form == 12 || form == 13 || form == 14 || form == 15 || (form == 16 && sgn))) {
      op = form == 16 ? 8 + op % 2 : form == 12 ? std::array{3, 4, 8, 9}[static_cast<size_t>(op % (sgn ? 4 : 2))] : 3 + op % 2;
   }
   switch(form) {
   case 0:
      return reject([&] { compound(op, x, spp::const1D(n + k, S{T(1)})); });
   case 1:
      if(n > 0) {
         return reject([&] { compound(op, x, spp::const1D(n - 1, S{T(1)})); });
      }
      return;
   case 2:
      return reject([&] { compound(op, x(pl::all), spp::const1D(n + k, S{T(1)})); });
   case 3:
      if(r > 0) {
         return reject([&] { compound(op, y, spp::const2D(r + k, c, S{T(1)})); });
      }
      return;
   case 4:
      if(r > 0) {
         return reject([&] { compound(op, y, spp::const2D(r, c + k, S{T(1)})); });
      }
      return;
   case 5:
      if(r > 0 && r != c) {
         return reject([&] { compound(op, y, spp::const2D(c, r, S{T(1)})); });
      }
      return;
   case 6:
      if(r > 0) {
         return reject([&] { compound(op, y.rows(pl::all), spp::const2D(r + k, c, S{T(1)})); });
      }
      return;
   case 7:
      return binary(op, [&]() -> auto& { return x; }, [&] { return spp::const1D(n + k, S{T(1)}); }, [&](auto mk) { reject([&] { (void)mk(); }); });
   case 8:
      return binary(op, [&] { return spp::const1D(n + k, S{T(1)}); }, [&] { return x(pl::reverse); }, [&](auto mk) { reject([&] { (void)mk(); }); });
   case 9:
      if(r > 0) {
         return binary(op, [&]() -> auto& { return y; }, [&] { return spp::const2D(r, c + k, S{T(1)}); }, [&](auto mk) { reject([&] { (void)mk(); }); });
      }
      return;
   case 10:
      if(r > 0 && r != c) {
         return binary(op, [&] { return transpose(y); }, [&]() -> auto& { return y; }, [&](auto mk) { reject([&] { (void)mk(); }); });
      }
      return;
   case 11:
      return reject([&] { (void)matvec_prod(y, spp::const1D(c + k, S{T(1)})); });
   case 12:
      if(n > 0) { // by a scalar that is zero or negative
         if constexpr(integer) {
            if(op == 3 || op == 4) {
               return reject([&] { compound(op, x, S{T(0)}); });
            }
            if constexpr(sgn) {
               if(op >= 8) {
                  return reject([&] { compound(op, x, S{T(-1)}); });
               }
            }
         }
      }
      return;
   case 13:
      if(r > 0) {
         if constexpr(integer) {
            if(op == 3 || op == 4) {
               return reject([&] { compound(op, y(pl::all, pl::reverse), S{T(0)}); });
            }
         }
      }
      return;
   case 14: // a zero among the divisors
      if constexpr(integer) {
         if((op == 3 || op == 4) && n > 0 && small_values(m.m1[us])) {
            long z = R(A(4), n);
            V done;
            for(long i = 0; i < n; ++i) {
               done.push_back(i == z ? static_cast<T>(m.m1[us][static_cast<size_t>(i)])
                                     : bop(op, static_cast<T>(m.m1[us][static_cast<size_t>(i)]), T(2)));
            }
            return half([&] {
               compound(op, x, generate(spp::irange(n), [z](auto i) { return i.val() == z ? S{T(0)} : S{T(2)}; }));
            },
                        s, done);
         }
      }
      return;
   case 15: // a quotient that is assigned
      if constexpr(integer) {
         if((op == 3 || op == 4) && r > 0 && small_values(m.m2[us].v)) {
            long z = R(A(4), r * c);
            V done;
            for(long i = 0; i < r * c; ++i) {
               done.push_back(i == z ? static_cast<T>(m.m2[us].v[static_cast<size_t>(i)]) : bop(op, T(100), T(3)));
            }
            return half([&] {
               auto den = generate(spp::irange(r * c), [z](auto i) { return i.val() == z ? S{T(0)} : S{T(3)}; });
               if(op == 3) {
                  y = S{T(100)} / den.view2D(r, c);
               } else {
                  y = S{T(100)} % den.view2D(r, c);
               }
            },
                        s + 3, done);
         }
      }
      return;
   case 16: // a negative shift among others
      if constexpr(integer && sgn) {
         if(op >= 8 && n > 0) {
            long z = R(A(4), n);
            V done;
            for(long i = 0; i < n; ++i) {
               T e = static_cast<T>(m.m1[us][static_cast<size_t>(i)]);
               if(e < T(0) || e > T(100000)) {
                  return;
               }
               done.push_back(i == z ? e : bop(op, e, T(1)));
            }
            return half([&] {
               compound(op, x(pl::all),
                        generate(spp::irange(n), [z](auto i) { return i.val() == z ? S{T(-1)} : S{T(1)}; }));
            },
                        s, done);
         }
      }
      return;
   case 17: { // built from a quotient: nothing at all happens
      if constexpr(integer) {
         if(n > 0) {
            long z = R(A(4), n);
            auto den = generate(spp::irange(n), [z](auto i) { return i.val() == z ? S{T(0)} : S{T(3)}; });
            switch(R(A(5), 3)) {
            case 0:
               return reject([&] { a[(s + 1) % 3].resize_and_assign(S{T(7)} / den); });
            case 1:
               return reject([&] { A1 w = S{T(7)} % den; });
            default:
               return reject([&] { a[(s + 1) % 3].insert(0, x / den); });
            }
         }
      }
      return;
   }
   case 18:
      return reject([&] { (void)(f1 + x(pl::firstN{std::min(n, 4L)})); });
   default:
      if constexpr(integer) {
         return reject([&] { f2 /= S{T(0)}; });
      }
   }
}
