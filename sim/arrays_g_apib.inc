// Step implementations, group apix, boolean elements: logical operators on arrays, slices and views.

// Assignment of logical expressions to parts of arrays.
STEP(apiop) {
   if constexpr(!arith) {
      namespace pl = spp::place;
      int s = s0(), t = s1x();
      auto us = static_cast<size_t>(s), ut = static_cast<size_t>(t);
      bool k = (A(3) & 1) != 0;
      long n = len(s), nt = len(t), z = std::min(n, nt);
      int op = static_cast<int>(R(A(2) / 64, 3));
      auto put = [&](const Ix& ix, const V& w, Fn act) {
         exec(Cat::Elem, act, [&] {
            for(size_t i = 0; i < ix.size(); ++i) {
               m.m1[us][static_cast<size_t>(ix[i])] = w[i];
            }
         });
      };
      auto rep = [&](long cnt) { return V(static_cast<size_t>(cnt), k); };
      V& v = m.m1[us];
      switch(R(A(2), 64) % 8) {
      case 0:
         return put(iota_ix(n), lop(op, v, rep(n)), [&] { logic(op, a[s], S{k}, [&](auto e) { a[s] = e; }); });
      case 1:
         return put(iota_ix(n), lop(op, rep(n), v), [&] { logic(op, S{k}, a[s], [&](auto e) { a[s](pl::all) = e; }); });
      case 2:
         return put(iota_ix(n), lnot(v), [&] { a[s] = !a[s]; });
      case 3:
         return put(iota_ix((n + 1) / 2, 0, 2), lnot(pick(v, iota_ix((n + 1) / 2, 0, 2))),
                    [&] { a[s](pl::even) = !a[s](pl::even); });
      case 4: {
         V w = lop(op, pick(v, iota_ix(z)), pick(V(m.m1[ut]), iota_ix(z, nt - z)));
         return put(iota_ix(z), w, [&] {
            auto x = a[s](pl::firstN{z});
            auto y = a[t](pl::lastN{z});
            logic(op, x, y, [&](auto e) { x = e; });
         });
      }
      case 5: {
         M2& w = m.m2[us];
         V r = lop(op, w.v, V(w.v.size(), k));
         return exec(Cat::Elem, [&] { logic(op, b[s], S{k}, [&](auto e) { b[s] = e; }); }, [&] { m.m2[us].v = r; });
      }
      case 6:
         return exec(Cat::Elem, [&] { logic(op, f1, !f1, [&](auto e) { f1 = e; }); },
                     [&] { m.f1 = lop(op, m.f1, lnot(m.f1)); });
      default:
         return exec(Cat::Elem, [&] { logic(op, S{k}, f2, [&](auto e) { f2 = e; }); },
                     [&] { m.f2 = lop(op, V(m.f2.size(), k), m.f2); });
      }
   }
}

// Logical expressions, read in every way.
STEP(apiexp) {
   if constexpr(!arith) {
      namespace pl = spp::place;
      int s = s0(), t = s1x();
      auto us = static_cast<size_t>(s), ut = static_cast<size_t>(t);
      bool k = (A(3) & 1) != 0;
      const A1& x = a[s];
      const A2& y = b[s];
      long n = len(s), nt = len(t), z = std::min(n, nt);
      int op = static_cast<int>(R(A(2) / 64, 3));
      const V v = m.m1[us];
      const M2 w = m.m2[us];
      V other = pick(V(m.m1[ut]), iota_ix(z, nt - 1, -1));
      auto one = [&](const auto& p, const auto& q, const V& want) {
         logic(op, p, q, [&](auto e) { look1([&] { return e; }, want); });
      };
      auto two = [&](const auto& p, const auto& q, const V& want) {
         M2 o = w;
         o.v = want;
         logic(op, p, q, [&](auto e) { look2([&] { return e; }, o); });
      };
      switch(R(A(2), 64) % 10) {
      case 0:
         return one(x, S{k}, lop(op, v, V(v.size(), k)));
      case 1:
         return one(S{k}, x, lop(op, V(v.size(), k), v));
      case 2:
         return one(x, x(pl::reverse), lop(op, v, V(v.rbegin(), v.rend())));
      case 3:
         return one(x(pl::firstN{z}), a[t](spp::seqN{nt > 0 ? nt - 1 : 0, z, -1}), lop(op, pick(v, iota_ix(z)), other));
      case 4:
         return look1([&] { return !x; }, lnot(v));
      case 5:
         return look1([&] { return !x(pl::reverse); }, lnot(V(v.rbegin(), v.rend())));
      case 6: {
         M2 o = w;
         o.v = lnot(w.v);
         return look2([&] { return !y; }, o);
      }
      case 7:
         return two(y, S{k}, lop(op, w.v, V(w.v.size(), k)));
      case 8:
         return temporaries(s, R(A(5), 64));
      default:
         return two(y, b[s](pl::all, pl::all), lop(op, w.v, w.v));
      }
   }
}

// Logical operators on operands that do not fit.
STEP(badop) {
   if constexpr(!arith) {
      namespace pl = spp::place;
      int s = s0();
      auto us = static_cast<size_t>(s);
      A1& x = a[s];
      A2& y = b[s];
      long n = len(s), r = m.m2[us].r, c = m.m2[us].c;
      long k = 1 + R(A(3), 3);
      int op = static_cast<int>(R(A(2) / 64, 3));
      auto no = [](auto) {};
      switch(R(A(2), 64) % 6) {
      case 0:
         return reject([&] { logic(op, x, spp::const1D(n + k, S{true}), no); });
      case 1:
         return reject([&] { logic(op, spp::const1D(n + k, S{true}), x(pl::reverse), no); });
      case 2:
         if(r > 0) {
            return reject([&] { logic(op, y, spp::const2D(r + k, c, S{true}), no); });
         }
         return;
      case 3:
         if(r > 0) {
            return reject([&] { logic(op, spp::const2D(r, c + k, S{true}), y, no); });
         }
         return;
      case 4:
         if(r > 0 && r != c) {
            return reject([&] { logic(op, y, spp::const2D(c, r, S{true}), no); });
         }
         return;
      default:
         return reject([&] { x = !spp::const1D(n + k, S{false}); });
      }
   }
}
