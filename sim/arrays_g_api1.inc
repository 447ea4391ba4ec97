// Step implementations, group api1: 1-D arrays read and written through every way of naming their parts.

// Reads through slices of constant arrays, slices of slices and expressions.
STEP(api1) {
   namespace pl = spp::place;
   int s = s0(), t = s1();
   auto us = static_cast<size_t>(s);
   A1& x = a[s];
   const A1& cx = x;
   const V v = m.m1[us];
   long n = len(s);
   int64_t p = A(3), q = A(6);
   int kind = static_cast<int>(R(A(2) / 64, n_slices));
   switch(R(A(2), 64) % 24) {
   case 0:
      return look1<true>([&]() -> const A1& { return cx; }, v);
   case 1:
      return look1<true>([&]() -> A1& { return x; }, v);
   case 2:
   case 3:
   case 4: // slices of constant arrays
      return with_slice(kind, n, p, q, [&](auto sl) {
         return look1([&] { return cx(sl); }, pick(v, slice_ix(kind, n, p, q)));
      });
   case 5:
   case 6: { // slices of slices that are temporaries
      Ix ix = slice_ix(kind, n, p, q);
      std::reverse(ix.begin(), ix.end());
      return with_slice(kind, n, p, q, [&](auto sl) {
         return look1([&] { return x(sl)(pl::reverse); }, pick(v, ix));
      });
   }
   case 7: { // slices of expressions
      Ix ix = slice_ix(kind, n, p, q);
      return with_slice(kind, n, p, q, [&](auto sl) {
         return look1([&] { return generate(cx, [](auto e) { return e; })(sl); }, pick(v, ix));
      });
   }
   case 8:
      return look1<true>([&] { return cx.view1D(); }, v);
   case 9:
      return look1<true>([&] { return x(pl::odd).view1D(); }, pick(v, iota_ix(n / 2, 1, 2)));
   case 10:
      if(n > 0) {
         long i = R(p, n), j = R(q, n);
         switch(R(A(7), 4)) {
         case 0:
            return look1([&] { return cx({i, j, i}); }, pick(v, {i, j, i}));
         case 1:
            return look1([&] { return x({j, i}); }, pick(v, {j, i}));
         case 2:
            return look1([&] { return x(pl::all)({i, j}); }, pick(v, {i, j}));
         default:
            return look1([&] { return cx(pl::reverse)({i, j, j}); }, pick(v, {n - 1 - i, n - 1 - j, n - 1 - j}));
         }
      }
      return;
   case 11: {
      long f = factor(n, p);
      M2 o;
      o.r = f;
      o.c = f == 0 ? 0 : n / f;
      o.v = v;
      switch(R(q, 3)) {
      case 0:
         return look2<true>([&] { return cx.view2D(o.r, o.c); }, o);
      case 1:
         return look2<true>([&] { return x(pl::all).view2D(o.r, o.c); }, o);
      default:
         std::reverse(o.v.begin(), o.v.end());
         return look2([&] { return cx(pl::reverse).view2D(o.r, o.c); }, o);
      }
   }
   case 12: { // attached to memory
      const auto* d = reinterpret_cast<const T*>(cx.data());
      long k = R(q, n + 1);
      return look1<true>([&] { return spp::attach1D(d, k); }, pick(v, iota_ix(k)));
   }
   case 13: {
      auto* d = reinterpret_cast<T*>(x.data());
      long k = R(q, n + 1);
      return look1([&] { return spp::attach1D(d, k)(pl::reverse); }, pick(v, iota_ix(k, k - 1, -1)));
   }
   case 14: // fixed array
      return look1<true>([&]() -> const auto& { return std::as_const(f1); }, m.f1);
   case 15:
      kind = static_cast<int>(R(A(7), 3));
      if(kind == 0) {
         return look1([&] { return std::as_const(f1)(pl::odd); }, pick(m.f1, {1, 3}));
      }
      if(kind == 1) {
         return look1([&] { return f1(vi({4, 0})); }, pick(m.f1, {4, 0}));
      }
      return look2([&] { return std::as_const(f1).view2D(5, 1); }, M2{5, 1, m.f1});
   case 16: { // a fixed array built from iterators and lists
      V w = m.f1;
      return look1(
         [&] { return spp::FixedArray1D<T, 5, AF>(std::as_const(f1).begin(), std::as_const(f1).end()); }, w);
   }
   case 17:
      return look1([&] { return merge(cx, a[t], x(pl::reverse)); },
                   cat(cat(v, m.m1[static_cast<size_t>(t)]), V(v.rbegin(), v.rend())));
   case 18: {
      V w = v;
      w.push_back(val(p));
      w.push_back(val(q));
      return look1([&] { return merge(cx, sv(p), sv(q)); }, w);
   }
   case 19: {
      V w{val(p), val(q)};
      w = cat(w, v);
      return look1([&] { return merge(sv(p), sv(q), cx); }, w);
   }
   case 20: {
      V w{val(p)};
      w = cat(w, v);
      return look1([&] { return merge(sv(p), x(pl::all)); }, w);
   }
   case 21: {
      V w(static_cast<size_t>(R(q, 9)), val(p));
      return look1<true>([&] { return spp::const1D(spp::Size{R(q, 9)}, spp::Value{sv(p)}); }, w);
   }
   case 22:
      if constexpr(arith) {
         long k = R(q, 9), st = R(p, 40);
         if(R(A(7), 2) == 0) {
            V w(static_cast<size_t>(k + 1));
            w[static_cast<size_t>(R(p, k + 1))] = T(1);
            return look1([&] { return spp::e_unit<T>(spp::Index{R(p, k + 1)}, spp::Size{k + 1}); }, w);
         }
         V w;
         for(long i = 0; i < k; ++i) {
            w.push_back(static_cast<T>(st + 2 * i));
         }
         return look1(
            [&] {
               return spp::sequence(spp::Size{k}, spp::Start{S{static_cast<T>(st)}}, spp::Incr{S{T(2)}});
            },
            w);
      }
      return;
   default: { // comparisons
      long k = R(p, n + 1);
      V w = pick(v, iota_ix(k));
      bool eq = false, ne = false, done = false, eqw = w == m.m1[static_cast<size_t>(t)];
      exec(Cat::Strong,
           [&] {
              eq = bool{cx(pl::firstN{k}) == a[t]};
              ne = bool{a[t] != x(pl::firstN{k})};
              done = true;
           },
           [&] {});
      if(done && mode == Mode::Model && (eq != eqw || ne == eqw)) {
         bad("path", "== and != disagree with the contents");
      }
   }
   }
}

// Writes through every way of naming parts of a 1-D array.
STEP(apiw1) {
   namespace pl = spp::place;
   int s = s0();
   auto us = static_cast<size_t>(s);
   A1& x = a[s];
   long n = len(s);
   int64_t p = A(3), q = A(4);
   int kind = static_cast<int>(R(A(2) / 64, n_slices));
   switch(R(A(2), 64) % 12) {
   case 0:
   case 1:
   case 2:
      return with_slice(kind, n, p, q, [&](auto sl) {
         return put1([&] { return x(sl); }, s, slice_ix(kind, n, p, q));
      });
   case 3: {
      Ix ix = slice_ix(kind, n, p, q);
      std::reverse(ix.begin(), ix.end());
      return with_slice(kind, n, p, q, [&](auto sl) {
         return put1([&] { return x(pl::all)(sl)(pl::reverse); }, s, ix);
      });
   }
   case 4:
      return put1<true>([&] { return x.view1D(); }, s, iota_ix(n));
   case 5:
      return put1<true>([&] { return x(pl::reverse)(pl::all).view1D(); }, s, iota_ix(n, n - 1, -1));
   case 6:
      if(n > 0) {
         long i = R(p, n), j = R(q, n);
         if(R(A(7), 2) == 0) {
            return put1<true>([&] { return x({i, j, i}); }, s, {i, j, i});
         }
         return put1([&] { return x(pl::reverse)({i, j}); }, s, {n - 1 - i, n - 1 - j});
      }
      return;
   case 7: {
      long f = factor(n, p);
      if(n > 0) {
         return put2<true>([&] { return x.view2D(f, n / f); }, s, iota_ix(n), f, n / f);
      }
      return;
   }
   case 8: {
      auto* d = reinterpret_cast<T*>(x.data());
      long k = R(q, n + 1);
      return put1<true>([&] { return spp::attach1D(d, k); }, s, iota_ix(k));
   }
   case 9: // whole slices to each other: copied, not rebound
      if(n >= 2) {
         long k = n / 2;
         int how = static_cast<int>(R(q, 4));
         return exec(Cat::Elem,
                     [&] {
                        auto e = x(spp::seqN{0, k});
                        const auto o = x(spp::seqN{n - k, k});
                        switch(how) {
                        case 0:
                           e = o;
                           return;
                        case 1:
                           e = x(spp::seqN{n - k, k});
                           return;
                        case 2:
                           x(spp::seqN{0, k}) = x(spp::seqN{n - k, k});
                           return;
                        default:
                           x(pl::firstN{k}) = std::as_const(x)(pl::lastN{k});
                        }
                     },
                     [&] {
                        for(long i = 0; i < k; ++i) {
                           m.m1[us][static_cast<size_t>(i)] = static_cast<T>(m.m1[us][static_cast<size_t>(n - k + i)]);
                        }
                     });
      }
      return;
   case 10: // a list to a slice
      if(n >= 3) {
         long i = R(p, n - 2);
         return exec(Cat::Elem,
                     [&] {
                        x(spp::seq{i + 2, i, -1}) = {sv(p), sv(q), sv(p + q)};
                     },
                     [&] {
                        m.m1[us][static_cast<size_t>(i + 2)] = val(p);
                        m.m1[us][static_cast<size_t>(i + 1)] = val(q);
                        m.m1[us][static_cast<size_t>(i)] = val(p + q);
                     });
      }
      return;
   default: // the fixed array
      switch(R(A(7) / 8, 4)) {
      case 0:
         return put1([&] { return f1(pl::skipN{2}); }, 6, {0, 2, 4});
      case 1:
         return put1<true>([&] { return f1.view1D(); }, 6, iota_ix(5));
      case 2:
         return put2([&] { return f1.view2D(1, 5); }, 6, iota_ix(5), 1, 5);
      default: {
         spp::FixedArray1D<T, 5, AF> o(sv(p));
         if((q & 1) != 0) {
            f1 = o;
         } else {
            f1 = std::move(o);
         }
         m.f1 = V(5, val(p));
      }
      }
   }
}

// Iterators at and beyond the ends, and everything else that must be rejected on reading or writing.
STEP(badapi1) {
   namespace pl = spp::place;
   int s = s0();
   A1& x = a[s];
   const A1& cx = x;
   long n = len(s);
   long k = R(A(3), 3);
   T sink{};
   auto use = [&](const auto& e) { sink = S{e}.val(); };
   switch(R(A(2), 64) % 40) {
   case 0:
      return reject([&] { use(*(x.begin() + (n + k))); });
   case 1:
      return reject([&] { use(*(cx.begin() + (n + k))); });
   case 2:
      return reject([&] { use(*(x.begin() - (k + 1))); });
   case 3:
      return reject([&] { use(*(cx.begin() - (k + 1))); });
   case 4:
      return reject([&] { use(x.begin()[n + k]); });
   case 5:
      return reject([&] { use(cx.begin()[n + k]); });
   case 6:
      return reject([&] { use(x.end()[-n - 1 - k]); });
   case 7:
      return reject([&] { use(cx.end()[-n - 1 - k]); });
   case 8:
      return reject([&] { use(*(x.rbegin() + (n + k))); });
   case 9:
      return reject([&] { use(*(cx.rbegin() + (n + k))); });
   case 10:
      return reject([&] { use(*x.end()); });
   case 11:
      return reject([&] { *cx.end().operator->(); });
   case 12:
      return reject([&] { *x.end().operator->() = S{}; });
   case 13:
      return reject([&] { *(x.begin() + n) = S{}; });
   case 14:
      return reject([&] { x.begin()[-1 - k] = S{}; });
   case 15:
      return reject([&] { (void)(x.begin() == a[(s + 1) % 3].begin()); });
   case 16:
      return reject([&] { (void)(cx.end() - std::as_const(a[(s + 1) % 3]).begin()); });
   case 17:
      return reject([&] { (void)(x.begin() < a[(s + 1) % 3].end()); });
   case 18:
      return reject([&] { (void)(cx.begin() >= std::as_const(a[(s + 1) % 3]).end()); });
   case 19:
      return reject([&] {
         decltype(x.begin()) it{};
         ++it;
      });
   case 20:
      return reject([&] {
         decltype(cx.begin()) it{};
         use(*it);
      });
   case 21:
      return reject([&] { x(spp::seq{spp::First{n + k}, spp::Endmost{n + k}}) = S{}; });
   case 22:
      return reject([&] { use(cx(pl::all).at(n + k)); });
   case 23:
      return reject([&] { use(cx.view1D()[-1 - k]); });
   case 24:
      return reject([&] { x(pl::all)[n + k] = S{}; });
   case 25:
      return reject([&] { x(pl::even).at(spp::last - ((n + 1) / 2 + k)) = S{}; });
   case 26:
      return reject([&] { (void)cx({0, n + k}); });
   case 27:
      return reject([&] { (void)x({-1 - k, 0}); });
   case 28:
      return reject([&] { (void)x(pl::all)({n}); });
   case 29:
      return reject([&] { (void)spp::implicit_vector_sequence(-1 - k); });
   case 30:
      return reject([&] { (void)x(pl::complement{n + k}); });
   case 31:
      return reject([&] { (void)cx(pl::complement{-1 - k}); });
   case 32:
      if(n >= 2) {
         return reject([&] { (void)cx(pl::complement{1, 0}); });
      }
      return;
   case 33:
      return reject([&] { (void)cx.view2D(n + 1 + k, 1); });
   case 34:
      return reject([&] { (void)x(pl::all).view2D(1, n + 1); });
   case 35:
      if(n > 0) {
         return reject([&] { x(pl::all) = cx(pl::firstN{n - 1}); });
      }
      return;
   case 36:
      if(n != 2) {
         return reject([&] { x(pl::all) = {S{}, S{}}; });
      }
      return;
   case 37:
      return reject([&] { (void)spp::FixedArray1D<T, 5, AF>(cx.begin(), cx.begin() + (n == 5 ? 4 : n)); });
   case 38: {
      auto* d = reinterpret_cast<T*>(x.data());
      if((k & 1) != 0) {
         return reject([&] { (void)spp::attach1D(d, -k); });
      }
      return reject([&] { use(spp::attach1D(d, n)[n + k]); });
   }
   default:
      return reject([&] { (void)(sv(1) == *(merge(cx, sv(2)).lval().begin() + (n + 1 + k))); });
   }
}
