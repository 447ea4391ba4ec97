// Step implementations, group api2: 2-D arrays read and written through every way of naming their parts.

// Reads through parts of constant arrays, of slices and of expressions.
STEP(api2) {
   namespace pl = spp::place;
   int s = s0();
   auto us = static_cast<size_t>(s);
   A2& x = b[s];
   const A2& cx = x;
   const M2 v = m.m2[us];
   long r = v.r, c = v.c;
   int64_t p = A(3), q = A(6);
   int kind = static_cast<int>(R(A(2) / 64, n_slices));
   // The part of the matrix at the crossings of the given rows and columns.
   auto sub = [&](const Ix& ri, const Ix& ci) {
      if(ri.empty() || ci.empty()) {
         return M2{};
      }
      return build(static_cast<long>(ri.size()), static_cast<long>(ci.size()), [&](long i, long j) {
         return v.at(ri[static_cast<size_t>(i)], ci[static_cast<size_t>(j)]);
      });
   };
   Ix all_r = iota_ix(r), all_c = iota_ix(c);
   switch(R(A(2), 64) % 32) {
   case 0:
      return look2<true>([&]() -> const A2& { return cx; }, v);
   case 1:
   case 2:
      return with_slice(kind, r, p, q, [&](auto sl) {
         return look2([&] { return cx.rows(sl); }, sub(slice_ix(kind, r, p, q), all_c));
      });
   case 3:
   case 4:
      return with_slice(kind, c, p, q, [&](auto sl) {
         return look2([&] { return cx.cols(sl); }, sub(all_r, slice_ix(kind, c, p, q)));
      });
   case 5: { // a slice of a slice that is a temporary
      if(r == 0) {
         return;
      }
      Ix ix = slice_ix(kind, r, p, q);
      std::reverse(ix.begin(), ix.end());
      return with_slice(kind, r, p, q, [&](auto sl) {
         return look2([&] { return x.rows(sl)(pl::reverse, pl::reverse); },
                      sub(ix, iota_ix(c, c - 1, -1)));
      });
   }
   case 6: {
      if(r == 0) {
         return;
      }
      return with_slice(kind, c, p, q, [&](auto sl) {
         return look2([&] { return cx(pl::reverse, pl::all).cols(sl); },
                      sub(iota_ix(r, r - 1, -1), slice_ix(kind, c, p, q)));
      });
   }
   case 7: { // both dimensions
      int k2 = kind % 4;
      auto sl2 = sq(mkseq(c, q, p));
      (void)k2;
      return with_slice(kind, r, p, q, [&](auto sl) {
         return look2([&] { return cx(sl, sl2); }, sub(slice_ix(kind, r, p, q), slice_ix(0, c, q, p)));
      });
   }
   case 8:
      if(r > 0) {
         long i = R(p, r), j = R(q, c);
         switch(R(A(7), 8)) {
         case 0:
            return look2([&] { return cx.rows({i, 0}); }, sub({i, 0}, all_c));
         case 1:
            return look2([&] { return cx.cols({j, 0, j}); }, sub(all_r, {j, 0, j}));
         case 2:
            return look2([&] { return cx({i, 0}, {j}); }, sub({i, 0}, {j}));
         case 3:
            return look2([&] { return cx({i, 0}, pl::reverse); }, sub({i, 0}, iota_ix(c, c - 1, -1)));
         case 4:
            return look2([&] { return cx(pl::all, {0, j}); }, sub(all_r, {0, j}));
         case 5:
            return look2([&] { return x(pl::all, pl::all).rows({0, i}); }, sub({0, i}, all_c));
         case 6:
            return look2([&] { return x(pl::all, pl::all)({0, i}, {j, 0}); }, sub({0, i}, {j, 0}));
         default:
            if((q & 8) != 0) {
               return look2([&] { return x(pl::all, pl::all)({i}, pl::all); }, sub({i}, all_c));
            }
            if((q & 16) != 0) {
               return look2([&] { return x(pl::all, pl::all)(pl::all, {j}); }, sub(all_r, {j}));
            }
            return look2([&] { return x(pl::all, pl::all).cols({0, j}); }, sub(all_r, {0, j}));
         }
      }
      return;
   case 9:
      if(r > 0) {
         Blk k = mkblk(r, c, p, q);
         Ix ri = iota_ix(k.nr, k.r0), ci = iota_ix(k.nc, k.c0);
         long lr = r - k.r0 - k.nr, lc = c - k.c0 - k.nc;
         switch(R(A(7), 6)) {
         case 0:
            return look2([&] { return cx.block(k.r0, k.c0, k.r0 + k.nr - 1, k.c0 + k.nc - 1); }, sub(ri, ci));
         case 1:
            return look2([&] { return cx.block(k.r0, k.c0, spp::last - lr, spp::last - lc); }, sub(ri, ci));
         case 2:
            return look2([&] { return x(pl::all, pl::all).block(k.r0, k.c0, spp::last - lr, spp::last - lc); },
                         sub(ri, ci));
         case 3:
            return look2([&] { return x(pl::all, pl::all).blockN(k.r0, k.c0, k.nr, k.nc); }, sub(ri, ci));
         case 4:
            return look2<true>([&] { return cx.blockN(spp::last - (r - 1 - k.r0), k.c0, k.nr, k.nc); }, sub(ri, ci));
         default:
            return look2([&] { return cx.block(spp::last - (r - 1 - k.r0), k.c0, k.r0 + k.nr - 1, spp::last - lc); },
                         sub(ri, ci));
         }
      }
      return;
   case 10:
      if(r > 0) {
         long i = R(p, r);
         V w;
         for(long j = 0; j < c; ++j) {
            w.push_back(v.at(i, j));
         }
         switch(R(A(7), 5)) {
         case 0:
            return look1<true>([&] { return cx.row(i); }, w);
         case 1:
            return look1([&] { return cx.row(spp::last - (r - 1 - i)); }, w);
         case 2:
            return look1([&] { return x(pl::all, pl::all).row(i); }, w);
         case 3:
            return look1([&] { return cx(pl::reverse, pl::all).row(r - 1 - i); }, w);
         default:
            return look1([&] { return x.row(spp::last - (r - 1 - i)); }, w);
         }
      }
      return;
   case 11:
      if(r > 0) {
         long j = R(p, c);
         V w;
         for(long i = 0; i < r; ++i) {
            w.push_back(v.at(i, j));
         }
         switch(R(A(7), 5)) {
         case 0:
            return look1<true>([&] { return cx.col(j); }, w);
         case 1:
            return look1([&] { return cx.col(spp::last - (c - 1 - j)); }, w);
         case 2:
            return look1([&] { return x(pl::all, pl::all).col(j); }, w);
         case 3:
            return look1([&] { return cx(pl::all, pl::reverse).col(c - 1 - j); }, w);
         default:
            return look1([&] { return x.col(spp::last - (c - 1 - j)); }, w);
         }
      }
      return;
   case 12: {
      Ix ix = diag_ix(r, c, 0);
      switch(R(A(7), 4)) {
      case 0:
         return look1([&] { return cx.diag(); }, pick(v.v, ix));
      case 1:
         return look1([&] { return x(pl::all, pl::all).diag(); }, pick(v.v, ix));
      case 2:
         return look1([&] { return generate(cx, [](auto e) { return e; }).diag(); }, pick(v.v, ix));
      default:
         return look1([&] { return x.diag(); }, pick(v.v, ix));
      }
   }
   case 13:
   case 14:
      if(r > 0) {
         long d = R(p, r + c - 1) - (r - 1);
         Ix ix = diag_ix(r, c, d);
         switch(R(A(7), 3)) {
         case 0:
            return look1([&] { return cx.diag(d); }, pick(v.v, ix));
         case 1:
            return look1([&] { return x(pl::all, pl::all).diag(d); }, pick(v.v, ix));
         default:
            return look1([&] { return x.diag(d); }, pick(v.v, ix));
         }
      }
      return;
   case 15:
      switch(R(A(7), 4)) {
      case 0:
         return look1<true>([&] { return cx.view1D(); }, v.v);
      case 1:
         return look1([&] { return x(pl::all, pl::all).view1D(); }, v.v);
      case 2:
         return look1([&] { return x.view1D()(pl::reverse); }, V(v.v.rbegin(), v.v.rend()));
      default:
         return look1([&] { return cx(pl::reverse, pl::reverse).view1D(); }, V(v.v.rbegin(), v.v.rend()));
      }
   case 16: {
      M2 o;
      o.r = factor(r * c, p);
      o.c = o.r == 0 ? 0 : r * c / o.r;
      o.v = v.v;
      switch(R(A(7), 3)) {
      case 0:
         return look2([&] { return cx.view2D(o.r, o.c); }, o);
      case 1:
         return look2([&] { return x(pl::all, pl::all).view2D(o.r, o.c); }, o);
      default:
         std::reverse(o.v.begin(), o.v.end());
         return look2([&] { return cx(pl::reverse, pl::reverse).view2D(o.r, o.c); }, o);
      }
   }
   case 17: {
      const auto* d = reinterpret_cast<const T*>(cx.data());
      return look2<true>([&] { return spp::attach2D(d, r, c); }, v);
   }
   case 18: {
      auto* d = reinterpret_cast<T*>(x.data());
      M2 o;
      if(r > 0) {
         o = sub(iota_ix(r), iota_ix(c, c - 1, -1));
      }
      return look2([&] { return spp::attach2D(d, r, c)(pl::all, pl::reverse); }, o);
   }
   case 19:
      return look2<true>([&]() -> const auto& { return std::as_const(f2); }, M2{2, 3, m.f2});
   case 20:
      switch(R(A(7), 4)) {
      case 0:
         return look1([&] { return std::as_const(f2).col(R(p, 3)); },
                      pick(m.f2, {R(p, 3), R(p, 3) + 3}));
      case 1:
         return look1([&] { return f2.view1D()(pl::odd); }, pick(m.f2, {1, 3, 5}));
      case 2:
         return look2([&] { return transpose(std::as_const(f2)); }, M2{3, 2, pick(m.f2, {0, 3, 1, 4, 2, 5})});
      default:
         return look2([&] { return f2.view2D(3, 2); }, M2{3, 2, m.f2});
      }
   case 21:
      if((q & 3) == 0) {
         // Empty operands: taken over without contributing anything.
         const A2 none;
         switch(R(A(7), 6)) {
         case 0:
            return look2([&] { return merge_vertical(none, x); }, v);
         case 1:
            return look2([&] { return merge_vertical(cx, none); }, v);
         case 2:
            return look2([&] { return merge_vertical(none, x, none); }, v);
         case 3:
            return look2([&] { return merge_horizontal(none, x); }, v);
         case 4:
            return look2([&] { return merge_horizontal(cx, none); }, v);
         default:
            return look2([&] { return merge_horizontal(none, none, x); }, v);
         }
      }
      if(r > 0) {
         M2 o = build(3 * r, c, [&](long i, long j) { return i < 2 * r ? v.at(i % r, j) : v.at(3 * r - 1 - i, j); });
         return look2([&] { return merge_vertical(cx, x, x.rows(pl::reverse)); }, o);
      }
      return;
   case 22:
      if(r > 0) {
         M2 o = build(r, 3 * c, [&](long i, long j) { return j < 2 * c ? v.at(i, j % c) : v.at(i, 3 * c - 1 - j); });
         return look2([&] { return merge_horizontal(cx, x, cx.cols(pl::reverse)); }, o);
      }
      return;
   case 23: {
      long k = R(q, 4) + 1, l = R(q / 4, 4) + 1;
      return look2<true>([&] { return spp::const2D(spp::Rows{k}, spp::Cols{l}, spp::Value{sv(p)}); },
                         build(k, l, [&](long, long) { return val(p); }));
   }
   case 24: {
      M2 o = build(c, r, [&](long i, long j) { return v.at(j, i); });
      return look2<true>([&] { return transpose(cx); }, o);
   }
   case 25:
   case 26:
   case 27: { // every pair of kinds, of a constant array and of a slice of it
      int k2 = static_cast<int>(R(A(7), 4));
      Ix ri = slice_ix(kind % 4 == 3 ? 10 : kind % 4 == 2 ? 6 : kind % 4 == 1 ? 11 : 5, r, p, q);
      Ix ci = slice_ix(k2 == 3 ? 10 : k2 == 2 ? 9 : k2 == 1 ? 11 : 4, c, q, p);
      auto go = [&](auto sl1) {
         switch(k2) {
         case 0:
            return look2([&] { return cx(sl1, pl::even); }, sub(ri, ci));
         case 1:
            return look2([&] { return cx(sl1, pl::complement{vi(subset(c, q, p))}); }, sub(ri, ci));
         case 2:
            return look2([&] { return x(sl1, pl::lastN{R(p, c + 1)}); }, sub(ri, ci));
         default:
            return look2([&] { return x(sl1, vi(anyidx(c, q, p))); }, sub(ri, ci));
         }
      };
      switch(kind % 4) {
      case 0:
         return go(pl::odd);
      case 1:
         return go(pl::complement{vi(subset(r, p, q))});
      case 2:
         return go(pl::reverse);
      default:
         return go(vi(anyidx(r, p, q)));
      }
   }
   case 28: { // the range of index pairs of given sizes
      M2 o;
      bool done = false;
      long k = R(p, 4), l = R(q, 4);
      if((k == 0) != (l == 0)) {
         return;
      }
      long cnt = 0;
      bool good = true;
      exec(Cat::Strong,
           [&] {
              cnt = 0;
              good = true;
              for(auto [i, j] : spp::IndexRange2D(k, l)) {
                 good = good && i.val() == cnt / l && j.val() == cnt % l;
                 ++cnt;
              }
              done = true;
           },
           [&] {});
      if(done && mode == Mode::Model && (!good || cnt != k * l)) {
         bad("path", "IndexRange2D does not visit every index pair in order");
      }
      return;
   }
   case 29: {
      bool eq = false, ne = true, done = false;
      int t = s1();
      exec(Cat::Strong,
           [&] {
              eq = bool{cx == b[t].cols(pl::all)};
              ne = bool{b[t] != x(pl::all, pl::all)};
              done = true;
           },
           [&] {});
      bool want = v == m.m2[static_cast<size_t>(t)];
      if(done && mode == Mode::Model && (eq != want || ne == want)) {
         bad("path", "== and != disagree with the contents");
      }
      return;
   }
   case 30:
      if(r > 0) { // the sizes of one dimension minus one, as ranges
         std::string got, want;
         bool done = false;
         exec(Cat::Strong,
              [&] {
                 auto rows = spp::irange_row_m1(cx);
                 auto cols = spp::irange_col(cx);
                 alloc::Host h;
                 got = std::to_string(cx.rows_m1().val()) + " " + std::to_string(cx.cols_m1().val()) + " "
                     + std::to_string(cx.size_m1().val()) + " " + std::to_string(rows.size().val()) + " "
                     + std::to_string(cols.size().val()) + " " + std::to_string(cols[spp::last].val());
                 done = true;
              },
              [&] {});
         want = std::to_string(r - 1) + " " + std::to_string(c - 1) + " " + std::to_string(r * c - 1) + " "
              + std::to_string(r - 1) + " " + std::to_string(c) + " " + std::to_string(c - 1);
         if(done && mode == Mode::Model && got != want) {
            bad("path", "sizes read " + got + " instead of " + want);
         }
      }
      return;
   default:
      return look2<true>([&]() -> A2& { return x; }, v);
   }
}

// Writes through every way of naming parts of a 2-D array.
STEP(apiw2) {
   namespace pl = spp::place;
   int s = s0();
   auto us = static_cast<size_t>(s);
   A2& x = b[s];
   long r = m.m2[us].r, c = m.m2[us].c;
   int64_t p = A(3), q = A(4);
   int kind = static_cast<int>(R(A(2) / 64, n_slices));
   auto cross = [&](const Ix& ri, const Ix& ci) {
      Ix o;
      for(long i : ri) {
         for(long j : ci) {
            o.push_back(i * c + j);
         }
      }
      return o;
   };
   auto len_ = [](const Ix& v) { return static_cast<long>(v.size()); };
   Ix all_r = iota_ix(r), all_c = iota_ix(c);
   if(r == 0) {
      return do_api2();
   }
   switch(R(A(2), 64) % 16) {
   case 0:
   case 1:
      return with_slice(kind, r, p, q, [&](auto sl) {
         Ix ri = slice_ix(kind, r, p, q);
         return put2([&] { return x.rows(sl); }, s + 3, cross(ri, all_c), len_(ri), ri.empty() ? 0 : c);
      });
   case 2:
   case 3:
      return with_slice(kind, c, p, q, [&](auto sl) {
         Ix ci = slice_ix(kind, c, p, q);
         return put2([&] { return x.cols(sl); }, s + 3, cross(all_r, ci), ci.empty() ? 0 : r, len_(ci));
      });
   case 4: {
      Ix ri = slice_ix(0, r, p, q), ci = slice_ix(11, c, q, p);
      if(ri.empty() || ci.empty()) {
         ri.clear();
         ci.clear();
      }
      return put2<true>([&] { return x(sq(mkseq(r, p, q)), pl::complement{vi(subset(c, q, p))}); }, s + 3,
                        cross(ri, ci), len_(ri), len_(ci));
   }
   case 5: {
      long d = R(p, r + c - 1) - (r - 1);
      Ix ix = diag_ix(r, c, d);
      if(d == 0 && (q & 1) != 0) {
         return put1<true>([&] { return x.diag(); }, s + 3, ix);
      }
      if((q & 2) != 0) {
         return put1([&] { return x(pl::all, pl::all).diag(d); }, s + 3, ix);
      }
      return put1([&] { return x.diag(d); }, s + 3, ix);
   }
   case 6: {
      long i = R(p, r);
      Ix ix = iota_ix(c, i * c);
      if((q & 1) != 0) {
         return put1<true>([&] { return x.row(i); }, s + 3, ix);
      }
      if((q & 2) != 0) {
         return put1([&] { return x.row(spp::last - (r - 1 - i)); }, s + 3, ix);
      }
      return put1([&] { return x(pl::all, pl::all).row(i); }, s + 3, ix);
   }
   case 7: {
      long j = R(p, c);
      Ix ix = iota_ix(r, j, c);
      if((q & 1) != 0) {
         return put1<true>([&] { return x.col(j); }, s + 3, ix);
      }
      if((q & 2) != 0) {
         return put1([&] { return x.col(spp::last - (c - 1 - j)); }, s + 3, ix);
      }
      return put1([&] { return x(pl::all, pl::all).col(j); }, s + 3, ix);
   }
   case 8: {
      Blk k = mkblk(r, c, p, q);
      Ix ix = cross(iota_ix(k.nr, k.r0), iota_ix(k.nc, k.c0));
      switch(R(A(7) / 4, 3)) {
      case 0:
         return put2([&] { return x.block(k.r0, k.c0, k.r0 + k.nr - 1, k.c0 + k.nc - 1); }, s + 3, ix, k.nr, k.nc);
      case 1:
         return put2([&] { return x.block(k.r0, k.c0, spp::last - (r - k.r0 - k.nr), spp::last - (c - k.c0 - k.nc)); },
                     s + 3, ix, k.nr, k.nc);
      default:
         return put2([&] { return x(pl::all, pl::all).blockN(k.r0, k.c0, k.nr, k.nc); }, s + 3, ix, k.nr, k.nc);
      }
   }
   case 9: {
      long i = R(p, r), j = R(q, c);
      switch(R(A(7) / 4, 5)) {
      case 0:
         return put2([&] { return x.rows({i}); }, s + 3, cross({i}, all_c), 1, c);
      case 1:
         return put2([&] { return x.cols({j}); }, s + 3, cross(all_r, {j}), r, 1);
      case 2:
         return put2([&] { return x({i}, {j}); }, s + 3, cross({i}, {j}), 1, 1);
      case 3:
         return put2([&] { return x({i}, pl::reverse); }, s + 3, cross({i}, iota_ix(c, c - 1, -1)), 1, c);
      default:
         return put2([&] { return x(pl::reverse, {j}); }, s + 3, cross(iota_ix(r, r - 1, -1), {j}), r, 1);
      }
   }
   case 10: {
      Ix ix = iota_ix(r * c);
      if((q & 1) != 0) {
         return put1<true>([&] { return x.view1D(); }, s + 3, ix);
      }
      long f = factor(r * c, p);
      if((q & 2) != 0) {
         return put2<true>([&] { return x.view2D(f, r * c / f); }, s + 3, ix, f, r * c / f);
      }
      return put2([&] { return x(pl::all, pl::all).view2D(f, r * c / f); }, s + 3, ix, f, r * c / f);
   }
   case 11: {
      auto* d = reinterpret_cast<T*>(x.data());
      return put2<true>([&] { return spp::attach2D(d, r, c); }, s + 3, iota_ix(r * c), r, c);
   }
   case 12:
      if(r >= 2) { // slices to each other: copied, not rebound
         long k = r / 2;
         int how = static_cast<int>(R(q, 4));
         return exec(Cat::Elem,
                     [&] {
                        auto e = x.rows(pl::firstN{k});
                        const auto o = x.rows(pl::lastN{k});
                        switch(how) {
                        case 0:
                           e = o;
                           return;
                        case 1:
                           e = x.rows(pl::lastN{k});
                           return;
                        case 2:
                           x.rows(pl::firstN{k}) = x.rows(pl::lastN{k});
                           return;
                        default:
                           x.rows(pl::firstN{k}) = std::as_const(x)(pl::lastN{k}, pl::all);
                        }
                     },
                     [&] {
                        M2& w = m.m2[us];
                        for(long i = 0; i < k * c; ++i) {
                           w.v[static_cast<size_t>(i)] = static_cast<T>(w.v[static_cast<size_t>((r - k) * c + i)]);
                        }
                     });
      }
      return;
   case 13:
      if(r >= 2 && c >= 2) { // a list to a slice
         long i = R(p, r - 1), j = R(q, c - 1);
         return exec(Cat::Elem,
                     [&] {
                        x(spp::seq{i + 1, i, -1}, spp::seqN{j, 2}) = {
                           {sv(p), sv(q)},
                           {sv(p + 1), sv(q + 1)}
                        };
                     },
                     [&] {
                        M2& w = m.m2[us];
                        w.v[static_cast<size_t>((i + 1) * c + j)] = val(p);
                        w.v[static_cast<size_t>((i + 1) * c + j + 1)] = val(q);
                        w.v[static_cast<size_t>(i * c + j)] = val(p + 1);
                        w.v[static_cast<size_t>(i * c + j + 1)] = val(q + 1);
                     });
      }
      return;
   case 14:
      return put2<true>([&] { return x(pl::all, pl::all); }, s + 3, iota_ix(r * c), r, c);
   default: // the fixed array
      switch(R(A(7) / 4, 5)) {
      case 0:
         return put2([&] { return f2.rows(pl::reverse); }, 7, {3, 4, 5, 0, 1, 2}, 2, 3);
      case 1:
         return put1([&] { return f2.diag(1); }, 7, {1, 5});
      case 2:
         return put2<true>([&] { return f2.view2D(3, 2); }, 7, iota_ix(6), 3, 2);
      case 3:
         return put1([&] { return f2.col(1); }, 7, {1, 4});
      default: {
         spp::FixedArray2D<T, 2, 3, AF> o(sv(p));
         if((q & 1) != 0) {
            f2 = o;
         } else {
            f2 = std::move(o);
         }
         m.f2 = V(6, val(p));
      }
      }
   }
}

// Positions and shapes that must be rejected on reading or writing.
STEP(badapi2) {
   namespace pl = spp::place;
   int s = s0();
   A2& x = b[s];
   const A2& cx = x;
   long r = m.m2[static_cast<size_t>(s)].r, c = m.m2[static_cast<size_t>(s)].c;
   long k = R(A(3), 3);
   T sink{};
   auto use = [&](const auto& e) { sink = S{e}.val(); };
   switch(R(A(2), 64) % 48) {
   case 0:
      return reject([&] { use(cx.at(r + k, 0)); });
   case 1:
      return reject([&] { use(x(0, c + k)); });
   case 2:
      return reject([&] { use(cx(-1 - k, 0)); });
   case 3:
      return reject([&] { use(x.at(0, -1 - k)); });
   case 4:
      return reject([&] { x(spp::last - (r + k), 0) = S{}; });
   case 5:
      return reject([&] { x.at(0, spp::last - (c + k)) = S{}; });
   case 6:
      return reject([&] { (void)cx.row(r + k); });
   case 7:
      return reject([&] { (void)x.col(c + k); });
   case 8:
      return reject([&] { (void)x.row(-1 - k); });
   case 9:
      return reject([&] { (void)cx.col(spp::last - (c + k)); });
   case 10:
      return reject([&] { (void)cx.diag(c + k); });
   case 11:
      return reject([&] { (void)x.diag(-r - k); });
   case 12:
      return reject([&] { (void)x(pl::all, pl::all).diag(c + k); });
   case 13:
      return reject([&] { (void)cx.rows({0, r + k}); });
   case 14:
      return reject([&] { (void)x.cols({c + k, 0}); });
   case 15:
      return reject([&] { (void)x({-1 - k}, pl::all); });
   case 16:
      return reject([&] { (void)cx(pl::all, {-1 - k}); });
   case 17:
      return reject([&] { (void)x(pl::all, pl::all)({r + k}, {0}); });
   case 18:
      return reject([&] { (void)x.rows(pl::firstN{r + 1 + k}); });
   case 19:
      return reject([&] { (void)cx.cols(pl::lastN{c + 1 + k}); });
   case 20:
      return reject([&] { (void)cx.rows(pl::lastN{r + 1 + k}); });
   case 21:
      return reject([&] { (void)x.cols(pl::firstN{c + 1 + k}); });
   case 22:
      return reject([&] { (void)x.rows(pl::complement{r + k}); });
   case 23:
      return reject([&] { (void)cx.cols(pl::complement{c + k}); });
   case 24:
      return reject([&] { (void)cx.rows(spp::seq{r + k, r + k}); });
   case 25:
      return reject([&] { (void)x.cols(spp::seq{c + k, c + k}); });
   case 26:
      return reject([&] { (void)x.rows(spp::seqN{r + k, 1}); });
   case 27:
      return reject([&] { (void)cx.cols(spp::seqN{0, c + 1 + k}); });
   case 28:
      return reject([&] { (void)cx.block(0, 0, r + k, 0); });
   case 29:
      return reject([&] { (void)x.blockN(0, 0, 1, c + 1 + k); });
   case 30:
      return reject([&] { (void)x(pl::all, pl::all).blockN(0, 0, r + 1 + k, 1); });
   case 31:
      return reject([&] { (void)cx.view2D(r * c + 1 + k, 1); });
   case 32:
      return reject([&] { (void)x(pl::all, pl::all).view2D(1, r * c + 1 + k); });
   case 33:
      return reject([&] { use(*(x.begin() + (r * c + k))); });
   case 34:
      return reject([&] { use(cx.begin()[r * c + k]); });
   case 35:
      return reject([&] { use(*(cx.rbegin() + (r * c + k))); });
   case 36:
      return reject([&] { *(x.rbegin() + (r * c + k)) = S{}; });
   case 37:
      return reject([&] {
         spp::RowIt it{cx};
         (void)*(it.begin() + (r + k));
      });
   case 38:
      return reject([&] {
         spp::ColIt it{x};
         (void)it.end()[k];
      });
   case 39:
      if((k & 1) != 0) {
         return reject([&] { (void)spp::IndexRange2D(k, 0); });
      }
      return reject([&] { (void)spp::IndexRange2D(-1 - k, -1); });
   case 40:
      return reject([&] { (void)*spp::IndexRange2D(cx.rows(), cx.cols()).end(); });
   case 41:
      return reject([&] { (void)++spp::IndexRange2D(cx.rows(), cx.cols()).end(); });
   case 42:
      if(r > 0) {
         return reject([&] { x(pl::all, pl::all) = cx.rows(pl::firstN{r - 1}); });
      }
      return;
   case 43:
      if(c != 3 || r != 1) {
         return reject([&] {
            x(pl::all, pl::all) = {
               {S{}, S{}, S{}}
            };
         });
      }
      return;
   case 44: {
      auto* d = reinterpret_cast<T*>(x.data());
      if((k & 1) != 0) {
         return reject([&] { (void)spp::attach2D(d, -k, -k); });
      }
      return reject([&] { use(spp::attach2D(d, r, c)(r + k, 0)); });
   }
   case 45:
      if(r > 1) {
         return reject([&] { (void)merge_horizontal(cx, x, cx.rows(pl::firstN{r - 1})); });
      }
      return;
   case 46:
      if(c > 1) {
         return reject([&] { (void)merge_vertical(cx.cols(pl::firstN{c - 1}), x, cx); });
      }
      return;
   default:
      if(r > 1) {
         return reject([&] { (void)(cx == x).val(), x.rows(vi({r, 0})) = S{}; });
      }
      return reject([&] { (void)(x.begin() == b[(s + 1) % 3].begin()); });
   }
}
