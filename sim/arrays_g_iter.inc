// Step implementations, group iter: iterators.

// Iterators of a 1-D array, forwards and backwards, changing and reading.
STEP(walk1) {
   int s = s0();
   auto us = static_cast<size_t>(s);
   long n = len(s);
   Walked r;
   V now = m.m1[us];
   auto want = [&](long i) { return static_cast<T>(now[static_cast<size_t>(i)]); };
   auto back = [&](long i) { return static_cast<T>(now[static_cast<size_t>(n - 1 - i)]); };
   auto put = [&](long i, S x) { now[static_cast<size_t>(i)] = x.val(); };
   auto tup = [&](long i, S x) { now[static_cast<size_t>(n - 1 - i)] = x.val(); };
   long p = R(A(1), n + 1);
   exec(Cat::Elem,
        [&] {
           if(R(A(5), 2) == 0) {
              return ends<true>(a[s], R(A(5) / 2, 8), p, n, r, want, back, put, tup);
           }
           ends<false>(std::as_const(a[s]), R(A(5) / 2, 8), p, n, r, want, back, put, tup);
        },
        [&] { m.m1[us] = now; });
   walked(r);
}

// Iterators of a 2-D array: over its elements, its rows, its columns.
STEP(walk2) {
   int s = s0();
   auto us = static_cast<size_t>(s);
   const long rows = m.m2[us].r, cols = m.m2[us].c, n = rows * cols;
   Walked r;
   M2 now = m.m2[us];
   auto want = [&](long i) { return static_cast<T>(now.v[static_cast<size_t>(i)]); };
   auto back = [&](long i) { return static_cast<T>(now.v[static_cast<size_t>(n - 1 - i)]); };
   auto put = [&](long i, S x) { now.v[static_cast<size_t>(i)] = x.val(); };
   auto row = [&](long i) { return static_cast<T>(now.at(i, 0)); };
   auto wor = [&](long i) { return static_cast<T>(now.at(rows - 1 - i, 0)); };
   auto col = [&](long j) { return static_cast<T>(now.at(0, j)); };
   auto loc = [&](long j) { return static_cast<T>(now.at(0, cols - 1 - j)); };
   auto putrow = [&](long i, S x) {
      for(long j = 0; j < cols; ++j) {
         now.v[static_cast<size_t>(i * cols + j)] = x.val();
      }
   };
   auto putcol = [&](long j, S x) {
      for(long i = 0; i < rows; ++i) {
         now.v[static_cast<size_t>(i * cols + j)] = x.val();
      }
   };
   auto putwor = [&](long i, S x) { putrow(rows - 1 - i, x); };
   auto putloc = [&](long j, S x) { putcol(cols - 1 - j, x); };
   auto tup = [&](long i, S x) { now.v[static_cast<size_t>(n - 1 - i)] = x.val(); };
   exec(Cat::Elem,
        [&] {
           const A2& c = b[s];
           int kind = static_cast<int>(R(A(5), 10));
           long how = R(A(5) / 10, 8);
           long p = R(A(1), (kind < 2 ? n : kind < 6 ? rows : cols) + 1);
           switch(kind) {
           case 0:
              return ends<true>(b[s], how, p, n, r, want, back, put, tup);
           case 1:
              return ends<false>(c, how, p, n, r, want, back, put, tup);
           case 2: {
              spp::RowIt x{b[s]};
              return ends<true>(x, how, p, rows, r, row, wor, putrow, putwor);
           }
           case 3: {
              const spp::RowIt x{b[s]};
              return ends<false>(x, how, p, rows, r, row, wor, putrow, putwor);
           }
           case 4: {
              spp::RowIt x{c};
              return ends<false>(x, how, p, rows, r, row, wor, putrow, putwor);
           }
           case 5: {
              const spp::RowIt x{c};
              return ends<false>(x, how, p, rows, r, row, wor, putrow, putwor);
           }
           case 6: {
              spp::ColIt x{b[s]};
              return ends<true>(x, how, p, cols, r, col, loc, putcol, putloc);
           }
           case 7: {
              const spp::ColIt x{b[s]};
              return ends<false>(x, how, p, cols, r, col, loc, putcol, putloc);
           }
           case 8: {
              spp::ColIt x{c};
              return ends<false>(x, how, p, cols, r, col, loc, putcol, putloc);
           }
           default: {
              const spp::ColIt x{c};
              return ends<false>(x, how, p, cols, r, col, loc, putcol, putloc);
           }
           }
        },
        [&] { m.m2[us] = now; });
   walked(r);
}

// Iterators of slices, fixed arrays and expressions.
STEP(walkx) {
   namespace pl = spp::place;
   int s = s0();
   auto us = static_cast<size_t>(s);
   Snap now = m;
   Walked r;
   auto none = [](long, S) {};
   int kind = static_cast<int>(R(A(5), 9));
   Ix ix;
   int slot = s;
   long n = len(s);
   const M2& y = m.m2[us];
   if(y.r == 0 && (kind == 3 || kind == 4)) {
      kind = 0;
   }
   Sq z = mkseq(n, A(1), A(2));
   auto iv = anyidx(n, A(1), A(2));
   switch(kind) {
   case 0:
      ix = iota_ix(n, n - 1, -1);
      break;
   case 1:
   case 7:
      ix = iota_ix(z.n, z.st, z.sd);
      break;
   case 2:
      ix = Ix(iv.begin(), iv.end());
      break;
   case 3:
      slot = 3 + s;
      ix = iota_ix(y.r, R(A(1), y.c), y.c);
      break;
   case 4:
      slot = 3 + s;
      ix = iota_ix(y.r * y.c);
      break;
   case 5:
      slot = 6;
      ix = iota_ix(5);
      break;
   case 6:
      slot = 7;
      ix = iota_ix(6);
      break;
   default:
      ix = iota_ix(n);
   }
   long len1 = static_cast<long>(ix.size());
   auto want = [&](long i) { return static_cast<T>(cells_of(now, slot)[static_cast<size_t>(ix[static_cast<size_t>(i)])]); };
   auto put = [&](long i, S x) { cells_of(now, slot)[static_cast<size_t>(ix[static_cast<size_t>(i)])] = x.val(); };
   long p = R(A(6) / 7, len1 + 1);
   exec(Cat::Elem,
        [&] {
           auto go = [&](auto& x) {
              auto it = x.begin() + p;
              walk<true>(it, p, x.begin(), len1, r, want, put);
           };
           auto look = [&](const auto& x) {
              auto it = x.end() - (len1 - p);
              walk<false>(it, p, x.cbegin(), len1, r, want, none);
           };
           switch(kind) {
           case 0: {
              auto x = a[s](pl::reverse);
              return go(x);
           }
           case 1: {
              auto x = a[s](sq(z));
              return go(x);
           }
           case 2: {
              auto x = a[s](vi(iv));
              return go(x);
           }
           case 3: {
              auto x = b[s].col(R(A(1), y.c));
              return go(x);
           }
           case 4: {
              auto x = b[s].view1D();
              return go(x);
           }
           case 5:
              return go(f1);
           case 6:
              return go(f2);
           case 7:
              return look(std::as_const(a[s])(sq(z)));
           default:
              return look(spp::generate(std::as_const(a[s]), [](auto e) { return e; }));
           }
        },
        [&] { m = now; });
   walked(r);
}

// An iterator kept while other calls change its array: where it stands there is an element, or nothing.
STEP(keepit) {
   int s = s0();
   auto us = static_cast<size_t>(s);
   Kept& k = kept[us];
   Walked r;
   V now = m.m1[us];
   const V v2 = m.m2[us].v;
   long n = len(s), n2 = static_cast<long>(v2.size());
   auto none = [](long, S) {};
   bool one = (A(5) & 1) != 0;
   if(A(5) % 16 >= 14 || !(one ? k.set1 : k.set2)) {
      // A new one.
      long p = R(A(1), (one ? n : n2) + 1);
      exec(Cat::Elem,
           [&] {
              if(one) {
                 k.i1 = a[s].begin() + p;
              } else {
                 k.i2 = std::as_const(b[s]).begin() + p;
              }
           },
           [&] {
              (one ? k.set1 : k.set2) = true;
              (one ? k.p1 : k.p2) = p;
           });
      return;
   }
   exec(Cat::Elem,
        [&] {
           if(one) {
              walk<true>(
                 k.i1, k.p1, a[s].begin(), n, r, [&](long i) { return static_cast<T>(now[static_cast<size_t>(i)]); },
                 [&](long i, S x) { now[static_cast<size_t>(i)] = x.val(); });
           } else {
              walk<false>(
                 k.i2, k.p2, b[s].cbegin(), n2, r, [&](long i) { return static_cast<T>(v2[static_cast<size_t>(i)]); }, none);
           }
        },
        [&] { m.m1[us] = now; });
   walked(r);
}

// Standard algorithms through the iterators.
STEP(stdalg) {
   namespace pl = spp::place;
   int s = s0();
   auto us = static_cast<size_t>(s);
   V w = m.m1[us];
   long n = len(s), k = n == 0 ? 0 : R(A(1), n + 1);
   M2 y = m.m2[us];
   auto rowmajor = [&] { m.m2[us] = y; };
   auto line = [&] { m.m1[us] = w; };
   auto mid = [](auto& c, long i) { return c.begin() + i; };
   switch(R(A(5), 9)) {
   case 0:
      std::reverse(w.begin(), w.end());
      return exec(Cat::Elem, [&] { std::reverse(a[s].begin(), a[s].end()); }, line);
   case 1:
      std::rotate(w.begin(), mid(w, k), w.end());
      return exec(Cat::Elem, [&] { std::rotate(a[s].begin(), a[s].begin() + k, a[s].end()); }, line);
   case 2: {
      V o;
      for(long i = 0; i < n; i += 2) {
         o.push_back(w[static_cast<size_t>(i)]);
      }
      std::reverse(o.begin(), o.end());
      for(size_t i = 0; i < o.size(); ++i) {
         w[2 * i] = o[i];
      }
      return exec(
         Cat::Elem,
         [&] {
            auto e = a[s](pl::even);
            std::reverse(e.begin(), e.end());
         },
         line);
   }
   case 3:
      // Backwards, through reverse iterators.
      std::rotate(w.rbegin(), w.rbegin() + k, w.rend());
      return exec(Cat::Elem, [&] { std::rotate(a[s].rbegin(), a[s].rbegin() + k, a[s].rend()); }, line);
   case 4:
      if(y.r > 0) {
         long j = R(A(2), y.c);
         V c;
         for(long i = 0; i < y.r; ++i) {
            c.push_back(y.at(i, j));
         }
         std::reverse(c.begin(), c.end());
         for(long i = 0; i < y.r; ++i) {
            y.v[static_cast<size_t>(i * y.c + j)] = c[static_cast<size_t>(i)];
         }
         return exec(
            Cat::Elem,
            [&] {
               auto e = b[s].col(j);
               std::reverse(e.begin(), e.end());
            },
            rowmajor);
      }
      return;
   case 5: {
      if(k == n && n > 0) {
         --k;
      }
      std::copy(w.begin(), w.end() - k, w.begin());
      return exec(Cat::Elem, [&] { std::copy(a[s].begin(), a[s].end() - k, a[s].begin()); }, line);
   }
   case 6: {
      T x = val(A(3));
      std::fill(mid(w, k), w.end(), x);
      return exec(Cat::Elem, [&] { std::fill(a[s].begin() + k, a[s].end(), S{x}); }, line);
   }
   case 7: {
      std::reverse(y.v.begin(), y.v.end());
      return exec(Cat::Elem, [&] { std::reverse(b[s].begin(), b[s].end()); }, rowmajor);
   }
   default: {
      // Position of the first element that is equal to a given one.
      T x = n > 0 ? static_cast<T>(w[static_cast<size_t>(R(A(3), n))]) : val(A(3));
      long at = -1, cnt = -1;
      long wat = std::find(w.begin(), w.end(), x) - w.begin(), wcnt = std::count(w.begin(), w.end(), x);
      exec(
         Cat::Elem,
         [&] {
            const A1& c = a[s];
            auto eq = [x](const auto& e) { return (e == S{x}).val(); };
            at = std::find_if(c.begin(), c.end(), eq) - c.begin();
            cnt = std::count_if(a[s].begin(), a[s].end(), eq);
         },
         [] {});
      if(last_ok && mode == Mode::Model && (at != wat || cnt != wcnt)) {
         bad("iterator", "find or count over iterators is wrong");
      }
   }
   }
}

// Index pairs of a 2-D array.
STEP(plane) {
   int s = s0();
   auto us = static_cast<size_t>(s);
   long rows = m.m2[us].r, cols = m.m2[us].c;
   std::string wrong;
   exec(
      Cat::Elem,
      [&] {
         auto no = [&](const char* what) {
            alloc::Host h;
            if(wrong.empty()) {
               wrong = what;
            }
         };
         bool direct = (A(5) & 1) != 0;
         spp::IndexRange2D x = direct ? spp::IndexRange2D{rows, cols} : spp::IndexRange2D{b[s]};
         auto it = x.begin();
         auto stop = x.end();
         long k = 0;
         auto mark = x.begin();
         long marked = 0;
         while(it != stop) {
            auto [i, j] = *it;
            if(k >= rows * cols || i.val() != k / cols || j.val() != k % cols) {
               return no("index pairs in the wrong order");
            }
            if((it == mark).val() != (k == marked)) {
               return no("index pairs compare wrongly");
            }
            if(k % 3 == 1) {
               mark = it;
               marked = k;
            }
            if((A(1) + k) % 2 == 0) {
               auto old = it++;
               if((*old).first.val() != i.val() || (*old).second.val() != j.val()) {
                  return no("postfix ++ on index pairs");
               }
            } else {
               ++it;
            }
            ++k;
         }
         if(k != rows * cols) {
            return no("index pairs missing");
         }
         if(!refused([&] { (void)*it; }) || !refused([&] { ++it; })) {
            return no("an index pair past the end was given");
         }
         if(rows > 0 && !refused([&] { mark = spp::IndexRange2D{rows + 1, cols}.begin(); })) {
            return no("an index pair of another shape was assigned");
         }
         if(rows > 0 && !refused([&] { (void)(mark == spp::IndexRange2D{rows, cols + 1}.begin()); })) {
            return no("index pairs of different shapes were compared");
         }
         if(!refused([&] { (void)spp::IndexRange2D{(A(2) & 1) != 0 ? 1 + R(A(2), 3) : 0, (A(2) & 1) != 0 ? 0 : 1 + R(A(2), 3)}; })) {
            return no("a range of index pairs without columns or rows was accepted");
         }
         if(!refused([&] { (void)spp::IndexRange2D{-1 - R(A(2), 3), cols}; })) {
            return no("a negative range of index pairs was accepted");
         }
      },
      [] {});
   if(last_ok && mode == Mode::Model && !wrong.empty()) {
      bad("iterator", wrong);
   }
}

// Iterators that belong to nothing or to something else.
STEP(baditer) {
   int s = s0(), t = s1x();
   long n = len(s);
   A1& x = a[s];
   const A1& c = x;
   A2& y = b[s];
   It1 nil1{};
   It2 nil2{};
   decltype(c.begin()) cil1{};
   long k = 1 + R(A(3), 4);
   switch(R(A(2), 64) % 30) {
   case 0:
      return reject([&] { (void)*nil1; });
   case 1:
      return reject([&] { ++nil1; });
   case 2:
      return reject([&] { (void)(nil2--); });
   case 3:
      return reject([&] { nil1 += k; });
   case 4:
      if(R(A(4), 2) == 0) {
         return reject([&] { --(R(A(5), 2) == 0 ? cil1 += k : cil1 -= k); });
      }
      return reject([&] { (void)(nil2 - k); });
   case 5:
      return reject([&] { (void)(k + nil1); });
   case 6:
      if(R(A(4), 2) == 0) {
         return reject([&] { (void)(R(A(5), 2) == 0 ? *cil1 : cil1[k]); });
      }
      return reject([&] { (void)nil2[k]; });
   case 7:
      return reject([&] { related(nil1, R(A(4), 7)); });
   case 8:
      return reject([&] { related(nil2, R(A(4), 7)); });
   case 9:
      return reject([&] { related(cil1, R(A(4), 7)); });
   case 10:
      return reject([&] { related(x.begin() + R(A(5), 3), a[t].begin(), R(A(4), 7)); });
   case 11:
      return reject([&] { (void)(x.begin() < a[t].end()); });
   case 12:
      return reject([&] { (void)(a[t].end() - x.end()); });
   case 13:
      return reject([&] { related(c.begin() + R(A(5), 3), a[t].cbegin(), R(A(4), 7)); });
   case 14:
      return reject([&] { related(y.cend(), b[t].cend() - R(A(5), 3), R(A(4), 7)); });
   case 15:
      return reject([&] { related(spp::RowIt{y}.begin(), spp::RowIt{b[t]}.begin() + R(A(5), 3), R(A(4), 7)); });
   case 16:
      return reject([&] { (void)*x.end(); });
   case 17:
      return reject([&] { *(x.begin() + (n + k)) = S{}; });
   case 18:
      return reject([&] { (void)*(c.begin() - k); });
   case 19:
      return reject([&] { x.begin()[n - 1 + k] = S{}; });
   case 20:
      return reject([&] { (void)c.end()[0]; });
   case 21:
      return reject([&] { (void)*spp::RowIt{y}.end(); });
   case 22:
      return reject([&] { (void)spp::ColIt{y}.begin()[-k]; });
   case 23:
      return reject([&] { (void)x.begin()[std::numeric_limits<long>::max()]; });
   case 24:
      return reject([&] { (void)c.end()[std::numeric_limits<long>::min()]; });
   case 25:
      return reject([&] { (void)y.end()->val(); });
   case 26:
      return reject([&] { (void)c.end()->val(); });
   case 27:
      return reject([&] { (void)*c.rend(); });
   case 28:
      // Two slices of the same elements are not the same thing.
      return reject([&] {
         auto p = x(spp::place::all), q = x(spp::place::all);
         (void)(p.begin() == q.begin());
      });
   default:
      return reject([&] { (void)(nil2 > y.cbegin()); });
   }
}
