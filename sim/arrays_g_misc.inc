// Step implementations, group misc.

STEP(alloc_misc) {
   int s = s0(), t = s1();
   switch(R(A(2), 10)) {
   case 0:
      if constexpr(arith) {
         V got;
         exec(Cat::Strong,
              [&] {
                 auto p = spp::blas_array(a[t]);
                 alloc::Host h;
                 got.clear();
                 for(long i = 0; i < len(t); ++i) {
                    got.push_back(p[static_cast<size_t>(i)]);
                 }
              },
              [&] {});
         if(mode == Mode::Model && last_ok && !(got == m.m1[t])) {
            bad("model", "blas_array copied wrong values");
         }
         return;
      }
      return;
   case 1:
      if constexpr(arith) {
         long cnt = -1, want = 0;
         T lo = val(A(3)), hi = val(A(4));
         if(hi < lo) {
            std::swap(lo, hi);
         }
         for(T e : m.m1[t]) {
            want += e >= lo && e <= hi;
         }
         exec(Cat::Strong,
              [&] { cnt = spp::in_closed_range(a[t], S{lo}, S{hi}).size().val(); },
              [&] {});
         if(mode == Mode::Model && last_ok && cnt != want) {
            bad("model", "in_closed_range selected the wrong number of elements");
         }
         return;
      }
      return;
   case 2:
      if constexpr(spp::Floating<T>) {
         exec(Cat::Strong, [&] { (void)spp::stable_prod(a[t], S{T(1)}); }, [&] {});
      }
      return;
   case 3:
      if constexpr(spp::Floating<T>) {
         exec(Cat::Strong, [&] { (void)spp::semi_stable_sum(a[t], S{T(0)}); }, [&] {});
      }
      return;
   case 4: { // copies of slices that own index vectors
      long n = -1, want = static_cast<long>(anyidx(len(t), A(3), A(4)).size());
      exec(Cat::Strong,
           [&] {
              auto sl = a[t](vi(anyidx(len(t), A(3), A(4))));
              auto cp = sl;
              auto cc = cp(spp::place::reverse);
              n = cc.size().val();
           },
           [&] {});
      if(mode == Mode::Model && last_ok && n != want) {
         bad("model", "slice by index vector has the wrong size");
      }
      return;
   }
   case 5: { // vector of arrays, reallocating
      exec(Cat::Strong,
           [&] {
              std::vector<A1> v;
              for(int i = 0; i < 3; ++i) {
                 v.push_back(a[i]);
              }
              a[s].resize_and_assign(v[static_cast<size_t>(t)]);
           },
           [&] { m.m1[s] = V(m.m1[t]); });
      return;
   }
   case 6: { // vector of matrices, reallocating
      exec(Cat::Strong,
           [&] {
              std::vector<A2> v;
              for(int i = 0; i < 3; ++i) {
                 v.push_back(b[i]);
              }
              b[s].resize_and_assign(v[static_cast<size_t>(t)]);
           },
           [&] { m.m2[s] = M2(m.m2[t]); });
      return;
   }
   case 7: { // initializer-list index slices
      if(len(t) < 3) {
         return;
      }
      exec(Cat::Strong,
           [&] { a[s].resize_and_assign(a[t]({0, 2, 1, 2})); },
           [&] {
              V v = m.m1[t];
              m.m1[s] = V{v[0], v[2], v[1], v[2]};
           });
      return;
   }
   case 8: {
      if(len(t) < 3) {
         return;
      }
      exec(Cat::Strong,
           [&] { a[s].resize_and_assign(a[t](spp::place::complement{1})); },
           [&] {
              V v = m.m1[t];
              v.erase(v.begin() + 1);
              m.m1[s] = v;
           });
      return;
   }
   default: { // 2-D slices that own index vectors in both dimensions
      if(m.m2[t].r == 0) {
         return;
      }
      auto ri = anyidx(m.m2[t].r, A(3), A(4)), ci = anyidx(m.m2[t].c, A(4), A(3));
      if(ri.empty() || ci.empty()) {
         return;
      }
      M2 o = build(static_cast<long>(ri.size()), static_cast<long>(ci.size()), [&](long i, long j) {
         return m.m2[t].at(ri[static_cast<size_t>(i)], ci[static_cast<size_t>(j)]);
      });
      if(too_big(o.v.size())) {
         return;
      }
      exec(Cat::Strong,
           [&] {
              auto sl = b[t](vi(ri), vi(ci));
              b[s].resize_and_assign(sl);
           },
           [&] { m.m2[s] = o; });
   }
   }
}

STEP(matprod) {
#ifdef STRICT_ENABLE_EIGEN
   if constexpr(spp::Floating<T>) {
      int s = s0(), t = s1();
      long r = m.m2[t].r, c = m.m2[t].c;
      if(r == 0) {
         return;
      }
      for(T e : m.m2[t].v) {
         if(e > 4000 || e < -4000) {
            return do_assign2_val();
         }
      }
      M2 o = build(r, r, [&](long i, long j) {
         T x = 0;
         for(long k = 0; k < c; ++k) {
            x += m.m2[t].at(i, k) * m.m2[t].at(j, k);
         }
         return x;
      });
      // Keep magnitudes exact: only the shape and a comparison of the product are used.
      exec(Cat::Strong,
           [&] {
              A2 tr(transpose(b[t]));
              auto p = matrix_prod(b[t], tr);
              bool same = p.rows().val() == r && p.cols().val() == r;
              if(same && mode == Mode::Model) {
                 for(long i = 0; i < r * r; ++i) {
                    T d = p.un(i).val() - o.v[static_cast<size_t>(i)];
                    T big = T(1) + std::abs(o.v[static_cast<size_t>(i)]) + T(4000) * T(4000) * static_cast<T>(c);
                    same = same && std::abs(d) <= big * std::numeric_limits<T>::epsilon() * static_cast<T>(64);
                 }
              }
              if(!same) {
                 alloc::Host h;
                 bad("model", "matrix_prod returned a wrong matrix");
              }
              b[s].resize(r, r, false);
              b[s] = S{T(1)};
           },
           [&] { m.m2[s] = shape(r, r, T(1)); });
   }
#endif
}

STEP(read1) {
   int s = s0(), t = s1();
   if(len(t) > 40) {
      return;
   }
   if constexpr(!spp::Boolean<T>) {
      std::string txt;
      for(T e : m.m1[t]) {
         txt += std::to_string(static_cast<long long>(e)) + ((A(2) & 1) ? "\n" : "  ");
      }
      exec(Cat::Strong,
           [&] {
              std::istringstream is{txt};
              is >> a[s];
           },
           [&] { m.m1[s] = V(m.m1[t]); });
   }
}

STEP(read2) {
   int s = s0(), t = s1();
   if constexpr(!spp::Boolean<T>) {
      std::string txt;
      const M2& o = m.m2[t];
      for(long i = 0; i < o.r; ++i) {
         for(long j = 0; j < o.c; ++j) {
            txt += std::to_string(static_cast<long long>(o.at(i, j))) + (j + 1 < o.c ? " " : "\n");
         }
      }
      exec(Cat::Strong,
           [&] {
              std::istringstream is{txt};
              is >> b[s];
           },
           [&] { m.m2[s] = M2(m.m2[t]); });
   }
}

STEP(bad1) {
   int s = s0(), t = s1x();
   long n = len(s);
   long big = n + 1 + R(A(3), 3);
   A1& x = a[s];
   switch(R(A(2), 64) % 32) {
   case 0:
      return reject([&] { x.remove(n); });
   case 1:
      return reject([&] { x.remove(-1); });
   case 2:
      return reject([&] { x.remove(R(A(4), n + 1), big - R(A(4), n + 1)); });
   case 3:
      return reject([&] { x.remove(R(A(4), n + 1), -R(A(3), 3)); });
   case 4:
      return reject([&] { x.remove_front(big); });
   case 5:
      return reject([&] { x.remove_back(big); });
   case 6:
      return reject([&] { x.remove(spp::last - n); });
   case 7:
   case 8:
   case 9:
   case 10: {
      auto v = vi(badlist(n, A(3), A(4)));
      return reject([&] { x.remove(v); });
   }
   case 11:
      return reject([&] { x.insert(big, sv(A(4))); });
   case 12:
      return reject([&] { x.insert(-1, sv(A(4))); });
   case 13:
      return reject([&] { x.insert(big, a[t]); });
   case 14:
      return reject([&] { x.insert(-1, a[t]); });
   case 15:
      return reject([&] { x.resize(-1 - R(A(3), 5)); });
   case 16:
      return reject([&] { x = spp::const1D(big, sv(A(4))); });
   case 17:
      if(n > 0) {
         return reject([&] { x = spp::const1D(n - 1, sv(A(4))); });
      }
      return;
   case 18:
      if(n != 2) {
         return reject([&] { x = {sv(1), sv(2)}; });
      }
      return;
   case 19:
      return reject([&] { x.at(n) = sv(A(4)); });
   case 20:
      return reject([&] { x[-1] = sv(A(4)); });
   case 21:
      return reject([&] { x[spp::last - n] = sv(A(4)); });
   case 22:
      return reject([&] { x[big] = sv(A(4)); });
   case 23:
      return reject([&] { x(spp::place::all) = spp::const1D(big, sv(A(4))); });
   case 24:
      if constexpr(arith) {
         return reject([&] { x += spp::const1D(big, sv(A(4))); });
      }
      return;
   case 25:
      if constexpr(integer) {
         if(n > 0) {
            return reject([&] { x /= S{T(0)}; });
         }
      }
      return;
   case 26:
      return reject([&] { (void)x.view2D(n + 1, 1); });
   case 27:
      return reject([&] { f1 = {sv(1), sv(2)}; });
   case 28:
      if(n != len(t)) {
         return reject([&] { x = a[t]; });
      }
      return;
   case 29:
      if(n != 5) {
         return reject([&] { f1 = x; });
      }
      return;
   case 30:
      return reject([&] { x.remove(spp::Pos{n}, spp::Count{1}); });
   default:
      if(n >= 2) {
         return reject([&] { x.remove(vi({0, 1, n})); });
      }
   }
}

STEP(bad2) {
   int s = s0(), t = s1x();
   long r = m.m2[s].r, c = m.m2[s].c;
   A2& x = b[s];
   long big = 1 + R(A(3), 3);
   switch(R(A(2), 64) % 40) {
   case 0:
      return reject([&] { x.remove_row(r); });
   case 1:
      return reject([&] { x.remove_row(-1); });
   case 2:
      return reject([&] { x.remove_rows(R(A(4), r + 1), r - R(A(4), r + 1) + big); });
   case 3:
      return reject([&] { x.remove_rows(0, -R(A(3), 2)); });
   case 4:
      return reject([&] { x.remove_col(c); });
   case 5:
      return reject([&] { x.remove_col(-1); });
   case 6:
      return reject([&] { x.remove_cols(R(A(4), c + 1), c - R(A(4), c + 1) + big); });
   case 7:
      return reject([&] { x.remove_cols(0, -R(A(3), 2)); });
   case 8:
      return reject([&] { x.remove_rows_front(r + big); });
   case 9:
      return reject([&] { x.remove_rows_back(r + big); });
   case 10:
      return reject([&] { x.remove_cols_front(c + big); });
   case 11:
      return reject([&] { x.remove_cols_back(c + big); });
   case 12:
      return reject([&] { x.remove_row(spp::last - r); });
   case 13:
      return reject([&] { x.remove_col(spp::last - c); });
   case 14:
   case 16: {
      auto v = vi(badlist(r, A(3), A(4)));
      return reject([&] { x.remove_rows(v); });
   }
   case 15:
   case 17: {
      auto v = vi(badlist(c, A(3), A(4)));
      return reject([&] { x.remove_cols(v); });
   }
   case 18:
      if(r > 0) {
         return reject([&] { x.insert_rows(R(A(4), r + 1), spp::const2D(2, c + big, sv(A(4)))); });
      }
      return;
   case 19:
      if(r > 0) {
         return reject([&] { x.insert_cols(R(A(4), c + 1), spp::const2D(r + big, 2, sv(A(4)))); });
      }
      return;
   case 20:
      return reject([&] { x.insert_rows(r + big, spp::const2D(2, c ? c : 1, sv(A(4)))); });
   case 21:
      return reject([&] { x.insert_cols(-1, spp::const2D(r ? r : 1, 2, sv(A(4)))); });
   case 22:
      if(r > 0) {
         return reject([&] { x.insert_row(R(A(4), r + 1), spp::const1D(c + big, sv(A(4)))); });
      }
      return;
   case 23:
      if(r > 0) {
         return reject([&] { x.insert_col(R(A(4), c + 1), spp::const1D(r + big, sv(A(4)))); });
      }
      return;
   case 24:
      return reject([&] { x.insert_row(r + big, spp::const1D(c, sv(A(4)))); });
   case 25:
      return reject([&] { x.insert_col(-1, spp::const1D(r, sv(A(4)))); });
   case 26:
      if(r == 0) {
         return reject([&] { x.insert_row(0, spp::const1D(0, sv(A(4)))); });
      }
      return reject([&] { x.insert_row(0, spp::const1D(c - 1, sv(A(4)))); });
   case 27:
      return reject([&] { x.resize(-1, 2); });
   case 28:
      return reject([&] { x.resize(0, big, (A(4) & 1) != 0); });
   case 29:
      return reject([&] { x.resize(big, 0, (A(4) & 1) != 0); });
   case 30:
      return reject([&] { x = spp::const2D(r + 1, c + 1, sv(A(4))); });
   case 31:
      return reject([&] { x(r, 0) = sv(A(4)); });
   case 32:
      return reject([&] { x.at(0, c) = sv(A(4)); });
   case 33:
      return reject([&] { x.row(r)[0] = sv(A(4)); });
   case 34:
      return reject([&] { x.col(-1)[0] = sv(A(4)); });
   case 35:
      return reject([&] {
         x = {
            {sv(1), sv(2)},
            {sv(3)}
         };
      });
   case 36:
      if(r != m.m2[t].r || c != m.m2[t].c) {
         return reject([&] { x = b[t]; });
      }
      return;
   case 37:
      if(r > 0) {
         return reject([&] { x.blockN(0, 0, r + big, c) = sv(A(4)); });
      }
      return;
   case 38:
      return reject([&] { (void)x.view2D(r * c + 1, 1); });
   default:
      if(r != c && r > 0) {
         return reject([&] { x = transpose(x); });
      }
   }
}

STEP(badctor) {
   int s = s0();
   long k = 1 + R(A(3), 4);
   switch(R(A(2), 64) % 11) {
   case 0:
      return reject([&] { A1 x(-k); });
   case 1:
      return reject([&] { A1 x(-k, sv(A(4))); });
   case 2:
      return reject([&] { A2 x(k, 0); });
   case 3:
      return reject([&] { A2 x(0, k); });
   case 4:
      return reject([&] { A2 x(-k, -k); });
   case 5:
      return reject([&] { A2 x(-k, k); });
   case 6:
      return reject([&] { spp::FixedArray1D<T, 5, AF> x{sv(1), sv(2), sv(3)}; });
   case 7:
      if(len(s) > 0) {
         return reject([&] { A1 x(a[s].begin() + len(s), a[s].begin()); });
      }
      return;
   case 8:
      return reject([&] {
         A2 x{
            {sv(1), sv(2)},
            {sv(3)}
         };
      });
   case 9:
      if(len(s) != 5) {
         return reject([&] { spp::FixedArray1D<T, 5, AF> x(a[s]); });
      }
      return;
   default:
      return reject([&] { A2 x(k, -k, sv(A(4))); });
   }
}

STEP(badslice) {
   int s = s0();
   long n = len(s), r = m.m2[s].r, c = m.m2[s].c;
   A1& x = a[s];
   long k = 1 + R(A(3), 4);
   switch(R(A(2), 64) % 18) {
   case 0:
      return reject([&] { x(spp::seqN{0, n + k}) = sv(1); });
   case 1:
      return reject([&] { x(spp::seqN{n, 1}) = sv(1); });
   case 2:
      return reject([&] { x(spp::seqN{-k, 1}) = sv(1); });
   case 3:
      return reject([&] { x(spp::seqN{0, -k}) = sv(1); });
   case 4:
   case 5: {
      auto v = vi(outlist(n, A(3), A(4)));
      return reject([&] { x(v) = sv(1); });
   }
   case 6:
      return reject([&] { x(spp::place::firstN{n + k}) = sv(1); });
   case 7:
      return reject([&] { x(spp::place::lastN{n + k}) = sv(1); });
   case 8:
      return reject([&] { x(spp::place::skipN{0}) = sv(1); });
   case 9:
   case 17: {
      auto v = vi(badlist(n, A(3), A(4)));
      return reject([&] { x(spp::place::complement{v}) = sv(1); });
   }
   case 10:
      return reject([&] { x(spp::seq{0, n}) = sv(1); });
   case 11:
      return reject([&] { x(spp::seq{k, 0}) = sv(1); });
   case 12: {
      auto v = vi(outlist(r, A(3), A(4)));
      return reject([&] { b[s].rows(v) = sv(1); });
   }
   case 13: {
      auto v = vi(outlist(c, A(3), A(4)));
      return reject([&] { b[s].cols(v) = sv(1); });
   }
   case 14:
      return reject([&] { b[s].rows(spp::seqN{0, r + k}) = sv(1); });
   case 15:
      if(n > 0) {
         return reject([&] { x(spp::seqN{0, n + 1, -1}) = sv(1); });
      }
      return;
   case 16:
      return reject([&] { b[s](spp::place::all, spp::seqN{c, 1}) = sv(1); });
   }
}

STEP(badexpr) {
   int s = s0(), t = s1x();
   long n = len(s), r = m.m2[s].r, c = m.m2[s].c;
   long k = 1 + R(A(3), 4);
   switch(R(A(2), 64) % 14) {
   case 0:
      if constexpr(arith) {
         return reject([&] { a[t].resize_and_assign(a[s] + spp::const1D(n + k, sv(1))); });
      }
      return;
   case 1:
      if constexpr(arith) {
         return reject([&] { (void)spp::dot_prod(a[s], spp::const1D(n + k, sv(1))); });
      }
      return;
   case 2:
      if(r > 0) {
         return reject([&] {
            b[t].resize_and_assign(merge_horizontal(b[s], spp::const2D(r + k, c, sv(1))));
         });
      }
      return;
   case 3:
      if(r > 0) {
         return reject([&] {
            b[t].resize_and_assign(merge_vertical(b[s], spp::const2D(r, c + k, sv(1))));
         });
      }
      return;
   case 4:
      return reject([&] { a[t].resize_and_assign(exclude(a[s], n, 1)); });
   case 5:
      return reject([&] { a[t].resize_and_assign(exclude(a[s], 0, n + k)); });
   case 6:
      return reject([&] { b[t].resize_and_assign(spp::const2D(0, k, sv(1))); });
   case 7:
      return reject([&] { a[t].resize_and_assign(spp::const1D(-k, sv(1))); });
   case 8:
      if constexpr(arith) {
         return reject([&] { a[t].resize_and_assign(spp::e_unit<T>(k, k)); });
      }
      return;
   case 9:
      if constexpr(arith) {
         return reject([&] { a[t].resize_and_assign(spp::sequence<T>(-k, S{T(1)}, S{T(1)})); });
      }
      return;
   case 10:
      if constexpr(arith) {
         return reject([&] { b[t].resize_and_assign(spp::identity<T>(-k)); });
      }
      return;
   case 11:
      return reject([&] { a[t].resize_and_assign(exclude(a[s], -k, 1)); });
   case 12:
      if constexpr(arith) {
         if(r > 0) {
            return reject([&] { b[t].resize_and_assign(b[s] + spp::const2D(r + 1, c, sv(1))); });
         }
      }
      return;
   default:
      if constexpr(arith) {
         return reject([&] { (void)spp::in_closed_range(a[s], S{T(5)}, S{T(2)}); });
      }
   }
}
