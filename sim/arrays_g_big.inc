// Step implementations, group big: sizes, counts, strides and positions near the limits of long.

// k odd: the number whose product with k is 1 modulo 2^64.
static unsigned long inverse(unsigned long k) {
   unsigned long r = k;
   for(int i = 0; i < 6; ++i) {
      r *= 2 - k * r;
   }
   return r;
}
// Two positive numbers, at least one enormous, whose product is n modulo 2^64.
static void wrapping_pair(long n, int64_t k, long& p, long& q) {
   static const long zero[][2] = {{1L << 32, 1L << 32}, {1L << 62, 4}, {8, 1L << 61}, {1L << 33, 1L << 31}};
   if(n == 0) {
      p = zero[R(k, 4)][0];
      q = zero[R(k, 4)][1];
      return;
   }
   for(unsigned long o = 3 + 2 * static_cast<unsigned long>(R(k, 40));; o += 2) {
      long h = static_cast<long>(static_cast<unsigned long>(n) * inverse(o));
      if(h > (1L << 40)) {
         p = static_cast<long>(o);
         q = h;
         if(k & 1) {
            std::swap(p, q);
         }
         return;
      }
   }
}
static long vast(int64_t k) {
   static const long v[] = {LONG_MAX,     LONG_MAX - 1, LONG_MAX / 2 + 1, LONG_MAX / 2, 1L << 61,
                            (1L << 61) + 1, 1L << 60, 1L << 59, (1L << 59) + 3};
   return v[R(k, 9)];
}

STEP(badsize) {
   int s = s0(), t = s1x();
   long n = len(s), r = m.m2[s].r, c = m.m2[s].c;
   A1& x = a[s];
   A2& y = b[s];
   long v = vast(A(3)), p = 0, q = 0;
   switch(R(A(2), 64) % 32) {
   case 0:
      return reject([&] { A1 z(v); }, true);
   case 1:
      return reject([&] { A1 z(v, sv(A(4))); }, true);
   case 2:
      return reject([&] { x.resize(v, (A(4) & 1) != 0); }, true);
   case 3:
      wrapping_pair(R(A(5), 30), A(4), p, q);
      return reject([&] { A2 z(p, q); });
   case 4:
      wrapping_pair(R(A(5), 30), A(4), p, q);
      return reject([&] { A2 z(p, q, sv(A(4))); });
   case 5:
   case 6:
      wrapping_pair(r * c, A(4), p, q);
      return reject([&] { y.resize(p, q, (A(5) & 1) != 0); });
   case 7:
      return reject([&] { A2 z(v, 1 + R(A(4), 5)); }, true);
   case 8:
      return reject([&] { y.resize(1 + R(A(4), 5), v, (A(5) & 1) != 0); }, true);
   case 9:
      wrapping_pair(n, A(4), p, q);
      return reject([&] { (void)x.view2D(p, q); });
   case 10:
      wrapping_pair(r * c, A(4), p, q);
      return reject([&] { (void)y.view2D(p, q); });
   case 11:
      return reject([&] { x.resize_and_assign(spp::const1D(v, sv(A(4)))); }, true);
   case 12:
      wrapping_pair(R(A(5), 30), A(4), p, q);
      return reject([&] { y.resize_and_assign(spp::const2D(p, q, sv(A(4)))); });
   case 13:
      return reject([&] { x.insert(R(A(5), n + 1), spp::const1D(v, sv(A(4)))); }, true);
   case 14:
      if(c > 0) {
         return reject([&] { y.insert_rows(R(A(5), r + 1), spp::const2D(v, c, sv(A(4)))); }, true);
      }
      return;
   case 15:
      if(r > 0) {
         return reject([&] { y.insert_cols(R(A(5), c + 1), spp::const2D(r, v, sv(A(4)))); }, true);
      }
      return;
   case 16:
      if(r == 0) {
         wrapping_pair(R(A(5), 30), A(4), p, q);
         return reject([&] { y.insert_rows(0, spp::const2D(p, q, sv(A(4)))); });
      }
      return;
   case 17:
      if constexpr(arith) {
         return reject([&] { b[t].resize_and_assign(spp::identity<T>((A(4) & 1) ? 1L << 32 : LONG_MAX)); }, true);
      }
      return;
   case 18:
      if constexpr(arith) {
         return reject([&] { a[t].resize_and_assign(spp::e_unit<T>(v, R(A(4), 5))); }, true);
      }
      return;
   case 19:
      if constexpr(arith) {
         return reject([&] { a[t].resize_and_assign(spp::sequence<T>(v, S{T(1)}, S{T(1)})); }, true);
      }
      return;
   case 20:
      return reject([&] { x = spp::const1D(v, sv(A(4))); });
   case 21:
      if(r > 0) {
         return reject([&] { y.insert_row(R(A(5), r + 1), spp::const1D(v, sv(A(4)))); });
      }
      return reject([&] { y.insert_row(0, spp::const1D(v, sv(A(4)))); }, true);
   case 22:
      wrapping_pair(r * c, A(4), p, q);
      return reject([&] { y = spp::const2D(p, q, sv(A(4))); });
   case 23:
      if(n > 0) { // a slice that repeats one element beyond all bounds
         return reject([&] { a[t].resize_and_assign(x(spp::seqN{R(A(4), n), v, 0})); }, true);
      }
      return;
   case 24:
      if(r > 0) {
         return reject([&] { b[t].resize_and_assign(y(spp::seqN{0, 1L << 32, 0}, spp::seqN{0, 1L << 32, 0})); }, true);
      }
      return;
   case 25:
      if(r > 0) {
         return reject([&] { b[t].resize_and_assign(y(spp::seqN{0, 1L << 62, 0}, spp::seqN{0, 4, 0})); }, true);
      }
      return;
   case 26:
      return reject([&] { (void)spp::implicit_vector_sequence(-v); });
   case 27:
      wrapping_pair(R(A(5), 30), A(4), p, q);
      return reject([&] { y.resize(-p, -q, (A(4) & 2) != 0); });
   case 28:
      return reject([&] { y.resize(v, 0, (A(4) & 1) != 0); });
   case 29:
      if(asserts && n != len(t)) { // with exceptions, this one ends the process
         jumping = true;
         reject([&] { x = std::move(a[t]); });
         jumping = false;
      }
      return;
   case 30:
      if(asserts && (r != m.m2[static_cast<size_t>(t)].r || c != m.m2[static_cast<size_t>(t)].c)) {
         jumping = true;
         reject([&] { y = std::move(b[t]); });
         jumping = false;
      }
      return;
   default:
      wrapping_pair(r * c, A(4), p, q);
      return reject([&] { y.resize(p, q, false); });
   }
}

STEP(badpos) {
   int s = s0();
   long n = len(s), r = m.m2[s].r, c = m.m2[s].c;
   A1& x = a[s];
   A2& y = b[s];
   static const long far[] = {LONG_MAX, LONG_MAX - 1, LONG_MIN, LONG_MIN + 1, 1L << 32, -(1L << 32), 1L << 62, -(1L << 62)};
   long f = far[R(A(3), 8)], v = vast(A(3));
   // start + stride * (size - 1) is to, modulo 2^64
   auto stride = [&](long start, long size, long to) {
      return static_cast<long>(static_cast<unsigned long>(to - start) * inverse(static_cast<unsigned long>(size - 1)));
   };
   switch(R(A(2), 64) % 40) {
   case 0:
      return reject([&] { x[f] = sv(1); });
   case 1:
      return reject([&] { x.at(f) = sv(1); });
   case 2:
      return reject([&] { x[spp::last - v] = sv(1); });
   case 3:
      return reject([&] { x[spp::last + v] = sv(1); });
   case 4:
      return reject([&] { x.remove(f, 1 + R(A(4), 3)); });
   case 5:
      if(n > 0) {
         return reject([&] { x.remove(R(A(4), n), v); });
      }
      return;
   case 6:
      if(n > 0) {
         return reject([&] { x.remove(R(A(4), n), -v); });
      }
      return;
   case 7:
      return reject([&] { x.remove_front(f); });
   case 8:
      return reject([&] { x.remove_back(v); });
   case 9:
      return reject([&] { x.remove_back(-v); });
   case 10:
      return reject([&] { x.insert(f, sv(1)); });
   case 11:
      return reject([&] { x.insert(f, spp::const1D(2, sv(1))); });
   case 12:
      if(r > 0) {
         return reject([&] { y.remove_rows(R(A(4), r), v); });
      }
      return;
   case 13:
      if(r > 0) {
         return reject([&] { y.remove_cols(R(A(4), c), v); });
      }
      return;
   case 14:
      return reject([&] { y.remove_rows(f, 1); });
   case 15:
      return reject([&] { y.remove_cols(f, 1); });
   case 16:
      return reject([&] { y.remove_rows_back(v); });
   case 17:
      return reject([&] { y.remove_cols_front(f); });
   case 18:
      return reject([&] { y(f, 0) = sv(1); });
   case 19:
      return reject([&] { y(0, f) = sv(1); });
   case 20:
      return reject([&] { y.row(f)[0] = sv(1); });
   case 21:
      return reject([&] { y.col(f)[0] = sv(1); });
   case 22:
      return reject([&] { y.diag(f) = sv(1); });
   case 23:
      if(r > 0) {
         return reject([&] { y.blockN(R(A(4), r), R(A(5), c), v, 1) = sv(1); });
      }
      return;
   case 24:
      if(r > 0) {
         return reject([&] { y.blockN(R(A(4), r), R(A(5), c), 1, v) = sv(1); });
      }
      return;
   case 25:
      return reject([&] { x(spp::place::firstN{v}) = sv(1); });
   case 26:
      return reject([&] { x(spp::place::lastN{v}) = sv(1); });
   case 27:
   case 28:
   case 29: {
      // An end that wraps around into the array.
      if(n == 0) {
         return;
      }
      long k = 2 + 2 * R(A(4), 12), from = R(A(5), n), to = R(A(5) / 64, n);
      long w = stride(from, k, to);
      if(w > -(1L << 40) && w < (1L << 40)) {
         return reject([&] { x(spp::seqN{from, 5, 1L << 62}) = sv(1); });
      }
      return reject([&] { x(spp::seqN{from, k, w}) = sv(1); });
   }
   case 30:
      if(n > 0) {
         return reject([&] { x(spp::seqN{0, v, v}) = sv(1); });
      }
      return;
   case 31:
      if(r > 0) {
         return reject([&] { y.rows(spp::seqN{0, 5, 1L << 62}) = sv(1); });
      }
      return;
   case 32:
      if(r > 0) {
         return reject([&] { y.cols(spp::seqN{R(A(4), c), 9, 1L << 61}) = sv(1); });
      }
      return;
   case 33:
      if(r > 0) {
         return reject([&] { y(spp::seqN{R(A(4), r), 3, LONG_MIN}, spp::place::all) = sv(1); });
      }
      return;
   case 34: { // valid: everything but the first element is skipped
      V o;
      if(n > 0) {
         o.push_back(m.m1[s][0]);
      }
      long k = -1;
      exec(Cat::Strong, [&] { k = x(spp::place::skipN{v}).size().val(); }, [&] {});
      if((mode == Mode::Model || mode == Mode::Reject) && last_ok && k != static_cast<long>(o.size())) {
         bad("model", "skipN with a vast stride selects " + std::to_string(k) + " of " + std::to_string(n) + " elements");
      }
      return;
   }
   case 35: {
      if(r == 0) {
         return;
      }
      long k = -1, l = -1;
      exec(Cat::Strong,
           [&] {
              k = y.rows(spp::place::skipN{v}).rows().val();
              l = y.cols(spp::place::skipN{v}).cols().val();
           },
           [&] {});
      if((mode == Mode::Model || mode == Mode::Reject) && last_ok && (k != 1 || l != 1)) {
         bad("model", "skipN with a vast stride selects no row or no column");
      }
      return;
   }
   case 36:
      if(n > 0) {
         return reject([&] { a[s].resize_and_assign(exclude(x, R(A(4), n), v)); });
      }
      return;
   case 37:
      return reject([&] { x(vi({f})) = sv(1); });
   case 38:
      if(n > 0) { // one element, any stride
         exec(Cat::Strong, [&] { x(spp::seqN{R(A(4), n), 1, f}) = sv(A(5)); },
              [&] { m.m1[s][static_cast<size_t>(R(A(4), n))] = sv(A(5)).val(); });
      }
      return;
   default:
      return reject([&] { (void)x(spp::place::complement{vi({f})}).size(); });
   }
}
