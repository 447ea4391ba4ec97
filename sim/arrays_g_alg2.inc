// Step implementations, group alg2: queries and reductions of 2-D operands.

STEP(red2) {
   if constexpr(arith) {
      int s = s0(), form = algform2(5), fn = redfn();
      int64_t p = A(1), q = A(2);
      const M2 w = model2(form, s, p, q, true);
      S x = sought(w.v);
      ask(redw(fn, w.v, w.c, x), 300 + fn, [&] {
         Ans r;
         operand2<true>(form, s, p, q, usable([&](const auto& e) { r = red(fn, e, x); }));
         return r;
      });
   }
}

STEP(tiny2) {
   if constexpr(arith) {
      int s = s0(), form = algform2(5), fn = static_cast<int>(R(A(3) / 2, n_tiny));
      int64_t p = A(1), q = A(2);
      long lp = R(A(4) / 8, 9) + 1;
      const M2 w = model2(form, s, p, q, true);
      S x{static_cast<T>(sgn ? R(A(4) / 128, 5) - 2 : R(A(4) / 128, 3))};
      Ans want;
      if(tinyans(fn, w.v, true, lp, x, want)) {
         ask(want, 400 + fn, [&] {
            Ans r;
            operand2<true>(form, s, p, q, usable([&](const auto& e) { r = tiny(fn, e, lp, x); }));
            return r;
         });
      }
   }
}

STEP(pair2) {
   if constexpr(arith) {
      int s = s0(), form = algform2(5), fn = static_cast<int>(R(A(3) / 2, n_pair));
      int64_t p = A(1), q = A(2);
      const M2 w = model2(form, s, p, q, true);
      int kind = static_cast<int>(R(A(0) / 9, 3)), t = s1();
      M2 o = w;
      if(kind == 1) {
         // The same with one element changed, or none.
         if(!o.v.empty() && (A(0) & 1)) {
            auto k = static_cast<size_t>(R(A(4), static_cast<long>(o.v.size())));
            o.v[k] = static_cast<T>(o.v[k] + T(1));
         }
      } else if(kind == 2) {
         o = m.m2[static_cast<size_t>(t)];
      }
      bool same = w.r == o.r && w.c == o.c;
      Ans want;
      if(!(kind == 2 ? pairans(fn, w.v, o.v, same, want) : pairans(fn, o.v, w.v, same, want))) {
         return;
      }
      ask(want, 500 + fn, [&] {
         Ans r;
         if(kind == 2) {
            operand2<true>(form, s, p, q, usable([&](const auto& e) { r = pair(fn, e, std::as_const(b[t])); }));
         } else {
            A2 c(o.r, o.c);
            for(long i = 0; i < o.r * o.c; ++i) {
               c.un(i) = S{static_cast<T>(o.v[static_cast<size_t>(i)])};
            }
            operand2<true>(form, s, p, q, usable([&](const auto& e) { r = pair(fn, std::as_const(c), e); }));
         }
         return r;
      });
   }
}
