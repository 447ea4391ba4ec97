// Step implementations, group d3.

STEP(remove_rows) {
   int s = s0();
   long n = m.m2[s].r;
   if(n == 0) {
      return do_insert_row();
   }
   long p = R(A(1), n), c = R(A(2), 3) == 0 ? 1 : R(A(2), n - p) + 1;
   auto go = [&](auto f, long q, long k) {
      exec(Cat::Strong, f, [&] { keep_rows(s, without(n, q, k)); });
   };
   switch(R(A(3), 10)) {
   case 0:
      return go([&] { b[s].remove_row(p); }, p, 1);
   case 1:
      return go([&] { b[s].remove_row(spp::Pos{p}); }, p, 1);
   case 2:
      return go([&] { b[s].remove_row(spp::last - p); }, n - 1 - p, 1);
   case 3:
      return go([&] { b[s].remove_row(spp::last); }, n - 1, 1);
   case 4:
      return go([&] { b[s].remove_rows_front(c); }, 0, c);
   case 5:
      return go([&] { b[s].remove_rows_back(c); }, n - c, c);
   case 6:
      return go([&] { b[s].remove_rows(spp::Pos{p}, spp::Count{c}); }, p, c);
   case 7:
      return go([&] { b[s].remove_rows_front(spp::Count{c}); }, 0, c);
   case 8:
      return go([&] { b[s].remove_rows_back(spp::Count{c}); }, n - c, c);
   default:
      return go([&] { b[s].remove_rows(p, c); }, p, c);
   }
}

STEP(remove_cols) {
   int s = s0();
   long n = m.m2[s].c;
   if(n == 0) {
      return do_insert_col();
   }
   long p = R(A(1), n), c = R(A(2), 3) == 0 ? 1 : R(A(2), n - p) + 1;
   auto go = [&](auto f, long q, long k) {
      exec(Cat::Strong, f, [&] { keep_cols(s, without(n, q, k)); });
   };
   switch(R(A(3), 10)) {
   case 0:
      return go([&] { b[s].remove_col(p); }, p, 1);
   case 1:
      return go([&] { b[s].remove_col(spp::Pos{p}); }, p, 1);
   case 2:
      return go([&] { b[s].remove_col(spp::last - p); }, n - 1 - p, 1);
   case 3:
      return go([&] { b[s].remove_col(spp::last); }, n - 1, 1);
   case 4:
      return go([&] { b[s].remove_cols_front(c); }, 0, c);
   case 5:
      return go([&] { b[s].remove_cols_back(c); }, n - c, c);
   case 6:
      return go([&] { b[s].remove_cols(spp::Pos{p}, spp::Count{c}); }, p, c);
   case 7:
      return go([&] { b[s].remove_cols_front(spp::Count{c}); }, 0, c);
   case 8:
      return go([&] { b[s].remove_cols_back(spp::Count{c}); }, n - c, c);
   default:
      return go([&] { b[s].remove_cols(p, c); }, p, c);
   }
}

STEP(remove_rows_vec) {
   int s = s0();
   auto idx = subset(m.m2[s].r, A(1), A(2));
   auto v = vi(idx);
   exec(Cat::Strong,
        [&] { b[s].remove_rows(v); },
        [&] {
           if(!idx.empty()) {
              keep_rows(s, without(m.m2[s].r, idx));
           }
        });
}

STEP(remove_cols_vec) {
   int s = s0();
   auto idx = subset(m.m2[s].c, A(1), A(2));
   auto v = vi(idx);
   exec(Cat::Strong,
        [&] { b[s].remove_cols(v); },
        [&] {
           if(!idx.empty()) {
              keep_cols(s, without(m.m2[s].c, idx));
           }
        });
}

STEP(insert_rows) {
   do_insert_rc(false);
}

STEP(insert_cols) {
   do_insert_rc(true);
}

STEP(insert_row) {
   do_insert_1(false);
}

STEP(insert_col) {
   do_insert_1(true);
}

STEP(move1) {
   int s = s0(), t = s1x();
   exec_move(
      [&] {
         A1 x(std::move(a[t]));
         if(R(A(2), 2) == 0) {
            a[s].swap(x);
         } else {
            A1 y(std::move(x));
            a[s].swap(std::move(y));
         }
      },
      [&] {
         m.m1[s] = m.m1[t];
         m.m1[t].clear();
      });
}

STEP(massign1) {
   int s = s0(), t = s1();
   if(len(s) != len(t)) {
      return do_swap1();
   }
   exec_move(
      [&] {
         A1& y = a[t];
         a[s] = std::move(y);
      },
      [&] {
         if(s != t) {
            m.m1[s] = m.m1[t];
            m.m1[t].clear();
         }
      });
}

STEP(swap1) {
   int s = s0(), t = s1();
   exec_move(
      [&] {
         if(R(A(2), 2) == 0) {
            a[s].swap(a[t]);
         } else {
            a[s].swap(std::move(a[t]));
         }
      },
      [&] {
         if(s != t) {
            std::swap(m.m1[s], m.m1[t]);
         }
      });
}

STEP(steal1) {
   int s = s0(), t = s1x();
   exec_move([&] { a[s].resize_and_assign(std::move(a[t])); },
             [&] {
                m.m1[s] = m.m1[t];
                m.m1[t].clear();
             });
}

STEP(move2) {
   int s = s0(), t = s1x();
   exec_move(
      [&] {
         A2 x(std::move(b[t]));
         if(R(A(2), 2) == 0) {
            b[s].swap(x);
         } else {
            A2 y(std::move(x));
            b[s].swap(std::move(y));
         }
      },
      [&] {
         m.m2[s] = m.m2[t];
         m.m2[t] = M2{};
      });
}

STEP(massign2) {
   int s = s0(), t = s1();
   if(m.m2[s].r != m.m2[t].r || m.m2[s].c != m.m2[t].c) {
      return do_swap2();
   }
   exec_move(
      [&] {
         A2& y = b[t];
         b[s] = std::move(y);
      },
      [&] {
         if(s != t) {
            m.m2[s] = m.m2[t];
            m.m2[t] = M2{};
         }
      });
}

STEP(swap2) {
   int s = s0(), t = s1();
   exec_move(
      [&] {
         if(R(A(2), 2) == 0) {
            b[s].swap(b[t]);
         } else {
            b[s].swap(std::move(b[t]));
         }
      },
      [&] {
         if(s != t) {
            std::swap(m.m2[s], m.m2[t]);
         }
      });
}

STEP(steal2) {
   int s = s0(), t = s1x();
   exec_move([&] { b[s].resize_and_assign(std::move(b[t])); },
             [&] {
                m.m2[s] = m.m2[t];
                m.m2[t] = M2{};
             });
}

STEP(fixmove) {
   if constexpr(arith) {
      exec_move(
         [&] {
            spp::FixedArray1D<T, 5, AF> x(std::move(f1));
            f1 = std::move(x);
            spp::FixedArray2D<T, 2, 3, AF> y(std::move(f2));
            f2 = y;
         },
         [&] {});
   }
}
