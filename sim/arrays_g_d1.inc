// Step implementations, group d1.

STEP(ctor1) {
   int s = s0();
   long n = R(A(2), 5) == 0 ? 0 : R(A(1), scale + 1);
   switch(R(A(3), 4)) {
   case 0:
      exec(Cat::Strong, [&] { place1(s, A1(n)); }, [&] { m.m1[s] = fillv(n, T(0)); });
      return;
   case 1:
      exec(Cat::Strong, [&] { place1(s, A1(n, sv(A(4)))); }, [&] { m.m1[s] = fillv(n, val(A(4))); });
      return;
   case 2:
      exec(Cat::Strong,
           [&] { place1(s, A1(spp::Size{n}, spp::Value<T>{val(A(4))})); },
           [&] { m.m1[s] = fillv(n, val(A(4))); });
      return;
   default:
      // Distinct values written one by one: gives later steps material to misplace.
      exec(Cat::Strong,
           [&] {
              A1 t(n);
              for(long i = 0; i < n; ++i) {
                 t[i] = sv(A(4) + i * 7);
              }
              place1(s, std::move(t));
           },
           [&] { m.m1[s] = valseq(n, A(4)); });
   }
}

STEP(ctor1_list) {
   int s = s0();
   int64_t x = A(2);
   switch(R(A(1), 5)) {
   case 0:
      exec(Cat::Strong, [&] { place1(s, A1{sv(x)}); }, [&] { m.m1[s] = valseq(1, x); });
      return;
   case 1:
      exec(Cat::Strong, [&] { place1(s, A1{sv(x), sv(x + 7)}); }, [&] { m.m1[s] = valseq(2, x); });
      return;
   case 2:
      exec(Cat::Strong,
           [&] { place1(s, A1{sv(x), sv(x + 7), sv(x + 14)}); },
           [&] { m.m1[s] = valseq(3, x); });
      return;
   case 3:
      exec(Cat::Strong,
           [&] {
              place1(s,
                     A1{sv(x), sv(x + 7), sv(x + 14), sv(x + 21), sv(x + 28), sv(x + 35), sv(x + 42),
                        sv(x + 49), sv(x + 56)});
           },
           [&] { m.m1[s] = valseq(9, x); });
      return;
   default:
      exec(Cat::Strong, [&] { place1(s, A1{}); }, [&] { m.m1[s].clear(); });
   }
}

STEP(ctor1_iter) {
   int s = s0(), t = s1();
   long n = len(t), i = R(A(2), n + 1), j = i + R(A(3), n - i + 1);
   exec(Cat::Strong,
        [&] {
           const A1& y = a[t];
           if(A(4) & 1) {
              place1(s, A1(y.begin() + i, y.begin() + j));
           } else {
              place1(s, A1(a[t].begin() + i, a[t].begin() + j));
           }
        },
        [&] { m.m1[s] = V(m.m1[t].begin() + i, m.m1[t].begin() + j); });
}

STEP(ctor1_op) {
   int s = s0(), t = s1(), f = form1();
   V r = model1(f, t, A(2), A(3));
   if(too_big(r.size())) {
      return;
   }
   exec(Cat::Strong,
        [&] {
           operand1(f, t, A(2), A(3), [&](auto const& e) {
              A1 x(e);
              place1(s, std::move(x));
           });
        },
        [&] { m.m1[s] = r; });
}

STEP(copy1) {
   int s = s0(), t = s1();
   exec(Cat::Strong,
        [&] {
           A1 x(a[t]);
           place1(s, std::move(x));
        },
        [&] { m.m1[s] = V(m.m1[t]); });
}

STEP(eval1) {
   int s = s0(), t = s1(), f = form1();
   V r = model1(f, t, A(2), A(3), true);
   if(too_big(r.size())) {
      return;
   }
   exec(Cat::Strong,
        [&] {
           operand1<true>(f, t, A(2), A(3), [&](auto const& e) { a[s].resize_and_assign(e.eval()); });
        },
        [&] { m.m1[s] = r; });
}

STEP(assign1_val) {
   int s = s0();
   exec(Cat::Elem, [&] { a[s] = sv(A(1)); }, [&] { m.m1[s] = fillv(len(s), val(A(1))); });
}

STEP(assign1_list) {
   int s = s0();
   int64_t x = A(1);
   if(len(s) == 3) {
      exec(Cat::Elem, [&] { a[s] = {sv(x), sv(x + 7), sv(x + 14)}; }, [&] { m.m1[s] = valseq(3, x); });
   } else if(len(s) == 5) {
      exec(Cat::Elem,
           [&] { a[s] = {sv(x), sv(x + 7), sv(x + 14), sv(x + 21), sv(x + 28)}; },
           [&] { m.m1[s] = valseq(5, x); });
   } else {
      exec(Cat::Elem,
           [&] { f1 = {sv(x), sv(x + 7), sv(x + 14), sv(x + 21), sv(x + 28)}; },
           [&] { m.f1 = valseq(5, x); });
   }
}

STEP(assign1_op) {
   int s = s0(), t = s1x(), f = form1();
   V r = model1(f, t, A(2), A(3));
   if(too_big(r.size())) {
      return;
   }
   if(static_cast<long>(r.size()) != len(s)) {
      long n = static_cast<long>(r.size());
      exec(Cat::Strong,
           [&] { a[s].resize(n, false); },
           [&] { m.m1[s] = fillv(n, T(0)); });
      if(a[s].size().val() != n) {
         return;
      }
   }
   exec(Cat::Elem,
        [&] { operand1(f, t, A(2), A(3), [&](auto const& e) { a[s] = e; }); },
        [&] { m.m1[s] = r; });
}

STEP(slice1_val) {
   int s = s0(), form = static_cast<int>(R(A(4), 5));
   auto idx = slice_target_idx(form, len(s), A(2), A(3));
   exec(Cat::Elem,
        [&] { slice_target(form, len(s), A(2), A(3), s, [&](auto&& sl) { sl = sv(A(1)); }); },
        [&] {
           for(long i : idx) {
              m.m1[s][static_cast<size_t>(i)] = val(A(1));
           }
        });
}

STEP(slice1_op) {
   int s = s0(), t = s1x(), form = static_cast<int>(R(A(4), 5));
   auto idx = slice_target_idx(form, len(s), A(2), A(3));
   long k = static_cast<long>(idx.size());
   if(k > len(t) || (k > 1 && idx[0] == idx[1])) {
      return; // a repeated target leaves the order of the writes open
   }
   long off = R(A(5), len(t) - k + 1);
   bool thr = mode == Mode::Throw;
   exec(Cat::Elem,
        [&] {
           slice_target(form, len(s), A(2), A(3), s, [&](auto&& sl) {
              if(thr) {
                 sl = generate(a[t](spp::seqN{off, k}), [](auto e) {
                    ticker.tick();
                    return e;
                 });
              } else {
                 sl = a[t](spp::seqN{off, k});
              }
           });
        },
        [&] {
           for(long i = 0; i < k; ++i) {
              m.m1[s][static_cast<size_t>(idx[static_cast<size_t>(i)])] =
                 m.m1[t][static_cast<size_t>(off + i)];
           }
        });
}

STEP(write1) {
   int s = s0();
   long n = len(s);
   if(n == 0) {
      return;
   }
   long i = R(A(1), n);
   exec(Cat::Elem,
        [&] {
           switch(R(A(3), 6)) {
           case 0:
              a[s][i] = sv(A(2));
              break;
           case 1:
              a[s].at(i) = sv(A(2));
              break;
           case 2:
              a[s].un(i) = sv(A(2));
              break;
           case 3:
              *(a[s].begin() + i) = sv(A(2));
              break;
           case 4:
              a[s][spp::last - (n - 1 - i)] = sv(A(2));
              break;
           default:
              a[s].data()[i] = sv(A(2));
           }
        },
        [&] { m.m1[s][static_cast<size_t>(i)] = val(A(2)); });
}

STEP(comp1_val) {
   if constexpr(arith) {
      int s = s0();
      if(!small_values(m.m1[s])) {
         return do_assign1_val();
      }
      T x = val(A(1));
      exec(Cat::Elem,
           [&] {
              if(A(2) & 1) {
                 a[s] += S{x};
              } else {
                 a[s] -= S{x};
              }
           },
           [&] {
              for(T& e : m.m1[s]) {
                 e = static_cast<T>((A(2) & 1) ? e + x : e - x);
              }
           });
   }
}

STEP(comp1_op) {
   if constexpr(arith) {
      int s = s0(), t = s1x();
      if(!small_values(m.m1[s]) || !small_values(m.m1[t])) {
         return do_assign1_val();
      }
      long k = std::min(len(s), len(t));
      bool whole = len(s) == len(t);
      bool thr = mode == Mode::Throw;
      exec(Cat::Elem,
           [&] {
              auto gen = [](auto e) {
                 ticker.tick();
                 return e;
              };
              if(whole) {
                 if(thr) {
                    a[s] += generate(a[t], gen);
                 } else {
                    a[s] += a[t];
                 }
              } else {
                 if(thr) {
                    a[s](spp::seqN{0, k}) += generate(a[t](spp::seqN{0, k}), gen);
                 } else {
                    a[s](spp::seqN{0, k}) += a[t](spp::seqN{0, k});
                 }
              }
           },
           [&] {
              for(long i = 0; i < k; ++i) {
                 auto u = static_cast<size_t>(i);
                 m.m1[s][u] = static_cast<T>(m.m1[s][u] + m.m1[t][u]);
              }
           });
   }
}

STEP(resize1) {
   int s = s0();
   long n = R(A(3), 4) == 0 ? std::max<long>(0, len(s) + R(A(1), 5) - 2) : R(A(1), scale + 1);
   bool keep = R(A(2), 4) != 0;
   long old = len(s);
   exec(Cat::Strong,
        [&] { (A(2) & 16) && keep ? a[s].resize(n) : a[s].resize(n, keep); },
        [&] {
           if(keep) {
              m.m1[s].resize(static_cast<size_t>(n), T(0));
           } else if(n != old) {
              m.m1[s] = adopt1(s, n);
           }
        });
}

STEP(rassign1) {
   int s = s0(), t = s1(), f = form1();
   V r = model1(f, t, A(2), A(3));
   if(too_big(r.size())) {
      return;
   }
   exec(Cat::Strong,
        [&] { operand1(f, t, A(2), A(3), [&](auto const& e) { a[s].resize_and_assign(e); }); },
        [&] { m.m1[s] = r; });
}

STEP(remove1) {
   int s = s0();
   long n = len(s);
   if(n == 0) {
      return do_insert1_val();
   }
   long p = R(A(1), n);
   long c = R(A(2), 3) == 0 ? 1 : R(A(2), n - p) + 1;
   switch(R(A(3), 9)) {
   case 0:
      exec(Cat::Strong, [&] { a[s].remove(p); }, [&] { erase1(s, p, 1); });
      return;
   case 1:
      exec(Cat::Strong, [&] { a[s].remove(p, c); }, [&] { erase1(s, p, c); });
      return;
   case 2:
      exec(Cat::Strong, [&] { a[s].remove(spp::Pos{p}, spp::Count{c}); }, [&] { erase1(s, p, c); });
      return;
   case 3:
      exec(Cat::Strong, [&] { a[s].remove_front(c); }, [&] { erase1(s, 0, c); });
      return;
   case 4:
      exec(Cat::Strong, [&] { a[s].remove_back(c); }, [&] { erase1(s, n - c, c); });
      return;
   case 5:
      exec(Cat::Strong, [&] { a[s].remove(spp::last - p); }, [&] { erase1(s, n - 1 - p, 1); });
      return;
   case 6:
      exec(Cat::Strong, [&] { a[s].remove(spp::last); }, [&] { erase1(s, n - 1, 1); });
      return;
   case 7:
      exec(Cat::Strong, [&] { a[s].remove_front(spp::Count{c}); }, [&] { erase1(s, 0, c); });
      return;
   default:
      exec(Cat::Strong, [&] { a[s].remove_back(spp::Count{c}); }, [&] { erase1(s, n - c, c); });
   }
}

STEP(remove1_vec) {
   int s = s0();
   auto idx = subset(len(s), A(1), A(2));
   auto v = vi(idx);
   exec(Cat::Strong,
        [&] { a[s].remove(v); },
        [&] {
           for(size_t i = idx.size(); i-- > 0;) {
              erase1(s, idx[i], 1);
           }
        });
}

STEP(insert1_val) {
   int s = s0();
   long n = len(s), p = R(A(1), n + 1);
   T x = val(A(2));
   if(too_big(static_cast<size_t>(n))) {
      return;
   }
   auto ins = [&](long q) { m.m1[s].insert(m.m1[s].begin() + q, x); };
   switch(R(A(3), 7)) {
   case 0:
      exec(Cat::Strong, [&] { a[s].insert(spp::Pos{p}, spp::Value<T>{x}); }, [&] { ins(p); });
      return;
   case 1:
      exec(Cat::Strong, [&] { a[s].insert_front(S{x}); }, [&] { ins(0); });
      return;
   case 2:
      exec(Cat::Strong, [&] { a[s].insert_back(S{x}); }, [&] { ins(n); });
      return;
   case 3:
      exec(Cat::Strong, [&] { a[s].insert_back(spp::Value<T>{x}); }, [&] { ins(n); });
      return;
   case 4:
      exec(Cat::Strong, [&] { a[s].insert_front(spp::Value<T>{x}); }, [&] { ins(0); });
      return;
   case 5:
      if(n > 0) {
         // The inserted value comes from the array itself.
         long q = R(A(2), n);
         T y = m.m1[s][static_cast<size_t>(q)];
         exec(Cat::Strong,
              [&] { a[s].insert(p, a[s][q]); },
              [&] { m.m1[s].insert(m.m1[s].begin() + p, y); });
         return;
      }
      [[fallthrough]];
   default:
      exec(Cat::Strong, [&] { a[s].insert(p, S{x}); }, [&] { ins(p); });
   }
}

STEP(insert1_op) {
   int s = s0(), t = s1(), f = form1();
   long n = len(s), p = R(A(4), n + 1);
   V r = model1(f, t, A(2), A(3));
   if(too_big(r.size() + static_cast<size_t>(n))) {
      return;
   }
   int how = static_cast<int>(R(A(6), 5));
   if(how == 0) {
      p = 0;
   } else if(how == 1) {
      p = n;
   }
   exec(Cat::Strong,
        [&] {
           operand1(f, t, A(2), A(3), [&](auto const& e) {
              if(how == 0) {
                 a[s].insert_front(e);
              } else if(how == 1) {
                 a[s].insert_back(e);
              } else if(how == 2) {
                 a[s].insert(spp::Pos{p}, e);
              } else {
                 a[s].insert(p, e);
              }
           });
        },
        [&] { m.m1[s].insert(m.m1[s].begin() + p, r.begin(), r.end()); });
}

STEP(sort1) {
   if constexpr(arith) {
      int s = s0();
      bool up = (A(1) & 1) != 0;
      exec(Cat::Elem,
           [&] {
              if(up) {
                 spp::sort_increasing(a[s]);
              } else {
                 spp::sort_decreasing(a[s]);
              }
           },
           [&] {
              std::sort(m.m1[s].begin(), m.m1[s].end());
              if(!up) {
                 std::reverse(m.m1[s].begin(), m.m1[s].end());
              }
           });
   }
}

STEP(foreach1) {
   int s = s0();
   T x = val(A(1));
   bool thr = mode == Mode::Throw || mode == Mode::Mem;
   exec(Cat::Elem,
        [&] {
           spp::for_each(a[s], [&](auto& e) {
              if(thr) {
                 ticker.tick();
              }
              e = S{x};
           });
        },
        [&] { m.m1[s] = fillv(len(s), x); });
}
