// Step implementations, group d2.

STEP(ctor2) {
   int s = s0();
   long r = R(A(1), side()) + 1, c = R(A(2), side()) + 1;
   if(R(A(3) / 8, 6) == 0) {
      r = c = 0;
   }
   switch(R(A(3), 4)) {
   case 0:
      exec(Cat::Strong, [&] { place2(s, A2(r, c)); }, [&] { m.m2[s] = shape(r, c, T(0)); });
      return;
   case 1:
      exec(Cat::Strong,
           [&] { place2(s, A2(r, c, sv(A(4)))); },
           [&] { m.m2[s] = shape(r, c, val(A(4))); });
      return;
   case 2:
      exec(Cat::Strong,
           [&] { place2(s, A2(spp::Rows{r}, spp::Cols{c}, spp::Value<T>{val(A(4))})); },
           [&] { m.m2[s] = shape(r, c, val(A(4))); });
      return;
   default:
      exec(Cat::Strong,
           [&] {
              A2 t(spp::Rows{r}, spp::Cols{c});
              for(long i = 0; i < r; ++i) {
                 for(long j = 0; j < c; ++j) {
                    t(i, j) = sv(A(4) + (i * c + j) * 7);
                 }
              }
              place2(s, std::move(t));
           },
           [&] {
              m.m2[s] = shape(r, c, T(0));
              m.m2[s].v = valseq(r * c, A(4));
           });
   }
}

STEP(ctor2_list) {
   int s = s0();
   int64_t x = A(2);
   auto v = [&](int i) { return sv(x + i * 7); };
   auto set = [&](long r, long c) {
      m.m2[s] = shape(r, c, T(0));
      m.m2[s].v = valseq(r * c, x);
   };
   switch(R(A(1), 4)) {
   case 0:
      exec(Cat::Strong,
           [&] {
              place2(s,
                     A2{
                        {v(0), v(1), v(2)},
                        {v(3), v(4), v(5)}
              });
           },
           [&] { set(2, 3); });
      return;
   case 1:
      exec(Cat::Strong,
           [&] {
              place2(s,
                     A2{
                        {v(0), v(1)},
                        {v(2), v(3)},
                        {v(4), v(5)}
              });
           },
           [&] { set(3, 2); });
      return;
   default:
      exec(Cat::Strong,
           [&] {
              place2(s,
                     A2{
                        {v(0), v(1), v(2), v(3)},
                        {v(4), v(5), v(6), v(7)},
                        {v(8), v(9), v(10), v(11)}
              });
           },
           [&] { set(3, 4); });
   }
}

STEP(ctor2_op) {
   int s = s0(), t = s1(), f = form2();
   M2 r = model2(f, t, A(2), A(3));
   if(too_big(r.v.size())) {
      return;
   }
   exec(Cat::Strong,
        [&] {
           operand2(f, t, A(2), A(3), [&](auto const& e) {
              A2 x(e);
              place2(s, std::move(x));
           });
        },
        [&] { m.m2[s] = r; });
}

STEP(copy2) {
   int s = s0(), t = s1();
   exec(Cat::Strong,
        [&] {
           A2 x(b[t]);
           place2(s, std::move(x));
        },
        [&] { m.m2[s] = M2(m.m2[t]); });
}

STEP(eval2) {
   int s = s0(), t = s1(), f = form2();
   M2 r = model2(f, t, A(2), A(3), true);
   if(too_big(r.v.size())) {
      return;
   }
   exec(Cat::Strong,
        [&] {
           operand2<true>(f, t, A(2), A(3), [&](auto const& e) { b[s].resize_and_assign(e.eval()); });
        },
        [&] { m.m2[s] = r; });
}

STEP(assign2_val) {
   int s = s0();
   exec(Cat::Elem,
        [&] { b[s] = sv(A(1)); },
        [&] { m.m2[s].v = fillv(m.m2[s].r * m.m2[s].c, val(A(1))); });
}

STEP(assign2_list) {
   int s = s0();
   int64_t x = A(1);
   auto v = [&](int i) { return sv(x + i * 7); };
   if(m.m2[s].r == 2 && m.m2[s].c == 3) {
      exec(Cat::Strong,
           [&] {
              b[s] = {
                 {v(0), v(1), v(2)},
                 {v(3), v(4), v(5)}
              };
           },
           [&] { m.m2[s].v = valseq(6, x); });
   } else {
      exec(Cat::Elem,
           [&] {
              f2 = {
                 {v(0), v(1), v(2)},
                 {v(3), v(4), v(5)}
              };
           },
           [&] { m.f2 = valseq(6, x); });
   }
}

STEP(assign2_op) {
   int s = s0(), t = s1x(), f = form2();
   M2 r = model2(f, t, A(2), A(3));
   if(too_big(r.v.size())) {
      return;
   }
   if((r.r == 0) != (r.c == 0)) {
      return;
   }
   if(r.r != m.m2[s].r || r.c != m.m2[s].c) {
      exec(Cat::Strong,
           [&] { b[s].resize(r.r, r.c, false); },
           [&] { m.m2[s] = adopt2(s, r.r, r.c); });
      if(b[s].rows().val() != r.r || b[s].cols().val() != r.c) {
         return;
      }
   }
   exec(Cat::Elem,
        [&] { operand2(f, t, A(2), A(3), [&](auto const& e) { b[s] = e; }); },
        [&] { m.m2[s] = r; });
}

STEP(slice2_val) {
   int s = s0(), form = static_cast<int>(R(A(4), 5));
   if(m.m2[s].r == 0) {
      return do_ctor2();
   }
   long nr, nc;
   auto idx = slice2_idx(form, A(2), A(3), s, nr, nc);
   exec(Cat::Elem,
        [&] { slice2_target(form, A(2), A(3), s, [&](auto&& sl) { sl = sv(A(1)); }); },
        [&] {
           for(auto [i, j] : idx) {
              m.m2[s].v[static_cast<size_t>(i * m.m2[s].c + j)] = val(A(1));
           }
        });
}

STEP(slice2_op) {
   int s = s0(), t = s1x(), form = static_cast<int>(R(A(4), 5));
   if(m.m2[s].r == 0) {
      return do_ctor2();
   }
   long nr, nc;
   auto idx = slice2_idx(form, A(2), A(3), s, nr, nc);
   if(len(t) < nr * nc) {
      return;
   }
   bool thr = mode == Mode::Throw;
   exec(Cat::Elem,
        [&] {
           auto part = a[t](spp::seqN{0, nr * nc});
           slice2_target(form, A(2), A(3), s, [&](auto&& sl) {
              if(thr) {
                 sl = generate(part.view2D(nr, nc), [](auto e) {
                    ticker.tick();
                    return e;
                 });
              } else {
                 sl = part.view2D(nr, nc);
              }
           });
        },
        [&] {
           for(size_t k = 0; k < idx.size(); ++k) {
              m.m2[s].v[static_cast<size_t>(idx[k].first * m.m2[s].c + idx[k].second)] = m.m1[t][k];
           }
        });
}

STEP(write2) {
   int s = s0();
   long r = m.m2[s].r, c = m.m2[s].c;
   if(r == 0) {
      return do_ctor2();
   }
   long i = R(A(1), r), j = R(A(4), c);
   exec(Cat::Elem,
        [&] {
           switch(R(A(3), 8)) {
           case 0:
              b[s](i, j) = sv(A(2));
              break;
           case 1:
              b[s].at(i, j) = sv(A(2));
              break;
           case 2:
              b[s].un(i, j) = sv(A(2));
              break;
           case 3:
              b[s].un(i * c + j) = sv(A(2));
              break;
           case 4:
              b[s].row(i)[j] = sv(A(2));
              break;
           case 5:
              b[s].col(j)[i] = sv(A(2));
              break;
           case 6:
              b[s](spp::last - (r - 1 - i), spp::last - (c - 1 - j)) = sv(A(2));
              break;
           default:
              *(b[s].begin() + (i * c + j)) = sv(A(2));
           }
        },
        [&] { m.m2[s].v[static_cast<size_t>(i * c + j)] = val(A(2)); });
}

STEP(comp2_val) {
   if constexpr(arith) {
      int s = s0();
      if(!small_values(m.m2[s].v)) {
         return do_assign2_val();
      }
      T x = val(A(1));
      exec(Cat::Elem,
           [&] { b[s] += S{x}; },
           [&] {
              for(T& e : m.m2[s].v) {
                 e = static_cast<T>(e + x);
              }
           });
   }
}

STEP(comp2_op) {
   if constexpr(arith) {
      int s = s0(), t = s1x();
      if(!small_values(m.m2[s].v) || !small_values(m.m2[t].v)) {
         return do_assign2_val();
      }
      long r = std::min(m.m2[s].r, m.m2[t].r), c = std::min(m.m2[s].c, m.m2[t].c);
      if(r == 0) {
         return;
      }
      bool thr = mode == Mode::Throw;
      exec(Cat::Elem,
           [&] {
              if(thr) {
                 b[s].blockN(0, 0, r, c) += generate(b[t].blockN(0, 0, r, c), [](auto e) {
                    ticker.tick();
                    return e;
                 });
              } else if(r == m.m2[s].r && c == m.m2[s].c && r == m.m2[t].r && c == m.m2[t].c) {
                 b[s] += b[t];
              } else {
                 b[s].blockN(0, 0, r, c) += b[t].blockN(0, 0, r, c);
              }
           },
           [&] {
              for(long i = 0; i < r; ++i) {
                 for(long j = 0; j < c; ++j) {
                    auto& e = m.m2[s].v[static_cast<size_t>(i * m.m2[s].c + j)];
                    e = static_cast<T>(e + m.m2[t].at(i, j));
                 }
              }
           });
   }
}

STEP(resize2) {
   int s = s0();
   long r = R(A(1), side()) + 1, c = R(A(2), side()) + 1;
   if(R(A(3) / 8, 8) == 0) {
      r = c = 0;
   } else if(R(A(3) / 8, 8) == 1 && m.m2[s].r > 0) {
      r = m.m2[s].c; // same total size, transposed shape
      c = m.m2[s].r;
   } else if(R(A(3) / 8, 8) == 2 && m.m2[s].r > 0) {
      r = m.m2[s].r;
   } else if(R(A(3) / 8, 8) == 3 && m.m2[s].r > 0) {
      c = m.m2[s].c;
   }
   bool keep = R(A(3), 4) != 0;
   exec(Cat::Strong,
        [&] { (A(3) & 16) && keep ? b[s].resize(r, c) : b[s].resize(r, c, keep); },
        [&] {
           if(keep) {
              M2 o = m.m2[s];
              m.m2[s] = build(r, c, [&](long i, long j) { return i < o.r && j < o.c ? o.at(i, j) : T(0); });
           } else if(r != m.m2[s].r || c != m.m2[s].c) {
              m.m2[s] = adopt2(s, r, c);
           }
        });
}

STEP(rassign2) {
   int s = s0(), t = s1(), f = form2();
   M2 r = model2(f, t, A(2), A(3));
   if(too_big(r.v.size())) {
      return;
   }
   exec(Cat::Strong,
        [&] { operand2(f, t, A(2), A(3), [&](auto const& e) { b[s].resize_and_assign(e); }); },
        [&] { m.m2[s] = r; });
}
