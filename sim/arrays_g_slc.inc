// Slices of slices.

STEP(slc1) {
   int s = s0();
   Rng q(static_cast<uint64_t>(A(1)) * 1000003u + static_cast<uint64_t>(A(0)));
   long n = static_cast<long>(m.m1[static_cast<size_t>(s)].size());
   Chain c = draw_chain(q, n, 1 + static_cast<int>(q.below(3)), q.chance(2, 5), true);
   bool cst = q.chance(1, 3);
   auto& x = a[static_cast<size_t>(s)];
   const auto& cx = x;
   if(!c.ok) {
      if(q.chance(1, 2)) {
         return reject([&] {
            auto f = [](auto& e) { (void)e.size(); };
            if(cst) {
               chain1<3>(cx, c.c, 0, f);
            } else {
               chain1<3>(x, c.c, 0, f);
            }
         });
      }
      return reject([&] {
         auto f = [](auto& e) {
            if constexpr(requires { e = S{T(1)}; }) {
               e = S{T(1)};
            }
         };
         chain1<3>(x, c.c, 0, f);
      });
   }
   at_end(c, s, iota_ix(n), !cst, [&](auto& f) {
      if(cst) {
         chain1<3>(cx, c.c, 0, f);
      } else {
         chain1<3>(x, c.c, 0, f);
      }
   });
}

STEP(slcf) { // fixed arrays and expressions
   Rng q(static_cast<uint64_t>(A(1)) * 1000003u + static_cast<uint64_t>(A(0)));
   bool expr = q.chance(1, 2);
   int s = s0();
   long n = expr ? static_cast<long>(m.m1[static_cast<size_t>(s)].size()) : static_cast<long>(m.f1.size());
   Chain c = draw_chain(q, n, 1 + static_cast<int>(q.below(2)), q.chance(2, 5), true);
   const auto& cx = a[static_cast<size_t>(s)];
   auto run = [&](auto& f) {
      if(expr) {
         auto g = generate(cx, [](auto y) { return y; });
         const auto& cg = g;
         chain1<2>(cg, c.c, 0, f);
      } else {
         chain1<2>(f1, c.c, 0, f);
      }
   };
   if(!c.ok) {
      return reject([&] {
         auto f = [](auto& e) { (void)e.size(); };
         run(f);
      });
   }
   at_end(c, expr ? s : 6, iota_ix(n), !expr, run);
}

STEP(slcrow) { // parts of matrices
   Rng q(static_cast<uint64_t>(A(1)) * 1000003u + static_cast<uint64_t>(A(0)));
   int s = s0();
   long r = m.m2[static_cast<size_t>(s)].r, cc = m.m2[static_cast<size_t>(s)].c;
   int how = static_cast<int>(q.below(4));
   long i = how == 2 ? q.below(r + cc + 1) - r : how == 0 ? (r ? q.below(r) : 0) : (cc ? q.below(cc) : 0);
   if(r == 0 || (how == 2 && (i <= -r || i >= cc))) {
      how = 3;
   }
   Ix base = how == 0 ? iota_ix(cc, i * cc) : how == 1 ? iota_ix(r, i, cc) : how == 2 ? diag_ix(r, cc, i) : iota_ix(r * cc);
   Chain c = draw_chain(q, static_cast<long>(base.size()), 1 + static_cast<int>(q.below(2)), q.chance(2, 5), true);
   auto& x = b[static_cast<size_t>(s)];
   const auto& cx = x;
   bool cst = q.chance(1, 4);
   auto run = [&](auto& f) {
      switch(how) {
      case 0: {
         if(cst) {
            const auto e = cx.row(i);
            return chain1<2>(e, c.c, 0, f);
         }
         auto e = x.row(i);
         return chain1<2>(e, c.c, 0, f);
      }
      case 1: {
         auto e = x.col(i);
         return chain1<2>(e, c.c, 0, f);
      }
      case 2: {
         auto e = x.diag(i);
         return chain1<2>(e, c.c, 0, f);
      }
      default: {
         auto e = x.view1D();
         return chain1<2>(e, c.c, 0, f);
      }
      }
   };
   if(!c.ok) {
      return reject([&] {
         auto f = [](auto& e) { (void)e.size(); };
         run(f);
      });
   }
   at_end(c, s + 3, base, !(cst && how == 0), run);
}

STEP(slc2) {
   Rng q(static_cast<uint64_t>(A(1)) * 1000003u + static_cast<uint64_t>(A(0)));
   int s = s0();
   long r = m.m2[static_cast<size_t>(s)].r, cc = m.m2[static_cast<size_t>(s)].c;
   auto& x = b[static_cast<size_t>(s)];
   const auto& cx = x;
   bool cst = q.chance(1, 3), wild = q.chance(2, 5), ok = true;
   int depth = 1 + static_cast<int>(q.below(2));
   std::vector<Cut> cuts;
   Ix flat = iota_ix(r * cc);
   std::string text;
   for(int k = 0; k < depth && ok; ++k) {
      Cut u;
      bool w = wild && k == depth - 1;
      u.how = static_cast<int>(q.below(4));
      u.r = u.how == 3 ? Sl{} : draw_sl(q, r, w && u.how != 1, false);
      u.c = u.how == 2 ? Sl{} : draw_sl(q, cc, w && u.how != 0, false);
      ok = denote(u.r, r, u.rm) && denote(u.c, cc, u.cm);
      text += "(" + show_sl(u.r) + ";" + show_sl(u.c) + ")";
      cuts.push_back(u);
      if(ok) {
         long nr = u.rm.n, nc = u.cm.n;
         if(nr > 200 || nc > 200) {
            return;
         }
         Ix next;
         for(long i = 0; i < nr && nc > 0; ++i) {
            for(long j = 0; j < nc; ++j) {
               next.push_back(flat[static_cast<size_t>(u.rm.at(i) * cc + u.cm.at(j))]);
            }
         }
         flat = next;
         r = flat.empty() ? 0 : nr;
         cc = flat.empty() ? 0 : nc;
      }
   }
   auto run = [&](auto& f) {
      if(cst) {
         chain2<2>(cx, cuts, 0, f);
      } else {
         chain2<2>(x, cuts, 0, f);
      }
   };
   if(!ok) {
      return reject([&] {
         auto f = [](auto& e) {
            if constexpr(requires { e = S{T(1)}; }) {
               e = S{T(1)};
            } else {
               (void)e.size();
            }
         };
         run(f);
      });
   }
   int w = !cst && (A(3) & 1) != 0 ? 1 + static_cast<int>(R(A(3) / 2, 2)) : 0;
   if(flat.empty() && w == 2) {
      w = 1;
   }
   long k = flat.empty() ? 0 : R(A(2), static_cast<long>(flat.size()));
   S y = sv(A(2) / 7);
   if(w == 0) {
      Seen g;
      M2 want = shape(r, cc, T{});
      want.v = pick(m.m2[static_cast<size_t>(s)].v, flat);
      exec(Cat::Strong,
           [&] {
              auto f = [&](auto& e) {
                 try {
                    M2 got = rd2<false>(e, static_cast<int>(R(A(4), 14)));
                    alloc::Host h;
                    g.v = got.v;
                    g.r = got.r;
                    g.c = got.c;
                    g.done = true;
                 } catch(int v) {
                    g.broken = "inconsistent shape " + std::to_string(v) + " of " + text;
                 }
              };
              run(f);
           },
           [&] {});
      return judge(g, want.v, want.r, want.c);
   }
   exec(Cat::Strong,
        [&] {
           auto f = [&](auto& e) {
              if constexpr(requires { e = y; }) {
                 if(w == 1) {
                    e = y;
                 } else if((A(4) & 1) != 0) {
                    e(k / cc, k % cc) = y;
                 } else {
                    e.un(k) = y;
                 }
              }
           };
           run(f);
        },
        [&] {
           V& v = m.m2[static_cast<size_t>(s)].v;
           for(long i = 0; i < static_cast<long>(flat.size()); ++i) {
              if(w == 1 || i == k) {
                 v[static_cast<size_t>(flat[static_cast<size_t>(i)])] = y.val();
              }
           }
        });
}
