// Step implementations, group view.

template <class T, AlignmentFlag AF>
void W<T, AF>::mkview_arith(int kind, int s, int t, int64_t p, int64_t q) {
   auto us = static_cast<size_t>(s);
   auto ut = static_cast<size_t>(t);
   long r = m.m2[s].r, c = m.m2[s].c;
   (void)q;
   switch(kind) {
   case 21: {
      keep(kind, fac_sum2(s), ref2(s), [=](const Snap& x) {
         return build(c, r, [&](long i, long j) { return x.m2[us].at(j, i); }).v;
      });
      return;
   }
   case 22: {
      long k = R(p, std::min(len(s), len(t)) + 1);
      keep(kind, fac_sum(s, t, k), ref1(s, t), [=](const Snap& x) {
         V o;
         for(long i = 0; i < k; ++i) {
            o.push_back(static_cast<T>(x.m1[us][static_cast<size_t>(i)]
                                       + x.m1[ut][x.m1[ut].size() - static_cast<size_t>(k - i)]));
         }
         return o;
      });
      return;
   }
   case 23:
      keep(kind, fac_nested(s), ref1(s), [=](const Snap& x) {
         V o;
         for(T e : x.m1[us]) {
            o.push_back(static_cast<T>(e + T(1)));
         }
         return o;
      });
      return;
   case 24:
      if(r > 0) {
         keep(kind, fac_reduce(s), ref2(s), [=](const Snap& x) {
            return build(1, r, [&](long, long i) { return x.m2[us].at(i, 0); }).v;
         });
      }
      return;
   case 25:
      if constexpr(sgn) {
         keep(kind, fac_unary(s), ref1(s), [=](const Snap& x) {
            V o;
            for(size_t i = x.m1[us].size(); i-- > 0;) {
               T e = x.m1[us][i];
               o.push_back(e < T(0) ? static_cast<T>(-e) : e);
            }
            return o;
         });
      }
      return;
   default: {
      std::vector<long> idx;
      for(long i = 0; i < len(s); ++i) {
         if(m.m1[us][static_cast<size_t>(i)] >= T(0)) {
            idx.push_back(i);
         }
      }
      keepw(kind, fac_cond(s), ref1(s),
            [=](const Snap& x) {
               V o;
               for(long i : idx) {
                  o.push_back(x.m1[us][static_cast<size_t>(i)]);
               }
               return o;
            },
            [=](long i) { return std::pair<int, long>{s, idx[static_cast<size_t>(i)]}; });
   }
   }
}

STEP(mkview) {
   if(mode != Mode::View && mode != Mode::Mem) {
      return;
   }
   if(views.size() >= 6) {
      views.erase(views.begin() + static_cast<long>(R(A(4), 6)));
   }
   int s = s0(), t = s1();
   auto us = static_cast<size_t>(s);
   auto ut = static_cast<size_t>(t);
   long n = len(s), r = m.m2[s].r, c = m.m2[s].c;
   int64_t p = A(2), q = A(3);
   auto rev = [](V v) { return V(v.rbegin(), v.rend()); };
   auto evens = [](const V& v) {
      V o;
      for(size_t i = 0; i < v.size(); i += 2) {
         o.push_back(v[i]);
      }
      return o;
   };
   int kind = static_cast<int>(R(A(5), 27));
   if(kind >= 10 && kind <= 21 && r == 0) {
      kind = 0;
   }
   alloc::Sut sut;
   switch(kind) {
   case 0: {
      Sq k = mkseq(n, p, q);
      keepw(kind, fac_seq(s, k), ref1(s), [=](const Snap& x) { return take(x.m1[us], k); },
            [=](long i) { return std::pair<int, long>{s, k.st + i * k.sd}; });
      return;
   }
   case 1:
      keepw(kind, fac_rev_even(s), ref1(s), [=](const Snap& x) { return evens(rev(x.m1[us])); },
            [=](long i) { return std::pair<int, long>{s, n - 1 - 2 * i}; });
      return;
   case 2:
      keep(kind, fac_local_slice(s), ref1(s), [=](const Snap& x) { return rev(evens(x.m1[us])); });
      return;
   case 3: {
      Sq k = mkseq(n, p, q);
      keep(kind, fac_merge(s, t, k), ref1(s, t),
           [=](const Snap& x) { return cat(take(x.m1[us], k), x.m1[ut]); });
      return;
   }
   case 4:
      keep(kind, fac_gen(s), ref1(s), [=](const Snap& x) { return x.m1[us]; });
      return;
   case 5:
      if(n > 0) {
         long e = R(p, n), w = R(q, n - e) + 1;
         keep(kind, fac_exclude(s, e, w), ref1(s), [=](const Snap& x) {
            V o = rev(x.m1[us]);
            o.erase(o.begin() + e, o.begin() + e + w);
            return o;
         });
      }
      return;
   case 6: {
      auto v = subset(n, p, q);
      keepw(kind, fac_idx(s, v), ref1(s),
            [=](const Snap& x) {
               V o;
               for(long i : v) {
                  o.push_back(x.m1[us][static_cast<size_t>(i)]);
               }
               return o;
            },
            [=](long i) { return std::pair<int, long>{s, v[static_cast<size_t>(i)]}; });
      return;
   }
   case 7:
      if(n > 0) {
         long f = factor(n, p);
         keepw(kind, fac_view2d(s, f, n / f), ref1(s), [=](const Snap& x) { return rev(x.m1[us]); },
               [=](long i) { return std::pair<int, long>{s, n - 1 - i}; });
      }
      return;
   case 8: {
      auto v = subset(n, p, q);
      keep(kind, fac_compl(s, v), ref1(s), [=](const Snap& x) {
         V o;
         for(long i : without(n, v)) {
            o.push_back(x.m1[us][static_cast<size_t>(i)]);
         }
         return o;
      });
      return;
   }
   case 9: {
      Sq k = mkseq(n, p, q);
      if(k.n > 12) {
         return;
      }
      bool bycol = (A(6) & 1) != 0;
      auto ex = [=](const Snap& x) {
         V row = take(x.m1[us], k), o;
         for(long i = 0; i < k.n; ++i) {
            for(long j = 0; j < k.n; ++j) {
               o.push_back(row[static_cast<size_t>(bycol ? i : j)]);
            }
         }
         return o;
      };
      if(bycol) {
         keep(kind, fac_bcc(s, k), ref1(s), ex);
      } else {
         keep(kind, fac_bc(s, k), ref1(s), ex);
      }
      return;
   }
   case 10: {
      long i = R(p, r);
      keepw(kind, fac_row(s, i), ref2(s),
            [=](const Snap& x) {
               return build(1, c, [&](long, long j) { return x.m2[us].at(i, j); }).v;
            },
            [=](long j) { return std::pair<int, long>{s + 3, i * c + j}; });
      return;
   }
   case 11: {
      long j = R(p, c);
      keepw(kind, fac_col_rev(s, j), ref2(s),
            [=](const Snap& x) {
               return build(1, r, [&](long, long i) { return x.m2[us].at(r - 1 - i, j); }).v;
            },
            [=](long i) { return std::pair<int, long>{s + 3, (r - 1 - i) * c + j}; });
      return;
   }
   case 12:
      keep(kind, fac_tr(s), ref2(s), [=](const Snap& x) {
         return build(c, r, [&](long i, long j) { return x.m2[us].at(j, i); }).v;
      });
      return;
   case 13:
      keep(kind, fac_tr_tr(s), ref2(s), [=](const Snap& x) { return x.m2[us].v; });
      return;
   case 14: {
      Blk k = mkblk(r, c, p, q);
      keep(kind, fac_tr_blk(s, k), ref2(s), [=](const Snap& x) {
         return build(k.nc, k.nr, [&](long i, long j) { return x.m2[us].at(k.r0 + j, k.c0 + i); }).v;
      });
      return;
   }
   case 15: {
      Blk k = mkblk(r, c, p, q);
      keep(kind, fac_mv(s, k), ref2(s), [=](const Snap& x) {
         V o = build(k.nr, c, [&](long i, long j) { return x.m2[us].at(k.r0 + i, j); }).v;
         return cat(o, x.m2[us].v);
      });
      return;
   }
   case 16: {
      auto ri = subset(r, p, q), ci = subset(c, q, p);
      if(ri.empty() || ci.empty()) {
         return;
      }
      keepw(kind, fac_blk_idx(s, ri, ci), ref2(s),
            [=](const Snap& x) {
               return build(static_cast<long>(ri.size()), static_cast<long>(ci.size()),
                            [&](long i, long j) {
                               return x.m2[us].at(ri[static_cast<size_t>(i)], ci[static_cast<size_t>(j)]);
                            })
                  .v;
            },
            [=](long i) {
               long w = static_cast<long>(ci.size());
               return std::pair<int, long>{
                  s + 3, ri[static_cast<size_t>(i / w)] * c + ci[static_cast<size_t>(i % w)]};
            });
      return;
   }
   case 17:
      keepw(kind, fac_view1(s), ref2(s),
            [=](const Snap& x) {
               return build(r, c, [&](long i, long j) { return x.m2[us].at(r - 1 - i, j); }).v;
            },
            [=](long i) { return std::pair<int, long>{s + 3, (r - 1 - i / c) * c + i % c}; });
      return;
   case 18: {
      long i = R(p, c);
      keep(kind, fac_trow(s, i), ref2(s), [=](const Snap& x) {
         return build(1, r, [&](long, long j) { return x.m2[us].at(j, i); }).v;
      });
      return;
   }
   case 19:
      keep(kind, fac_mh(s), ref2(s), [=](const Snap& x) {
         return build(r, 2 * c, [&](long i, long j) {
                   return j < c ? x.m2[us].at(i, c - 1 - j) : x.m2[us].at(i, j - c);
                })
            .v;
      });
      return;
   case 20:
      keepw(kind, fac_diag(s), ref2(s),
            [=](const Snap& x) {
               return build(1, std::min(r, c), [&](long, long j) { return x.m2[us].at(j, j); }).v;
            },
            [=](long i) { return std::pair<int, long>{s + 3, i * c + i}; });
      return;
   default:
      if constexpr(arith) {
         mkview_arith(kind, s, t, p, q);
      }
   }
}

STEP(evview) {
   if(views.empty()) {
      return;
   }
   auto k = static_cast<size_t>(R(A(0), static_cast<int64_t>(views.size())));
   if(!alive(views[k])) {
      views.erase(views.begin() + static_cast<long>(k));
      SIM_COUNT("probe.view_dropped_shape_changed");
      return;
   }
   View& v = views[k];
   Snap before = snap(stepno);
   V want = v.expect(before);
   int how = static_cast<int>(R(A(1), 5));
   int fk = static_cast<int>(R(A(6), 4));
   if(mode == Mode::Mem && fk == 0) {
      fk = 1;
   }
   for(int round = 0; round < 2; ++round) {
      alloc::arm(alloc::Mode::Off, 0);
      ticker.arm(0);
      if(round == 0 && fk == 1) {
         alloc::arm(alloc::Mode::Once, static_cast<uint64_t>(R(A(7), 4) + 1));
      }
      if(round == 0 && fk == 2) {
         ticker.arm(static_cast<uint64_t>(R(A(7), 12) + 1));
      }
      V got;
      Out o = attempt([&] { got = v.read(how); });
      alloc::disarm();
      bool f = alloc::fired() != 0 || ticker.fired;
      if(alloc::fired()) {
         SIM_COUNT("fault.alloc_once");
      }
      if(ticker.fired) {
         SIM_COUNT("fault.operand_throw");
      }
      ticker.arm(0);
      log_u64(static_cast<uint64_t>(o));
      if(o != Out::Ok) {
         if(!f) {
            bad("view-failed", "evaluating a live view failed, kind " + std::to_string(v.kind));
         }
         SIM_COUNT("probe.view_evaluation_aborted");
         continue; // evaluated again without faults: must be right
      }
      if(mode == Mode::View && !(got == want)) {
         bad("view-stale",
             "view kind " + std::to_string(v.kind) + " shows " + show(got) + " but its arrays hold "
                + show(want));
      }
      if(!f && round == 0) {
         how = (how + 1 + static_cast<int>(R(A(2), 4))) % 5;
      }
   }
   Snap after = snap(stepno);
   if(mode == Mode::View && !(after == before)) {
      bad("view-wrote", "evaluating a view changed an array: " + diff(before, after));
   }
   state(mix2(mix2(shape_hash(), static_cast<uint64_t>(v.kind * 8 + how)),
              static_cast<uint64_t>(fk * 16) + R(A(7), 16)));
}

STEP(dropview) {
   if(!views.empty()) {
      views.erase(views.begin() + static_cast<long>(R(A(0), static_cast<int64_t>(views.size()))));
   }
}

STEP(wrview) {
   std::vector<size_t> w;
   for(size_t i = 0; i < views.size(); ++i) {
      if(views[i].write && alive(views[i])) {
         w.push_back(i);
      }
   }
   if(w.empty()) {
      return;
   }
   View& v = views[w[static_cast<size_t>(R(A(0), static_cast<int64_t>(w.size())))]];
   Snap want = snap(stepno);
   long n = static_cast<long>(v.expect(want).size());
   if(n == 0) {
      return;
   }
   long i = R(A(1), n);
   if(v.kind == 0 && (v.expect(want).size() > 1)) {
      // Stride 0 repeats one element: any index denotes it.
   }
   auto [slot, at] = v.target(i);
   Out o = attempt([&] { v.write(i, sv(A(2))); });
   if(o != Out::Ok) {
      bad("view-write-failed", "writing through a live view failed");
   }
   if(slot < 3) {
      want.m1[static_cast<size_t>(slot)][static_cast<size_t>(at)] = val(A(2));
   } else {
      want.m2[static_cast<size_t>(slot - 3)].v[static_cast<size_t>(at)] = val(A(2));
   }
   Snap after = snap(stepno);
   if(mode == Mode::View && !(after == want)) {
      bad("view-write",
          "writing element " + std::to_string(i) + " through view kind " + std::to_string(v.kind)
             + " changed something else: " + diff(after, want));
   }
   resync();
   SIM_COUNT("probe.view_write");
}

STEP(iterview) {
   int s = s0();
   long n = len(s);
   if(n == 0) {
      return;
   }
   long i = R(A(1), n);
   Snap want = snap(stepno);
   V got;
   Out o = attempt([&] {
      auto it = a[s].begin() + i;
      auto last = a[s].end();
      const auto& cx = a[s];
      auto rit = cx.rbegin();
      a[s].un(n - 1) = sv(A(2)); // after the iterators were taken
      got.push_back((*rit).val());
      got.push_back((*it).val());
      long d = static_cast<long>(last - it);
      *(it + (d - 1)) = sv(A(3));
      got.push_back((*rit).val());
   });
   if(o != Out::Ok) {
      bad("iterator-failed", "iterating a live array failed");
   }
   want.m1[static_cast<size_t>(s)][static_cast<size_t>(n - 1)] = val(A(2));
   V exp{val(A(2)), static_cast<T>(want.m1[static_cast<size_t>(s)][static_cast<size_t>(i)]), val(A(3))};
   want.m1[static_cast<size_t>(s)][static_cast<size_t>(n - 1)] = val(A(3));
   Snap after = snap(stepno);
   if(mode == Mode::View && (!(got == exp) || !(after == want))) {
      bad("iterator", "iterators do not follow the array contents");
   }
   resync();
}
