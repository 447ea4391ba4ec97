// Helpers shared by the steps (members of W<T, AF>).

int s0() const {
   return static_cast<int>(R(A(0), 3));
}
int s1() const {
   return static_cast<int>(R(A(1), 3));
}
// Another slot than s0.
int s1x() const {
   return static_cast<int>((R(A(0), 3) + 1 + R(A(1), 2)) % 3);
}
long len(int s) const {
   return static_cast<long>(m.m1[static_cast<size_t>(s)].size());
}
static V fillv(long n, T x) {
   return V(static_cast<size_t>(n), x);
}
V valseq(long n, int64_t x) const {
   V r;
   for(long i = 0; i < n; ++i) {
      r.push_back(val(x + i * 7));
   }
   return r;
}
static spp::use::List1D<S> dummy_list();

// ---- 1-D ------------------------------------------------------------------------------------
// Constructed arrays are moved into the slot; the slot is first emptied so that the move cannot
// meet a size mismatch.
void place1(int s, A1&& x) {
   a[s].swap(x);
}
// Element-wise assignment from an operand in another slot.
template <class F>
void slice_target(int form, long n, int64_t p, int64_t q, int s, F&& f) {
   switch(form) {
   case 0:
      f(a[s](sq(mkseq(n, p, q))));
      return;
   case 1:
      f(a[s](spp::place::reverse));
      return;
   case 2:
      f(a[s](spp::place::even));
      return;
   case 3:
      f(a[s](vi(subset(n, p, q))));
      return;
   default:
      f(a[s].view1D());
   }
}
std::vector<long> slice_target_idx(int form, long n, int64_t p, int64_t q) const {
   std::vector<long> r;
   switch(form) {
   case 0: {
      Sq k = mkseq(n, p, q);
      for(long i = 0; i < k.n; ++i) {
         r.push_back(k.st + i * k.sd);
      }
      return r;
   }
   case 1:
      for(long i = n - 1; i >= 0; --i) {
         r.push_back(i);
      }
      return r;
   case 2:
      for(long i = 0; i < n; i += 2) {
         r.push_back(i);
      }
      return r;
   case 3:
      return subset(n, p, q);
   default:
      for(long i = 0; i < n; ++i) {
         r.push_back(i);
      }
      return r;
   }
}
bool small_values(const V& v) const {
   for(size_t i = 0; i < v.size(); ++i) {
      if(static_cast<T>(v[i]) > static_cast<T>(100000) || (sgn && static_cast<T>(v[i]) < T(0) && static_cast<T>(v[i]) < static_cast<T>(T(0) - static_cast<T>(100000)))) {
         return false;
      }
   }
   return true;
}
// Contents left open by the documentation (preserve == false): taken over, the size is not.
V adopt1(int s, long n) {
   if(a[s].size().val() != n) {
      bad("model", "resize gave " + std::to_string(a[s].size().val()) + " elements");
   }
   return read1(a[s], 0);
}
void erase1(int s, long p, long c) {
   m.m1[s].erase(m.m1[s].begin() + p, m.m1[s].begin() + p + c);
}

// ---- 2-D ------------------------------------------------------------------------------------
void place2(int s, A2&& x) {
   b[s].swap(x);
}
long side() const {
   long k = 1;
   while(k * k < scale) {
      ++k;
   }
   return k + 1;
}
static M2 shape(long r, long c, T x) {
   M2 o;
   o.r = r;
   o.c = c;
   o.v = V(static_cast<size_t>(r * c), x);
   return o;
}
M2 adopt2(int s, long r, long c) {
   M2 x = read2(b[s], 0);
   if(x.r != r || x.c != c) {
      bad("model",
          "resize gave " + std::to_string(x.r) + "x" + std::to_string(x.c) + " instead of "
             + std::to_string(r) + "x" + std::to_string(c));
   }
   return x;
}
// Target positions of a 2-D slice.
template <class F>
void slice2_target(int form, int64_t p, int64_t q, int s, F&& f) {
   long r = m.m2[s].r, c = m.m2[s].c;
   switch(form) {
   case 0: {
      Blk k = mkblk(r, c, p, q);
      f(b[s].blockN(k.r0, k.c0, k.nr, k.nc));
      return;
   }
   case 1:
      f(b[s].rows(vi({R(p, r)})));
      return;
   case 2:
      f(b[s].cols(vi({R(p, c)})));
      return;
   case 3:
      f(b[s](spp::place::reverse, spp::place::all));
      return;
   default:
      f(b[s].view2D(c, r));
   }
}
std::vector<std::pair<long, long>> slice2_idx(int form, int64_t p, int64_t q, int s, long& nr,
                                              long& nc) const {
   long r = m.m2[s].r, c = m.m2[s].c;
   std::vector<std::pair<long, long>> o;
   Blk k = mkblk(r, c, p, q);
   switch(form) {
   case 0:
      nr = k.nr;
      nc = k.nc;
      break;
   case 1:
      nr = 1;
      nc = c;
      break;
   case 2:
      nr = r;
      nc = 1;
      break;
   case 3:
      nr = r;
      nc = c;
      break;
   default:
      nr = c;
      nc = r;
   }
   for(long i = 0; i < nr; ++i) {
      for(long j = 0; j < nc; ++j) {
         switch(form) {
         case 0:
            o.emplace_back(k.r0 + i, k.c0 + j);
            break;
         case 1:
            o.emplace_back(R(p, r), j);
            break;
         case 2:
            o.emplace_back(i, R(p, c));
            break;
         case 3:
            o.emplace_back(r - 1 - i, j);
            break;
         default:
            o.emplace_back((i * nc + j) / c, (i * nc + j) % c);
         }
      }
   }
   return o;
}
void keep_rows(int s, const std::vector<long>& rows) {
   const M2 o = m.m2[s];
   if(rows.empty()) {
      m.m2[s] = M2{};
      return;
   }
   m.m2[s] = build(static_cast<long>(rows.size()), o.c, [&](long i, long j) {
      return o.at(rows[static_cast<size_t>(i)], j);
   });
}
void keep_cols(int s, const std::vector<long>& cols) {
   const M2 o = m.m2[s];
   if(cols.empty()) {
      m.m2[s] = M2{};
      return;
   }
   m.m2[s] = build(o.r, static_cast<long>(cols.size()), [&](long i, long j) {
      return o.at(i, cols[static_cast<size_t>(j)]);
   });
}
static std::vector<long> without(long n, long p, long c) {
   std::vector<long> r;
   for(long i = 0; i < n; ++i) {
      if(i < p || i >= p + c) {
         r.push_back(i);
      }
   }
   return r;
}
static std::vector<long> without(long n, const std::vector<long>& idx) {
   std::vector<long> r;
   size_t k = 0;
   for(long i = 0; i < n; ++i) {
      if(k < idx.size() && idx[k] == i) {
         ++k;
      } else {
         r.push_back(i);
      }
   }
   return r;
}
static M2 ins_rows(const M2& o, long p, const M2& x) {
   if(o.r == 0) {
      return x;
   }
   return build(o.r + x.r, o.c, [&](long i, long j) {
      return i < p ? o.at(i, j) : i < p + x.r ? x.at(i - p, j) : o.at(i - x.r, j);
   });
}
static M2 ins_cols(const M2& o, long p, const M2& x) {
   if(o.c == 0) {
      return x;
   }
   return build(o.r, o.c + x.c, [&](long i, long j) {
      return j < p ? o.at(i, j) : j < p + x.c ? x.at(i, j - p) : o.at(i, j - x.c);
   });
}
// Operand with the requested number of columns (rows==false) or rows, whatever the slots hold.
template <class G>
void matched2(bool want_rows, long n, int s, int64_t p, int64_t q, G&& g) {
   auto gen = [](auto e) {
      ticker.tick();
      return e;
   };
   A2& x = b[s];
   long k = R(q, 3) + 1;
   int f = mode == Mode::Throw ? 3 : static_cast<int>(R(p, 6));
   long other = want_rows ? x.cols().val() : x.rows().val();
   switch(f) {
   case 0:
      g(x); // itself
      return;
   case 1:
      if(want_rows) {
         g(spp::const2D(n, k, sv(p)));
      } else {
         g(spp::const2D(k, n, sv(p)));
      }
      return;
   case 2: {
      long c = R(q, other) + 1, o = R(q / 16, other - c + 1);
      if(want_rows) {
         g(x.blockN(0, o, n, c));
      } else {
         g(x.blockN(o, 0, c, n));
      }
      return;
   }
   case 3:
      g(generate(x, gen));
      return;
   case 4:
      if(want_rows) {
         g(merge_horizontal(x, x));
      } else {
         g(merge_vertical(x, x));
      }
      return;
   default:
      if(want_rows) {
         g(x.cols(vi({R(q, other), R(p, other)})));
      } else {
         g(x.rows(vi({R(q, other), R(p, other)})));
      }
   }
}
M2 matched2_model(bool want_rows, long n, int s, int64_t p, int64_t q) const {
   const M2& x = m.m2[s];
   long k = R(q, 3) + 1;
   int f = mode == Mode::Throw ? 3 : static_cast<int>(R(p, 6));
   long other = want_rows ? x.c : x.r;
   switch(f) {
   case 1:
      return want_rows ? shape(n, k, val(p)) : shape(k, n, val(p));
   case 2: {
      long c = R(q, other) + 1, o = R(q / 16, other - c + 1);
      return want_rows ? build(n, c, [&](long i, long j) { return x.at(i, o + j); })
                       : build(c, n, [&](long i, long j) { return x.at(o + i, j); });
   }
   case 4:
      return want_rows ? build(x.r, 2 * x.c, [&](long i, long j) { return x.at(i, j % x.c); })
                       : build(2 * x.r, x.c, [&](long i, long j) { return x.at(i % x.r, j); });
   case 5: {
      long u = R(q, other), w = R(p, other);
      return want_rows ? build(x.r, 2, [&](long i, long j) { return x.at(i, j == 0 ? u : w); })
                       : build(2, x.c, [&](long i, long j) { return x.at(i == 0 ? u : w, j); });
   }
   default:
      return x;
   }
}
void do_insert_rc(bool cols) {
   int s = s0(), t = s1(), f = form2();
   const M2 o = m.m2[s];
   long n = cols ? o.c : o.r;
   long p = R(A(4), n + 1);
   int how = static_cast<int>(R(A(6), 5));
   if(how == 0) {
      p = 0;
   } else if(how == 1) {
      p = n;
   }
   auto put = [&](auto const& e) {
      if(cols) {
         if(how == 0) {
            b[s].insert_cols_front(e);
         } else if(how == 1) {
            b[s].insert_cols_back(e);
         } else if(how == 2) {
            b[s].insert_cols(spp::Pos{p}, e);
         } else {
            b[s].insert_cols(p, e);
         }
      } else {
         if(how == 0) {
            b[s].insert_rows_front(e);
         } else if(how == 1) {
            b[s].insert_rows_back(e);
         } else if(how == 2) {
            b[s].insert_rows(spp::Pos{p}, e);
         } else {
            b[s].insert_rows(p, e);
         }
      }
   };
   M2 x = model2(f, t, A(2), A(3), true);
   if(o.r == 0 || (cols ? x.r == o.r : x.c == o.c)) {
      if(too_big(o.v.size() + x.v.size())) {
         return;
      }
      exec(Cat::Strong,
           [&] { operand2<true>(f, t, A(2), A(3), [&](auto const& e) { put(e); }); },
           [&] { m.m2[s] = cols ? ins_cols(o, p, x) : ins_rows(o, p, x); });
   } else {
      long other = cols ? o.r : o.c;
      x = matched2_model(cols, other, s, A(2), A(3));
      if(too_big(o.v.size() + x.v.size())) {
         return;
      }
      exec(Cat::Strong,
           [&] { matched2(cols, other, s, A(2), A(3), [&](auto const& e) { put(e); }); },
           [&] { m.m2[s] = cols ? ins_cols(o, p, x) : ins_rows(o, p, x); });
   }
}
void do_insert_1(bool col) {
   int s = s0(), t = s1(), f = form1();
   const M2 o = m.m2[s];
   long n = col ? o.c : o.r, need = col ? o.r : o.c;
   long p = R(A(4), n + 1);
   int how = static_cast<int>(R(A(6), 5));
   if(how == 0) {
      p = 0;
   } else if(how == 1) {
      p = n;
   }
   auto put = [&](auto const& e) {
      if(col) {
         if(how == 0) {
            b[s].insert_col_front(e);
         } else if(how == 1) {
            b[s].insert_col_back(e);
         } else if(how == 2) {
            b[s].insert_col(spp::Pos{p}, e);
         } else {
            b[s].insert_col(p, e);
         }
      } else {
         if(how == 0) {
            b[s].insert_row_front(e);
         } else if(how == 1) {
            b[s].insert_row_back(e);
         } else if(how == 2) {
            b[s].insert_row(spp::Pos{p}, e);
         } else {
            b[s].insert_row(p, e);
         }
      }
   };
   auto upd = [&](const V& v) {
      M2 x;
      x.r = col ? static_cast<long>(v.size()) : 1;
      x.c = col ? 1 : static_cast<long>(v.size());
      if(v.empty()) {
         x = M2{};
      }
      x.v = v;
      if(o.r == 0) {
         m.m2[s] = x;
      } else {
         m.m2[s] = col ? ins_cols(o, p, x) : ins_rows(o, p, x);
      }
   };
   V v = model1(f, t, A(2), A(3), true);
   if(too_big(o.v.size() + v.size())) {
      return;
   }
   if(o.r == 0 && v.empty()) {
      return; // inserting an empty row into an empty matrix: left to the rejection tests
   }
   if(o.r == 0 || static_cast<long>(v.size()) == need) {
      exec(Cat::Strong,
           [&] { operand1<true>(f, t, A(2), A(3), [&](auto const& e) { put(e); }); },
           [&] { upd(v); });
      return;
   }
   int g = mode == Mode::Throw ? 2 : static_cast<int>(R(A(3), 4));
   if(g == 3 && len(t) < need) {
      g = 0;
   }
   long k = R(A(2), n);
   switch(g) {
   case 0:
      v = V(static_cast<size_t>(need), val(A(2)));
      exec(Cat::Strong, [&] { put(spp::const1D(need, sv(A(2)))); }, [&] { upd(v); });
      return;
   case 1:
   case 2:
      v.clear();
      for(long i = 0; i < need; ++i) {
         v.push_back(col ? o.at(i, k) : o.at(k, i));
      }
      exec(Cat::Strong,
           [&] {
              auto gen = [](auto e) {
                 ticker.tick();
                 return e;
              };
              if(col) {
                 if(g == 1) {
                    put(b[s].col(k));
                 } else {
                    put(generate(b[s].col(k), gen));
                 }
              } else {
                 if(g == 1) {
                    put(b[s].row(k));
                 } else {
                    put(generate(b[s].row(k), gen));
                 }
              }
           },
           [&] { upd(v); });
      return;
   default: {
      long off = R(A(2), len(t) - need + 1);
      v = V(m.m1[t].begin() + off, m.m1[t].begin() + off + need);
      exec(Cat::Strong, [&] { put(a[t](spp::seqN{off, need})); }, [&] { upd(v); });
   }
   }
}

// ---- moves, swaps, steals ---------------------------------------------------------------------
// In NoAlloc mode every allocation fails and each operation must neither allocate nor throw.
template <class F, class U>
void exec_move(F&& act, U&& upd) {
   if(mode != Mode::NoAlloc) {
      exec(Cat::Strong, act, upd);
      return;
   }
   Snap before = snap(stepno);
   m = before;
   alloc::arm(alloc::Mode::Persistent, 1);
   std::string what;
   Out o = attempt(act, &what);
   alloc::disarm();
   log_u64(static_cast<uint64_t>(o));
   count_named("fault.exhausted_memory_move");
   if(o != Out::Ok) {
      bad("threw", "a move, swap or steal failed while memory was exhausted: " + what);
   }
   if(alloc::sut_allocs() != 0) {
      bad("allocated", "a move, swap or steal allocated memory");
   }
   upd();
   Snap s = snap(stepno);
   if(!(s == m)) {
      bad("contents", "move, swap or steal left wrong contents: " + diff(s, m));
   }
   check_memory();
   state(mix2(mix2(shape_hash(), static_cast<uint64_t>(st->op)), static_cast<uint64_t>(R(A(2), 8))));
}

// ---- rejected calls -----------------------------------------------------------------------------
// oom: the call asks for more than the machine has, so running out of memory is a refusal, too.
void reject(Fn act, bool oom = false) {
   Snap before = snap(stepno);
   uint64_t live = alloc::live_sut();
   int fk = static_cast<int>(R(A(7), 5));
   if(fk == 1) {
      alloc::arm(alloc::Mode::Once, static_cast<uint64_t>(R(A(6), 4) + 1));
   } else if(fk == 2) {
      alloc::arm(alloc::Mode::Persistent, static_cast<uint64_t>(R(A(6), 4) + 1));
   } else {
      alloc::arm(alloc::Mode::Off, 0);
   }
   std::string what;
   Out o = attempt(act, &what);
   alloc::disarm();
   uint64_t f = alloc::fired();
   if(f) {
      count_named(fk == 1 ? "fault.alloc_once" : "fault.alloc_persistent");
   }
   SIM_COUNT("fault.invalid_call");
   log_u64(static_cast<uint64_t>(o) * 4 + (f ? 1 : 0));
   state(mix2(mix2(shape_hash(), static_cast<uint64_t>(st->op) * 64 + static_cast<uint64_t>(R(A(2), 64))),
              static_cast<uint64_t>(o) * 8 + static_cast<uint64_t>(fk)));
   if(mode != Mode::Reject && prop != "C23" && prop != "C24" && prop != "C28") {
      resync();
      check_memory();
      return;
   }
   std::string v = " variant " + std::to_string(R(A(2), 64));
   if(o == Out::Ok) {
      bad("accepted", "an invalid call was accepted," + v);
   }
   if(o != Out::Strict && !(o == Out::BadAlloc && (f || oom))) {
      bad("wrong-error", "an invalid call raised something else than StrictException," + v);
   }
   fault_window = true;
   Snap s = snap(stepno);
   fault_window = false;
   if(!(s == before)) {
      bad("state-changed", "a rejected call changed an array," + v + ": " + diff(before, s));
   }
   if(alloc::live_sut() != live) {
      bad("leak", "a rejected call leaked memory," + v);
   }
   resync();
}

// ---- views and deferred expressions ---------------------------------------------------------------
struct View {
   int kind = 0;
   std::function<V(int)> read;              // through the library; how: access path
   std::function<V(const Snap&)> expect;    // what it must show for the given contents
   std::function<void(long, S)> write;      // mutable views only
   std::function<std::pair<int, long>(long)> target; // (slot: 0-2 1-D, 3-5 2-D; index)
   std::array<long, 8> shape{};             // lengths of the slots it refers to, -1: not referred to
   std::function<void()> drop;
};
std::vector<View> views;

std::array<long, 8> shapes() const {
   return {len(0),
           len(1),
           len(2),
           m.m2[0].r * 10000 + m.m2[0].c,
           m.m2[1].r * 10000 + m.m2[1].c,
           m.m2[2].r * 10000 + m.m2[2].c,
           5,
           6};
}
bool alive(const View& v) const {
   auto now = shapes();
   for(size_t i = 0; i < 8; ++i) {
      if(v.shape[i] >= 0 && v.shape[i] != now[i]) {
         return false;
      }
   }
   return true;
}
// Reads every element of a 1-D or 2-D view.
template <class E>
static V read_expr(const E& e, int how) {
   V r;
   auto push = [&](auto x) {
      alloc::Host h;
      r.push_back(static_cast<T>(x));
   };
   if constexpr(spp::OneDimBaseType<E>) {
      switch(how % 5) {
      case 0:
         for(long i = 0; i < e.size().val(); ++i) {
            push(e.un(i).val());
         }
         break;
      case 1: {
         auto x = e.eval();
         for(long i = 0; i < x.size().val(); ++i) {
            push(x.un(i).val());
         }
         break;
      }
      case 2:
         for(auto it = e.begin(); it != e.end(); ++it) {
            push((*it).val());
         }
         break;
      case 3: {
         A1 x;
         x.resize_and_assign(e);
         for(long i = 0; i < x.size().val(); ++i) {
            push(x.un(i).val());
         }
         break;
      }
      default: {
         auto f = e; // a copy refers to the same contents
         for(long i = 0; i < f.size().val(); ++i) {
            push(f[i].val());
         }
      }
      }
   } else {
      switch(how % 5) {
      case 0:
         for(long i = 0; i < e.rows().val(); ++i) {
            for(long j = 0; j < e.cols().val(); ++j) {
               push(e.un(i, j).val());
            }
         }
         break;
      case 1: {
         auto x = e.eval();
         for(long i = 0; i < x.size().val(); ++i) {
            push(x.un(i).val());
         }
         break;
      }
      case 2:
         for(auto it = e.begin(); it != e.end(); ++it) {
            push((*it).val());
         }
         break;
      case 3: {
         A2 x;
         x.resize_and_assign(e);
         for(long i = 0; i < x.size().val(); ++i) {
            push(x.un(i).val());
         }
         break;
      }
      default: {
         auto f = e;
         for(long i = 0; i < f.size().val(); ++i) {
            push(f.un(i).val());
         }
      }
      }
   }
   return r;
}
template <class E, class X>
void keep(int kind, E e, std::array<bool, 6> refs, X expect) {
   auto p = std::make_shared<E>(std::move(e));
   View v;
   v.kind = kind;
   v.read = [p](int how) { return read_expr(std::as_const(*p), how); };
   v.expect = expect;
   auto now = shapes();
   for(size_t i = 0; i < 8; ++i) {
      v.shape[i] = i < 6 && refs[i] ? now[i] : -1;
   }
   views.push_back(std::move(v));
}
template <class E, class X, class Tg>
void keepw(int kind, E e, std::array<bool, 6> refs, X expect, Tg tg) {
   auto p = std::make_shared<E>(std::move(e));
   View v;
   v.kind = kind;
   v.read = [p](int how) { return read_expr(std::as_const(*p), how); };
   v.expect = expect;
   v.write = [p](long i, S x) { p->un(i) = x; };
   v.target = tg;
   auto now = shapes();
   for(size_t i = 0; i < 8; ++i) {
      v.shape[i] = i < 6 && refs[i] ? now[i] : -1;
   }
   views.push_back(std::move(v));
}
static std::array<bool, 6> ref1(int s, int t = -1) {
   std::array<bool, 6> r{};
   r[static_cast<size_t>(s)] = true;
   if(t >= 0) {
      r[static_cast<size_t>(t)] = true;
   }
   return r;
}
static std::array<bool, 6> ref2(int s) {
   std::array<bool, 6> r{};
   r[static_cast<size_t>(s) + 3] = true;
   return r;
}
// The factories return by value so that every temporary they used is gone afterwards.
auto fac_seq(int s, Sq k) {
   return a[s](sq(k));
}
auto fac_rev_even(int s) {
   return a[s](spp::place::reverse)(spp::place::even);
}
auto fac_local_slice(int s) {
   auto loc = std::as_const(a[s])(spp::place::even);
   return loc(spp::place::reverse);
}
auto fac_merge(int s, int t, Sq k) {
   return merge(std::as_const(a[s])(sq(k)), a[t]);
}
auto fac_gen(int s) {
   return generate(a[s], [](auto e) {
      ticker.tick();
      return e;
   });
}
auto fac_exclude(int s, long p, long c) {
   return exclude(a[s](spp::place::reverse), p, c);
}
auto fac_idx(int s, std::vector<long> v) {
   auto sl = a[s](vi(v));
   return sl(spp::place::all);
}
auto fac_view2d(int s, long f, long g) {
   return a[s](spp::place::reverse).view2D(f, g);
}
auto fac_row(int s, long i) {
   return b[s].row(i);
}
auto fac_col_rev(int s, long j) {
   return b[s].col(j)(spp::place::reverse);
}
auto fac_tr(int s) {
   return transpose(b[s]);
}
auto fac_tr_tr(int s) {
   return transpose(transpose(b[s]));
}
auto fac_tr_blk(int s, Blk k) {
   return transpose(b[s].blockN(k.r0, k.c0, k.nr, k.nc));
}
auto fac_mv(int s, Blk k) {
   return merge_vertical(b[s].rows(spp::seqN{k.r0, k.nr}), transpose(transpose(b[s])));
}
auto fac_blk_idx(int s, std::vector<long> ri, std::vector<long> ci) {
   return b[s](vi(ri), vi(ci));
}
auto fac_view1(int s) {
   return b[s].rows(spp::place::reverse).view1D();
}
auto fac_trow(int s, long i) {
   return transpose(b[s]).row(i);
}
auto fac_bc(int s, Sq k) {
   return row_broadcast(a[s](sq(k)));
}
auto fac_mh(int s) {
   return merge_horizontal(b[s].cols(spp::place::reverse), b[s]);
}
auto fac_diag(int s) {
   return b[s].diag();
}
auto fac_compl(int s, std::vector<long> v) {
   return a[s](spp::place::complement{vi(v)})(spp::place::all);
}
auto fac_bcc(int s, Sq k) {
   return col_broadcast(a[s](sq(k)));
}

auto fac_sum(int s, int t, long k) {
   return a[s](spp::place::firstN{k}) + std::as_const(a[t])(spp::place::lastN{k});
}
auto fac_nested(int s) {
   const auto& x = a[s];
   return (x + S{T(1)}) - (x(spp::place::reverse) - x(spp::place::reverse));
}
auto fac_reduce(int s) {
   return row_reduce(b[s], [](auto row) { return row[0]; });
}
auto fac_unary(int s) {
   return abs(-(-a[s](spp::place::reverse)));
}
auto fac_sum2(int s) {
   return transpose(b[s] + b[s](spp::place::all, spp::place::all)) - transpose(b[s]);
}
auto fac_cond(int s) {
   return in_cond_range(a[s], [](auto e) { return e >= S{T(0)}; });
}
void mkview_arith(int kind, int s, int t, int64_t p, int64_t q);
void finish() {
   views.clear();
   if(mode == Mode::Mem) {
      check_memory();
   }
}
