// Slices of slices (members of W<T, AF>): what a slice denotes is computed here from the definition, in 128-bit arithmetic.
struct Sl {
   enum Kind { SeqN, Seq, All, Even, Odd, Reverse, Skip, First, Last, Vec, Compl, kinds };
   int kind = All;
   long p = 0, q = 0, d = 1;
   Ix v;
   bool named = false;
};
struct Map { // positions of a slice: an arithmetic sequence or a list
   long n = 0, st = 0, d = 0;
   bool list = false;
   Ix v;
   long at(long i) const {
      return list ? v[static_cast<size_t>(i)] : static_cast<long>(static_cast<__int128>(st) + static_cast<__int128>(i) * d);
   }
};
static constexpr long most = std::numeric_limits<long>::max(), least = std::numeric_limits<long>::min();
static constexpr long readable = 600;

// Any number, preferring the places where checks go wrong.
static long edge(Rng& q, long n) {
   switch(q.below(14)) {
   case 0:
      return 0;
   case 1:
      return 1;
   case 2:
      return n;
   case 3:
      return n - 1;
   case 4:
      return n < most ? n + 1 : n;
   case 5:
      return -1;
   case 6:
      return most - q.below(3);
   case 7:
      return least + q.below(3);
   case 8:
      return most / (1 + q.below(9)) + q.below(3);
   case 9:
      return least / (1 + q.below(9)) - q.below(3);
   case 10:
      return -n;
   default: {
      long w = std::min(n, 40L);
      return q.below(2 * w + 3) - w - 1;
   }
   }
}
// A slice of a dimension of n elements: valid, or (wild) with any numbers.
static Sl draw_sl(Rng& q, long n, bool wild, bool big) {
   Sl s;
   s.kind = static_cast<int>(q.below(Sl::kinds));
   s.named = q.chance(1, 3);
   bool listing = n <= readable;
   if(!listing && (s.kind == Sl::Vec || s.kind == Sl::Compl)) {
      s.kind = s.kind == Sl::Vec ? Sl::SeqN : Sl::Reverse;
   }
   if(wild) {
      s.p = edge(q, n);
      s.q = edge(q, n);
      s.d = q.chance(1, 2) ? q.below(7) - 3 : edge(q, n);
      if(s.kind == Sl::Vec || s.kind == Sl::Compl) {
         long k = q.below(5);
         for(long i = 0; i < k; ++i) {
            s.v.push_back(n > 0 && q.chance(2, 3) ? q.below(n) : edge(q, n));
         }
         if(s.kind == Sl::Compl && q.chance(1, 2)) {
            std::sort(s.v.begin(), s.v.end());
         }
         if(n > 0 && q.chance(1, 2)) { // a good list with one thing wrong
            s.v.clear();
            for(long i = 0; i < n && i < 40; ++i) {
               if(q.chance(1, 2)) {
                  s.v.push_back(i);
               }
            }
            if(!s.v.empty()) {
               auto at = static_cast<size_t>(q.below(static_cast<long>(s.v.size())));
               switch(q.below(3)) {
               case 0:
                  s.v.insert(s.v.begin() + static_cast<long>(at), s.v[at]);
                  break;
               case 1:
                  std::swap(s.v[at], s.v[at / 2]);
                  break;
               default:
                  s.v[at] = edge(q, n);
                  break;
               }
            }
         }
      }
      if(!big && s.d == 0) {
         s.q = std::min(s.q, 40L);
      }
      return s;
   }
   switch(s.kind) {
   case Sl::SeqN:
      if(n == 0 || q.chance(1, 12)) {
         s.p = std::abs(q.below(2 * std::min(n, 100L) + 5));
         s.q = 0;
         s.d = q.below(9) - 4;
         break;
      }
      s.p = q.below(n);
      s.d = q.chance(1, 4) && big ? edge(q, n) : q.below(9) - 4;
      if(s.d == 0) {
         s.q = big && q.chance(1, 3) ? most - q.below(4) : q.below(20);
      } else {
         __int128 room = s.d > 0 ? (static_cast<__int128>(n) - 1 - s.p) / s.d : static_cast<__int128>(s.p) / -static_cast<__int128>(s.d);
         s.q = q.chance(1, 2) ? static_cast<long>(room + 1) : q.below(static_cast<long>(room) < most ? static_cast<long>(room) + 1 : most);
      }
      break;
   case Sl::Seq:
      if(n == 0) {
         s.kind = Sl::All;
         break;
      }
      s.p = q.below(n);
      s.q = q.below(n);
      s.d = s.p == s.q ? q.below(7) - 3 : q.below(5) + 1;
      s.d = s.q < s.p ? -s.d : s.d;
      break;
   case Sl::Skip:
      s.p = q.chance(1, 8) ? most - q.below(2) : q.below(5) + 1;
      break;
   case Sl::First:
   case Sl::Last:
      s.p = q.below(n < most ? n + 1 : n);
      break;
   case Sl::Vec:
      if(n > 0) {
         long k = q.below(std::min(n, 12L) + 3);
         for(long i = 0; i < k; ++i) {
            s.v.push_back(q.below(n));
         }
      }
      break;
   case Sl::Compl:
      for(long i = 0; i < n; ++i) {
         if(q.chance(1, 3)) {
            s.v.push_back(i);
         }
      }
      break;
   default:
      break;
   }
   return s;
}
// Whether the slice is valid for n elements, and what it denotes.
static bool denote(const Sl& s, long n, Map& o) {
   using Big = __int128;
   o = Map{};
   auto lin = [&](long st, long k, long d) {
      o.n = k;
      o.st = st;
      o.d = d;
      return true;
   };
   auto in = [&](Big i) { return i >= 0 && i < n; };
   switch(s.kind) {
   case Sl::SeqN:
      if(s.p < 0 || s.q < 0) {
         return false;
      }
      if(s.q == 0) {
         return lin(0, 0, 1);
      }
      return in(s.p) && in(static_cast<Big>(s.p) + static_cast<Big>(s.q - 1) * s.d) && lin(s.p, s.q, s.d);
   case Sl::Seq:
      if(!in(s.p) || !in(s.q) || (s.d > 0 && s.p > s.q) || (s.d < 0 && s.p < s.q) || (s.d == 0 && s.p != s.q)) {
         return false;
      }
      return lin(s.p, s.d == 0 ? 1 : static_cast<long>((static_cast<Big>(s.q) - s.p) / s.d + 1), s.d);
   case Sl::Even:
      return lin(0, n - n / 2, 2);
   case Sl::Odd:
      return lin(1, n / 2, 2);
   case Sl::Reverse:
      return lin(n - 1, n, -1);
   case Sl::Skip:
      return s.p > 0 && lin(0, n == 0 ? 0 : (n - 1) / s.p + 1, s.p);
   case Sl::First:
      return s.p >= 0 && s.p <= n && lin(0, s.p, 1);
   case Sl::Last:
      return s.p >= 0 && s.p <= n && lin(n - s.p, s.p, 1);
   case Sl::Vec:
      for(long i : s.v) {
         if(!in(i)) {
            return false;
         }
      }
      o.list = true;
      o.v = s.v;
      o.n = static_cast<long>(s.v.size());
      return true;
   case Sl::Compl:
      for(size_t i = 0; i < s.v.size(); ++i) {
         if(!in(s.v[i]) || (i > 0 && s.v[i] <= s.v[i - 1])) {
            return false;
         }
      }
      o.list = true;
      for(long i = 0; i < n; ++i) {
         if(std::find(s.v.begin(), s.v.end(), i) == s.v.end()) {
            o.v.push_back(i);
         }
      }
      o.n = static_cast<long>(o.v.size());
      return true;
   default:
      return lin(0, n, 1);
   }
}
static std::string show_sl(const Sl& s) {
   static const char* const nm[] = {"seqN", "seq", "all", "even", "odd", "reverse", "skipN", "firstN", "lastN", "list", "complement"};
   std::string o = nm[s.kind];
   o += "{" + std::to_string(s.p) + "," + std::to_string(s.q) + "," + std::to_string(s.d);
   for(long i : s.v) {
      o += " " + std::to_string(i);
   }
   return o + "}";
}
template <class G>
static void give_sl(const Sl& s, G&& g) {
   namespace pl = spp::place;
   switch(s.kind) {
   case Sl::SeqN:
      if(s.named) {
         return g(spp::seqN{spp::First{s.p}, spp::Size{s.q}, spp::Stride{s.d}});
      }
      return g(s.d == 1 ? spp::seqN{s.p, s.q} : spp::seqN{s.p, s.q, s.d});
   case Sl::Seq:
      if(s.named) {
         return g(spp::seq{spp::First{s.p}, spp::Endmost{s.q}, spp::Stride{s.d}});
      }
      return g(s.d == 1 ? spp::seq{s.p, s.q} : spp::seq{s.p, s.q, s.d});
   case Sl::Even:
      return g(pl::even);
   case Sl::Odd:
      return g(pl::odd);
   case Sl::Reverse:
      return g(pl::reverse);
   case Sl::Skip:
      return g(s.named ? pl::skipN{spp::Stride{s.p}} : pl::skipN{s.p});
   case Sl::First:
      return g(s.named ? pl::firstN{spp::Count{s.p}} : pl::firstN{s.p});
   case Sl::Last:
      return g(s.named ? pl::lastN{spp::Count{s.p}} : pl::lastN{s.p});
   case Sl::Vec:
      return g(vi(s.v));
   case Sl::Compl:
      return g(pl::complement{vi(s.v)});
   default:
      return g(pl::all);
   }
}
// As one of the two forms that every kind comes down to.
template <class G>
static void give_plain(const Map& o, G&& g) {
   if(o.list) {
      return g(vi(o.v));
   }
   g(spp::seqN{o.n == 0 ? 0 : o.st, o.n, o.d});
}

template <int D, class E, class F>
static void chain1(E& e, const std::vector<Sl>& c, size_t k, F& f) {
   if(k == c.size()) {
      return f(e);
   }
   if constexpr(D > 0) {
      give_sl(c[k], [&](auto sl) {
         auto sub = e(std::move(sl));
         chain1<D - 1>(sub, c, k + 1, f);
      });
   }
}
struct Cut { // slices of both dimensions
   int how = 0; // 0 and 1: both (which one in its own form), 2: rows, 3: columns
   Sl r, c;
   Map rm, cm;
};
template <int D, class E, class F>
static void chain2(E& e, const std::vector<Cut>& c, size_t k, F& f) {
   if(k == c.size()) {
      return f(e);
   }
   if constexpr(D > 0) {
      const Cut& u = c[k];
      auto down = [&](auto&& sub) { chain2<D - 1>(sub, c, k + 1, f); };
      switch(u.how) {
      case 0:
         return give_sl(u.r, [&](auto sl) { give_plain(u.cm, [&](auto so) { down(e(std::move(sl), std::move(so))); }); });
      case 1:
         return give_sl(u.c, [&](auto sl) { give_plain(u.rm, [&](auto so) { down(e(std::move(so), std::move(sl))); }); });
      case 2:
         return give_sl(u.r, [&](auto sl) { down(e.rows(std::move(sl))); });
      default:
         return give_sl(u.c, [&](auto sl) { down(e.cols(std::move(sl))); });
      }
   }
}
// A chain of slices of n elements; the last one may be invalid. Positions in ix (as far as they can be listed).
struct Chain {
   std::vector<Sl> c;
   std::vector<Map> m;
   bool ok = true;
   long n = 0;
   long at(long i) const {
      for(size_t k = m.size(); k > 0; --k) {
         i = m[k - 1].at(i);
      }
      return i;
   }
   std::string text() const {
      std::string o;
      for(auto& s : c) {
         o += "(" + show_sl(s) + ")";
      }
      return o;
   }
};
static Chain draw_chain(Rng& q, long n, int depth, bool wild, bool big) {
   Chain o;
   o.n = n;
   for(int i = 0; i < depth; ++i) {
      Sl s = draw_sl(q, o.n, wild && i == depth - 1, big);
      Map mp;
      o.ok = denote(s, o.n, mp);
      o.c.push_back(s);
      if(!o.ok) {
         return o;
      }
      o.m.push_back(mp);
      o.n = mp.n;
   }
   return o;
}
// Reads or writes at the end of a chain over the positions pos[...] of a slot.
template <class Run>
void at_end(const Chain& c, int slot, const Ix& base, bool can_write, Run run) {
   bool huge = c.n > readable;
   Ix ix;
   for(long i = 0; i < std::min(c.n, readable); ++i) {
      ix.push_back(base[static_cast<size_t>(c.at(i))]);
   }
   Ix sorted = ix;
   std::sort(sorted.begin(), sorted.end());
   bool distinct = std::adjacent_find(sorted.begin(), sorted.end()) == sorted.end() && !huge;
   int w = can_write && !huge && (A(3) & 1) != 0 ? 1 + static_cast<int>(R(A(3) / 2, 4)) : 0;
   if((w == 2 && c.n == 0) || (w >= 3 && !distinct)) {
      w = 1;
   }
   long k = c.n > 0 ? R(A(2), std::min(c.n, readable)) : 0;
   S x = sv(A(2) / 7);
   if(w == 0) {
      Seen g;
      V want = pick(cells(slot), ix);
      long got_n = -1;
      T lastv{}, last_want = huge ? cells(slot)[static_cast<size_t>(base[static_cast<size_t>(c.at(c.n - 1))])] : T{};
      exec(Cat::Strong,
           [&] {
              auto f = [&](auto& e) {
                 got_n = e.size().val();
                 if(huge) {
                    V v;
                    for(long i = 0; i < readable; ++i) {
                       v.push_back(S{(i & 1) != 0 ? e[i] : e.un(i)}.val());
                    }
                    lastv = S{e[spp::last]}.val();
                    alloc::Host h;
                    g.v = v;
                 } else {
                    try {
                       V v = rd1<false>(e, static_cast<int>(R(A(4), 12)));
                       alloc::Host h;
                       g.v = v;
                    } catch(int) {
                       g.broken = "inconsistent size";
                    }
                 }
                 g.done = true;
              };
              run(f);
           },
           [&] {});
      if(g.done && got_n != c.n) {
         bad("slice", c.text() + " has " + std::to_string(got_n) + " elements, not " + std::to_string(c.n));
      }
      if(g.done && huge && lastv != last_want) {
         bad("slice", c.text() + " ends with a wrong element");
      }
      return judge(g, want, -1, -1);
   }
   // Operand of an assignment.
   V other;
   for(long i = 0; i < c.n; ++i) {
      other.push_back(val(A(5) + i));
   }
   exec(w == 2 || w == 1 ? Cat::Strong : Cat::Elem,
        [&] {
           auto f = [&](auto& e) {
              if constexpr(requires { e = x; }) {
                 switch(w) {
                 case 1:
                    e = x;
                    return;
                 case 2:
                    if((A(4) & 1) != 0) {
                       e[k] = x;
                    } else {
                       e[spp::last - (c.n - 1 - k)] = x;
                    }
                    return;
                 case 3: {
                    A1 t(spp::Size{c.n});
                    for(long i = 0; i < c.n; ++i) {
                       t.un(i) = S{static_cast<T>(other[static_cast<size_t>(i)])};
                    }
                    e = t;
                    return;
                 }
                 default:
                    for(long i = 0; i < c.n; ++i) {
                       e.un(i) = S{static_cast<T>(other[static_cast<size_t>(i)])};
                    }
                 }
              }
           };
           run(f);
        },
        [&] {
           V& v = cells(slot);
           for(long i = 0; i < c.n; ++i) {
              auto z = static_cast<size_t>(ix[static_cast<size_t>(i)]);
              if(w == 1 || (w == 2 && i == k)) {
                 v[z] = x.val();
              } else if(w >= 3) {
                 v[z] = other[static_cast<size_t>(i)];
              }
           }
        });
}

