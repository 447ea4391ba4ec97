// Helpers of the "api" steps (members of W<T, AF>): a slice or view of an array is described by the
// flat positions it denotes, whatever call built it.
using Ix = std::vector<long>;
static Ix iota_ix(long n, long from = 0, long by = 1) {
   Ix r;
   for(long i = 0; i < n; ++i) {
      r.push_back(from + i * by);
   }
   return r;
}
static V pick(const V& v, const Ix& ix) {
   V r;
   for(long i : ix) {
      r.push_back(v[static_cast<size_t>(i)]);
   }
   return r;
}
// Reads a 1-D array, slice or expression through one access path. Full: every path, else the basic ones.
template <bool Full, class E>
static V rd1(const E& e, int how) {
   V r;
   long n = e.size().val();
   if(n < 0 || n > 1000000) {
      throw 1;
   }
   if constexpr(Full) {
      switch(how % 12) {
      case 3:
         for(auto it = e.cbegin(); it != e.cend(); it++) {
            r.push_back(S{*it}.val());
         }
         return r;
      case 4:
         for(auto it = e.rbegin(); it != e.rend(); ++it) {
            r.push_back(S{*it}.val());
         }
         return V(r.rbegin(), r.rend());
      case 5:
         for(auto it = e.crbegin(); it != e.crend(); ++it) {
            r.push_back(S{*it}.val());
         }
         return V(r.rbegin(), r.rend());
      case 6:
         for(long i = 0; i < n; ++i) {
            r.push_back(S{e.at(i)}.val());
         }
         return r;
      case 7:
         for(long i = 0; i < n; ++i) {
            r.push_back(S{e[spp::last - (n - 1 - i)]}.val());
         }
         return r;
      case 8: {
         auto it = e.begin();
         for(long i = 0; i < n; ++i) {
            r.push_back(S{it[i]}.val());
         }
         return r;
      }
      case 9: {
         auto it = e.end();
         for(long i = 0; i < n; ++i) {
            auto old = it--;
            if(old - it != 1 || !(it < old) || it > old || it >= old || !(it <= old) || it == old
               || !(it + 1 == old) || !(old - 1 == it) || !(1 + it == old)) {
               throw 2;
            }
            r.push_back(S{*it}.val());
         }
         return V(r.rbegin(), r.rend());
      }
      case 10: {
         auto it = e.begin();
         for(long i = 0; i < n; ++i) {
            auto k = it;
            k += n - 1;
            k -= i;
            r.push_back(S{*k}.val());
         }
         return V(r.rbegin(), r.rend());
      }
      case 11: {
         auto x = e.eval();
         for(long i = 0; i < x.size().val(); ++i) {
            r.push_back(S{x.un(i)}.val());
         }
         return r;
      }
      default:
         break;
      }
   }
   switch(how % 3) {
   case 0:
      for(long i = 0; i < n; ++i) {
         r.push_back(S{e.un(i)}.val());
      }
      return r;
   case 1:
      for(long i = 0; i < n; ++i) {
         r.push_back(S{e[i]}.val());
      }
      return r;
   default:
      for(const auto& x : e) {
         r.push_back(S{x}.val());
      }
      return r;
   }
}
template <bool Full, class E>
static M2 rd2(const E& e, int how) {
   M2 r;
   r.r = e.rows().val();
   r.c = e.cols().val();
   long n = e.size().val();
   if(r.r < 0 || r.c < 0 || r.r > 100000 || r.c > 100000 || r.r * r.c != n || (r.r == 0) != (r.c == 0)) {
      throw 1;
   }
   if(bool{e.empty()} != (n == 0)) {
      throw 2;
   }
   if constexpr(Full) {
      switch(how % 14) {
      case 2:
         for(const auto& x : e) {
            r.v.push_back(S{x}.val());
         }
         return r;
      case 3:
         for(auto it = e.cbegin(); it != e.cend(); it++) {
            r.v.push_back(S{*it}.val());
         }
         return r;
      case 4:
         for(auto it = e.rbegin(); it != e.rend(); ++it) {
            r.v.push_back(S{*it}.val());
         }
         r.v = V(r.v.rbegin(), r.v.rend());
         return r;
      case 5:
         for(auto it = e.crbegin(); it != e.crend(); ++it) {
            r.v.push_back(S{*it}.val());
         }
         r.v = V(r.v.rbegin(), r.v.rend());
         return r;
      case 6:
         for(long i = 0; i < r.r; ++i) {
            for(long j = 0; j < r.c; ++j) {
               r.v.push_back(S{e.at(i, j)}.val());
            }
         }
         return r;
      case 7:
         for(long i = 0; i < r.r; ++i) {
            for(long j = 0; j < r.c; ++j) {
               r.v.push_back(S{e(spp::last - (r.r - 1 - i), spp::last - (r.c - 1 - j))}.val());
            }
         }
         return r;
      case 8:
         for(long i = 0; i < r.r; ++i) {
            auto w = e.row(i);
            for(long j = 0; j < w.size().val(); ++j) {
               r.v.push_back(S{w.un(j)}.val());
            }
         }
         return r;
      case 9: {
         r.v = V(static_cast<size_t>(n), T{});
         for(long j = 0; j < r.c; ++j) {
            auto w = e.col(spp::last - (r.c - 1 - j));
            if(w.size().val() != r.r) {
               throw 3;
            }
            for(long i = 0; i < r.r; ++i) {
               r.v[static_cast<size_t>(i * r.c + j)] = S{w.un(i)}.val();
            }
         }
         return r;
      }
      case 10: {
         for(auto w : spp::RowIt{e}) {
            for(long j = 0; j < w.size().val(); ++j) {
               r.v.push_back(S{w.un(j)}.val());
            }
         }
         return r;
      }
      case 11: {
         r.v = V(static_cast<size_t>(n), T{});
         long j = 0;
         for(auto w : spp::ColIt{e}) {
            if(w.size().val() != r.r || j >= r.c) {
               throw 3;
            }
            for(long i = 0; i < r.r; ++i) {
               r.v[static_cast<size_t>(i * r.c + j)] = S{w.un(i)}.val();
            }
            ++j;
         }
         return r;
      }
      case 12:
         for(auto [i, j] : spp::IndexRange2D{e}) {
            r.v.push_back(S{e.un(i, j)}.val());
         }
         return r;
      case 13: {
         auto x = e.eval();
         if(x.rows().val() != r.r || x.cols().val() != r.c) {
            throw 3;
         }
         for(long i = 0; i < x.size().val(); ++i) {
            r.v.push_back(S{x.un(i)}.val());
         }
         return r;
      }
      default:
         break;
      }
   }
   if(how % 2 == 0) {
      for(long i = 0; i < n; ++i) {
         r.v.push_back(S{e.un(i)}.val());
      }
      return r;
   }
   for(long i = 0; i < r.r; ++i) {
      for(long j = 0; j < r.c; ++j) {
         r.v.push_back(S{e(i, j)}.val());
      }
   }
   return r;
}
// What the slot holds, 0-2: 1-D, 3-5: 2-D, 6 and 7: fixed arrays.
static V& cells_of(Snap& s, int slot) {
   return slot < 3   ? s.m1[static_cast<size_t>(slot)]
        : slot < 6   ? s.m2[static_cast<size_t>(slot - 3)].v
        : slot == 6  ? s.f1
                     : s.f2;
}
V& cells(int slot) {
   return cells_of(m, slot);
}
struct Seen {
   bool done = false;
   V v;
   long r = -1, c = -1;
   std::string broken;
};
// Builds a 1-D value, reads it and compares it with the expected sequence.
template <bool Full = false, class Mk>
void look1(Mk&& mk, const V& want) {
   Seen g;
   int how = static_cast<int>(R(A(4), 12));
   exec(Cat::Strong,
        [&] {
           auto&& e = mk();
           try {
              V got = rd1<Full>(e, how);
              alloc::Host h;
              g.v = got;
              g.done = true;
           } catch(int k) {
              g.broken = "inconsistent size or iterator " + std::to_string(k);
           }
        },
        [&] {});
   judge(g, want, -1, -1);
}
template <bool Full = false, class Mk>
void look2(Mk&& mk, const M2& want) {
   Seen g;
   int how = static_cast<int>(R(A(4), 14));
   exec(Cat::Strong,
        [&] {
           auto&& e = mk();
           try {
              M2 got = rd2<Full>(e, how);
              alloc::Host h;
              g.v = got.v;
              g.r = got.r;
              g.c = got.c;
              g.done = true;
           } catch(int k) {
              g.broken = "inconsistent shape " + std::to_string(k);
           }
        },
        [&] {});
   judge(g, want.v, want.r, want.c);
}
void judge(const Seen& g, const V& want, long r, long c) {
   if(mode != Mode::Model && mode != Mode::View) {
      return;
   }
   std::string k = " form " + std::to_string(R(A(2), 4096));
   if(!g.broken.empty()) {
      bad("path", g.broken + k);
   }
   if(g.done && (!(g.v == want) || g.r != r || g.c != c)) {
      bad("path",
          "read " + std::to_string(g.r) + "x" + std::to_string(g.c) + show(g.v) + " where the model has "
             + std::to_string(r) + "x" + std::to_string(c) + show(want) + k);
   }
}
// Writes through a mutable 1-D slice that denotes the given cells of a slot.
template <bool Full = false, class Mk>
void put1(Mk&& mk, int slot, const Ix& ix) {
   long n = static_cast<long>(ix.size());
   int w = static_cast<int>(R(A(5), Full ? 12 : 4));
   bool distinct = std::set<long>(ix.begin(), ix.end()).size() == ix.size();
   int t = (slot + 1) % 3;
   if((n == 0 && w != 0) || (w == 1 && (len(t) < n || !distinct || slot == t))) {
      w = 0;
   }
   long k = n == 0 ? 0 : R(A(6), n);
   S x = sv(A(7));
   exec(Cat::Elem,
        [&] {
           auto e = mk();
           switch(w) {
           case 0:
              e = x;
              return;
           case 1:
              e = a[t](spp::place::firstN{n});
              return;
           case 2:
              e[k] = x;
              return;
           case 3:
              *(e.begin() + k) = x;
              return;
           default:
              break;
           }
           if constexpr(Full) {
              switch(w) {
              case 4:
                 e.un(k) = x;
                 return;
              case 5:
                 e.at(k) = x;
                 return;
              case 6:
                 e.begin()[k] = x;
                 return;
              case 7:
                 *(e.rbegin() + (n - 1 - k)) = x;
                 return;
              case 8:
                 e[spp::last - (n - 1 - k)] = x;
                 return;
              case 9: {
                 auto it = e.end();
                 it -= n - k;
                 *(it++) = x;
                 return;
              }
              case 10:
                 e.at(spp::last - (n - 1 - k)) = x;
                 return;
              default:
                 mk() = x;
              }
           }
        },
        [&] {
           V& v = cells(slot);
           for(long i = 0; i < n; ++i) {
              auto u = static_cast<size_t>(i);
              if(w == 0 || w == 11) {
                 v[static_cast<size_t>(ix[u])] = x.val();
              } else if(w == 1) {
                 v[static_cast<size_t>(ix[u])] = static_cast<T>(m.m1[static_cast<size_t>(t)][u]);
              } else if(i == k) {
                 v[static_cast<size_t>(ix[u])] = x.val();
              }
           }
        });
}
// The same for a 2-D slice of nr x nc cells.
template <bool Full = false, class Mk>
void put2(Mk&& mk, int slot, const Ix& ix, long nr, long nc) {
   long n = nr * nc;
   int w = static_cast<int>(R(A(5), Full ? 12 : 4));
   bool distinct = std::set<long>(ix.begin(), ix.end()).size() == ix.size();
   int t = (slot + 1) % 3;
   if((n == 0 && w != 0) || (w == 1 && (len(t) < n || !distinct))) {
      w = 0;
   }
   long k = n == 0 ? 0 : R(A(6), n);
   long i = n == 0 ? 0 : k / nc, j = n == 0 ? 0 : k % nc;
   S x = sv(A(7));
   exec(Cat::Elem,
        [&] {
           auto e = mk();
           switch(w) {
           case 0:
              e = x;
              return;
           case 1:
              e = a[t](spp::place::firstN{n}).view2D(nr, nc);
              return;
           case 2:
              e(i, j) = x;
              return;
           case 3:
              e.un(k) = x;
              return;
           default:
              break;
           }
           if constexpr(Full) {
              switch(w) {
              case 4:
                 e.un(i, j) = x;
                 return;
              case 5:
                 e.at(i, j) = x;
                 return;
              case 6:
                 e.begin()[k] = x;
                 return;
              case 7:
                 *(e.rbegin() + (n - 1 - k)) = x;
                 return;
              case 8:
                 e.row(i)[j] = x;
                 return;
              case 9:
                 e.col(j)[i] = x;
                 return;
              case 10: {
                 long q = 0;
                 for(auto row : spp::RowIt{e}) {
                    if(q++ == i) {
                       row[j] = x;
                       return;
                    }
                 }
                 return;
              }
              default: {
                 long q = 0;
                 for(auto col : spp::ColIt{e}) {
                    if(q++ == j) {
                       col[i] = x;
                       return;
                    }
                 }
              }
              }
           }
        },
        [&] {
           V& v = cells(slot);
           for(long u = 0; u < n; ++u) {
              auto z = static_cast<size_t>(ix[static_cast<size_t>(u)]);
              if(w == 0) {
                 v[z] = x.val();
              } else if(w == 1) {
                 v[z] = static_cast<T>(m.m1[static_cast<size_t>(t)][static_cast<size_t>(u)]);
              } else if(u == k) {
                 v[z] = x.val();
              }
           }
        });
}
// Every kind of slice of one dimension of n elements, and the positions it denotes.
static constexpr int n_slices = 17;
template <class G>
static void with_slice(int kind, long n, int64_t p, int64_t q, G&& g) {
   namespace pl = spp::place;
   switch(kind) {
   case 0:
      return g(sq(mkseq(n, p, q)));
   case 1: {
      Sq k = mkseq(n, p, q);
      return g(spp::seqN{spp::First{k.st}, spp::Size{k.n}, spp::Stride{k.sd}});
   }
   case 2:
   case 3:
      if(n > 0) {
         long f = R(p, n), d = R(q, 3) + 1;
         if(kind == 2) {
            return g(spp::seq{f, f + (n - 1 - f) / d * d, d});
         }
         return g(spp::seq{spp::First{f}, spp::Endmost{f % d}, spp::Stride{f / d == 0 ? 0 : -d}});
      }
      break;
   case 4:
      return g(pl::even);
   case 5:
      return g(pl::odd);
   case 6:
      return g(pl::reverse);
   case 7:
      return g(pl::skipN{spp::Stride{R(q, 4) + 1}});
   case 8:
      return g(pl::firstN{spp::Count{R(q, n + 1)}});
   case 9:
      return g(pl::lastN{spp::Count{R(q, n + 1)}});
   case 10:
      return g(vi(anyidx(n, p, q)));
   case 11:
      return g(pl::complement{vi(subset(n, p, q))});
   case 12:
      if(n > 0) {
         long f = R(p, n), d = R(q, 3) + 1;
         return g(spp::implicit_vector_sequence(R(q, (n - 1 - f) / d + 2), f, d));
      }
      break;
   case 13:
      if(n > 0) {
         long f = R(p, n), d = R(q, 3) + 1;
         return g(spp::implicit_vector_sequence(spp::Size{f / d + 1}, spp::Start{f}, spp::Incr{-d}));
      }
      break;
   case 14:
      return g(pl::skipN{R(q, 4) + 1});
   case 15:
      if(n > 0) {
         return g(pl::complement{R(p, n)});
      }
      break;
   default:
      break;
   }
   g(pl::all);
}
static Ix slice_ix(int kind, long n, int64_t p, int64_t q) {
   switch(kind) {
   case 0:
   case 1: {
      Sq k = mkseq(n, p, q);
      return iota_ix(k.n, k.st, k.sd);
   }
   case 2:
   case 3:
      if(n > 0) {
         long f = R(p, n), d = R(q, 3) + 1;
         return kind == 2 ? iota_ix((n - 1 - f) / d + 1, f, d) : iota_ix(f / d + 1, f, -d);
      }
      break;
   case 4:
      return iota_ix((n + 1) / 2, 0, 2);
   case 5:
      return iota_ix(n / 2, 1, 2);
   case 6:
      return iota_ix(n, n - 1, -1);
   case 7:
   case 14: {
      long d = R(q, 4) + 1;
      return iota_ix((n + d - 1) / d, 0, d);
   }
   case 8:
      return iota_ix(R(q, n + 1));
   case 9: {
      long k = R(q, n + 1);
      return iota_ix(k, n - k);
   }
   case 10:
      return anyidx(n, p, q);
   case 11:
      return without(n, subset(n, p, q));
   case 12:
      if(n > 0) {
         long f = R(p, n), d = R(q, 3) + 1;
         return iota_ix(R(q, (n - 1 - f) / d + 2), f, d);
      }
      break;
   case 13:
      if(n > 0) {
         long f = R(p, n), d = R(q, 3) + 1;
         return iota_ix(f / d + 1, f, -d);
      }
      break;
   case 15:
      if(n > 0) {
         return without(n, R(p, n), 1);
      }
      break;
   default:
      break;
   }
   return iota_ix(n);
}
static Ix diag_ix(long r, long c, long d) {
   Ix o;
   for(long i = std::max(0L, -d), j = std::max(0L, d); i < r && j < c; ++i, ++j) {
      o.push_back(i * c + j);
   }
   return o;
}
// ---- element-wise operators -----------------------------------------------------------------------
static constexpr int n_bops = integer ? 10 : 4;
static constexpr const char* bop_name(int op) {
   constexpr const char* names[] = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"};
   return names[op];
}
// What the builtin operator gives.
static T bop(int op, T x, T y) {
   switch(op) {
   case 0:
      return static_cast<T>(x + y);
   case 1:
      return static_cast<T>(x - y);
   case 2:
      return static_cast<T>(x * y);
   case 3:
      return static_cast<T>(x / y);
   default:
      break;
   }
   if constexpr(integer) {
      switch(op) {
      case 4:
         return static_cast<T>(x % y);
      case 5:
         return static_cast<T>(x & y);
      case 6:
         return static_cast<T>(x | y);
      case 7:
         return static_cast<T>(x ^ y);
      case 8:
         return static_cast<T>(x << y);
      default:
         return static_cast<T>(x >> y);
      }
   }
   return x;
}
// Defined, without overflow and, if the result is to be kept, integral.
static bool bop_ok(int op, T x, T y, bool keep) {
   auto within = [](T z, long lim) {
      T l = static_cast<T>(lim);
      if constexpr(sgn) {
         return z <= l && z >= -l;
      } else {
         return z <= l;
      }
   };
   if(!within(x, 100000) || !within(y, 100000)) {
      return false;
   }
   switch(op) {
   case 2:
      return within(x, 1000) && within(y, 1000);
   case 3:
      if(y == T(0)) {
         return false;
      }
      if constexpr(!integer) {
         return !keep || static_cast<T>(static_cast<T>(static_cast<long>(x / y)) * y) == x;
      }
      return true;
   case 4:
      return y != T(0);
   case 8:
   case 9:
      return x >= T(0) && y >= T(0) && y <= T(8);
   default:
      return true;
   }
}
static bool bop_ok(int op, const V& x, const V& y, bool keep) {
   for(size_t i = 0; i < x.size(); ++i) {
      if(!bop_ok(op, static_cast<T>(x[i]), static_cast<T>(y[i]), keep)) {
         return false;
      }
   }
   return true;
}
static V bop(int op, const V& x, const V& y) {
   V r;
   for(size_t i = 0; i < x.size(); ++i) {
      r.push_back(bop(op, static_cast<T>(x[i]), static_cast<T>(y[i])));
   }
   return r;
}
// A scalar that suits the operator.
static T bop_scalar(int op, int64_t p) {
   switch(op) {
   case 2:
      return static_cast<T>(R(p, 4));
   case 3:
   case 4:
      return static_cast<T>(R(p, 7) + 1);
   case 8:
   case 9:
      return static_cast<T>(R(p, 4));
   default:
      return static_cast<T>(R(p, 200));
   }
}
template <class E, class Y>
static void compound(int op, E&& e, const Y& y) {
   switch(op) {
   case 0:
      e += y;
      return;
   case 1:
      e -= y;
      return;
   case 2:
      e *= y;
      return;
   case 3:
      e /= y;
      return;
   default:
      break;
   }
   if constexpr(integer) {
      switch(op) {
      case 4:
         e %= y;
         return;
      case 5:
         e &= y;
         return;
      case 6:
         e |= y;
         return;
      case 7:
         e ^= y;
         return;
      case 8:
         e <<= y;
         return;
      default:
         e >>= y;
      }
   }
}
// Calls g with an expression "x() op y()".
template <class X_, class Y, class G>
static void binary(int op, const X_& x, const Y& y, G&& g) {
   switch(op) {
   case 0:
      return g([&] { return x() + y(); });
   case 1:
      return g([&] { return x() - y(); });
   case 2:
      return g([&] { return x() * y(); });
   case 3:
      return g([&] { return x() / y(); });
   default:
      break;
   }
   if constexpr(integer) {
      switch(op) {
      case 4:
         return g([&] { return x() % y(); });
      case 5:
         return g([&] { return x() & y(); });
      case 6:
         return g([&] { return x() | y(); });
      case 7:
         return g([&] { return x() ^ y(); });
      case 8:
         return g([&] { return x() << y(); });
      default:
         return g([&] { return x() >> y(); });
      }
   }
}
// Compound assignment to the given cells of a slot.
template <class Mk, class Y>
void comp(int op, Mk&& mk, int slot, const Ix& ix, Y&& y, const V& w) {
   V lhs = pick(cells(slot), ix);
   if(!bop_ok(op, lhs, w, true)) {
      return;
   }
   exec(Cat::Elem,
        [&] {
           auto&& e = mk();
           compound(op, e, y());
        },
        [&] {
           V& v = cells(slot);
           V r = bop(op, lhs, w);
           for(size_t i = 0; i < ix.size(); ++i) {
              v[static_cast<size_t>(ix[i])] = static_cast<T>(r[i]);
           }
        });
}
// An element-wise operation that is rejected at some element: everything before it is done and nothing after.
template <class Act>
void half(Act&& act, int slot, const V& done) {
   Snap before = snap(stepno);
   uint64_t live = alloc::live_sut();
   alloc::arm(alloc::Mode::Off, 0);
   std::string what;
   Out o = attempt(act, &what);
   SIM_COUNT("fault.invalid_element");
   if(o == Out::Ok) {
      bad("accepted", "an invalid element was accepted, form " + std::to_string(R(A(2), 64)));
   }
   if(o != Out::Strict) {
      bad("wrong-error", "an invalid element was reported as something else: " + what);
   }
   Snap s = snap(stepno);
   if(alloc::live_sut() != live) {
      bad("leak", "an invalid element leaked memory");
   }
   V got = cells_of(s, slot);
   const V& old = cells_of(before, slot);
   bool ok = got.size() == old.size();
   for(size_t i = 0; ok && i < got.size(); ++i) {
      ok = static_cast<T>(got[i]) == static_cast<T>(old[i]) || static_cast<T>(got[i]) == static_cast<T>(done[i]);
   }
   if(!ok) {
      bad("torn", "an operation stopped by an invalid element left an element neither old nor new");
   }
   cells_of(s, slot) = old;
   if(!(s == before)) {
      bad("state-changed", "an operation stopped by an invalid element changed another array: " + diff(before, s));
   }
   restore(before);
   resync();
}

// ---- logical operators (boolean elements) -----------------------------------------------------------
template <class X_, class Y, class G>
static void logic(int op, const X_& x, const Y& y, G&& g) {
   switch(op) {
   case 0:
      return g(x && y);
   case 1:
      return g(x || y);
   default:
      return g(x ^ y);
   }
}
static V lop(int op, const V& x, const V& y) {
   V r;
   for(size_t i = 0; i < x.size(); ++i) {
      bool p = x[i] != T(0), q = y[i] != T(0);
      r.push_back(static_cast<T>(op == 0 ? p && q : op == 1 ? p || q : p != q));
   }
   return r;
}
static V lnot(const V& x) {
   V r;
   for(size_t i = 0; i < x.size(); ++i) {
      r.push_back(static_cast<T>(x[i] == T(0)));
   }
   return r;
}
// Expressions and slices of arrays that are gone when they are read: they must not be accepted by the compiler, or else
// keep what they need. Wherever one is accepted, it is read and compared.
#define SIM_TMP1(n, want, ...)                                    \
   case n:                                                        \
      if constexpr(requires { __VA_ARGS__; }) {                   \
         return look1([&] { return __VA_ARGS__; }, want);         \
      }                                                           \
      return
#define SIM_TMP2(n, want, ...)                                    \
   case n:                                                        \
      if constexpr(requires { __VA_ARGS__; }) {                   \
         return look2([&] { return __VA_ARGS__; }, want);         \
      }                                                           \
      return
void temporaries(int s, long how) {
   namespace pl = spp::place;
   auto us = static_cast<size_t>(s);
   const A1& x = a[s];
   const A2& y = b[s];
   const V v = m.m1[us];
   const M2 w = m.m2[us];
   long n = len(s);
   if(n == 0 || w.r == 0) {
      return;
   }
   const S e0{static_cast<T>(v[0])};
   V vv = v, ve = v, ev = v, v3, tail(v.begin() + 1, v.end()), head(v.begin(), v.end() - 1), v00{v[0]}, rev(v.rbegin(), v.rend());
   vv.insert(vv.end(), v.begin(), v.end());
   v3 = vv;
   v3.insert(v3.end(), v.begin(), v.end());
   ve.push_back(v[0]);
   ev.insert(ev.begin(), v[0]);
   V row0 = pick(w.v, iota_ix(w.c)), col0 = pick(w.v, iota_ix(w.r, 0, w.c)), dia = pick(w.v, diag_ix(w.r, w.c, 0));
   M2 hor = build(w.r, 2 * w.c, [&](long i, long j) { return w.at(i, j % w.c); });
   M2 ver = build(2 * w.r, w.c, [&](long i, long j) { return w.at(i % w.r, j); });
   M2 tr = build(w.c, w.r, [&](long i, long j) { return w.at(j, i); });
   M2 one = build(1, n, [&](long, long j) { return v[static_cast<size_t>(j)]; });
   M2 rows = build(n, n, [&](long, long j) { return v[static_cast<size_t>(j)]; });
   M2 cols = build(n, n, [&](long i, long) { return v[static_cast<size_t>(i)]; });
   auto first = [](const auto& z) { return S{z.un(0)}; };
   auto all = [](auto) { return spp::true_sb; };
   switch(how) {
      SIM_TMP1(0, vv, spp::merge(A1(x), x));
      SIM_TMP1(1, vv, spp::merge(x, A1(x)));
      SIM_TMP1(2, v3, spp::merge(x, x, A1(x)));
      SIM_TMP1(3, v3, spp::merge(A1(x), x, x));
      SIM_TMP1(4, ve, spp::merge(A1(x), e0));
      SIM_TMP1(5, ev, spp::merge(e0, A1(x)));
      SIM_TMP2(6, hor, spp::merge_horizontal(A2(y), y));
      SIM_TMP2(7, hor, spp::merge_horizontal(y, A2(y)));
      SIM_TMP2(8, ver, spp::merge_vertical(A2(y), y));
      SIM_TMP2(9, ver, spp::merge_vertical(y, A2(y)));
      SIM_TMP1(10, tail, spp::exclude(A1(x), 0));
      SIM_TMP1(11, head, spp::exclude(A1(x), spp::Last{0}));
      SIM_TMP1(12, tail, spp::exclude(A1(x), spp::Pos{0}, spp::Count{1}));
      SIM_TMP2(13, tr, spp::transpose(A2(y)));
      SIM_TMP1(14, col0, spp::row_reduce(A2(y), first));
      SIM_TMP1(15, row0, spp::col_reduce(A2(y), first));
      SIM_TMP2(16, rows, spp::row_broadcast(A1(x)));
      SIM_TMP2(17, cols, spp::col_broadcast(A1(x)));
      SIM_TMP1(18, v, A1(x)(pl::all));
      SIM_TMP1(19, rev, A1(x)(pl::reverse));
      SIM_TMP1(20, v00, A1(x)({0}));
      SIM_TMP1(21, v00, static_cast<const A1&&>(A1(x))({0}));
      SIM_TMP1(22, v, static_cast<const A1&&>(A1(x))(pl::all));
      SIM_TMP1(23, v, A1(x).view1D());
      SIM_TMP2(24, one, A1(x).view2D(1, n));
      SIM_TMP1(25, row0, A2(y).row(0));
      SIM_TMP1(26, col0, A2(y).col(0));
      SIM_TMP2(27, w, A2(y).rows(pl::all));
      SIM_TMP2(28, w, A2(y).cols(pl::all));
      SIM_TMP2(29, w, A2(y)(pl::all, pl::all));
      SIM_TMP1(30, w.v, A2(y).view1D());
      SIM_TMP2(31, w, A2(y).view2D(w.r, w.c));
      SIM_TMP1(32, dia, A2(y).diag());
      SIM_TMP1(33, w.v, static_cast<const A2&&>(A2(y)).view1D());
      SIM_TMP1(34, row0, static_cast<const A2&&>(A2(y)).row(0));
      SIM_TMP1(35, v, spp::array_cast<T>(A1(x)));
      SIM_TMP2(36, w, spp::array_cast<T>(A2(y)));
      SIM_TMP1(37, m.f1, std::remove_cvref_t<decltype(f1)>(f1)(pl::all));
      SIM_TMP1(38, V{m.f1[0]}, std::remove_cvref_t<decltype(f1)>(f1)({0}));
      SIM_TMP2(39, build(1, 1, [&](long, long) { return w.at(0, 0); }), A2(y)({0}, {0}));
      SIM_TMP2(40, build(1, w.c, [&](long, long j) { return w.at(0, j); }), A2(y).rows({0}));
      SIM_TMP1(41, m.f1, +std::remove_cvref_t<decltype(f1)>(f1));
      SIM_TMP1(42, v, +A1(x));
      SIM_TMP2(43, w, +A2(y));
      SIM_TMP1(44, v, spp::in_cond_range(A1(x), all));
   default:
      break;
   }
   if constexpr(arith) {
      const S unit{T(1)};
      const V vo(v.size(), T(1));
      const V wo(w.v.size(), T(1));
      if(!bop_ok(2, v, vo, false) || !bop_ok(2, w.v, wo, false)) {
         return;
      }
      switch(how) {
         SIM_TMP1(45, v, A1(x) * unit);
         SIM_TMP1(46, v, unit * A1(x));
         SIM_TMP1(47, v, A1(x) * spp::const1D(n, unit));
         SIM_TMP1(48, v, spp::const1D(n, unit) * A1(x));
         SIM_TMP2(49, w, A2(y) * unit);
         SIM_TMP2(50, w, unit * A2(y));
         SIM_TMP2(51, cols, spp::tensor_prod(A1(x), A1(spp::const1D(n, unit))));
         SIM_TMP2(52, cols, spp::tensor_prod(A1(x), spp::const1D(n, unit)));
         SIM_TMP2(53, rows, spp::tensor_prod(spp::const1D(n, unit), A1(x)));
         SIM_TMP1(54, v, x * A1(spp::const1D(n, unit)));
         SIM_TMP1(55, v, A1(spp::const1D(n, unit)) * x);
      default:
         break;
      }
      if constexpr(spp::Floating<T>) {
         switch(how) {
            SIM_TMP1(56, v, spp::pow_prod(A1(x), spp::const1D(n, spp::Strict{1})).first);
            SIM_TMP1(57, v, spp::pow_prod(x, spp::Array1D<int>(n, spp::Strict{1})).first);
            SIM_TMP1(58, v, spp::two_prod(A1(x), spp::const1D(n, unit)).first);
            SIM_TMP1(59, v, spp::two_prod(spp::const1D(n, unit), A1(x)).first);
            SIM_TMP1(60, v, spp::fast_pow_int(A1(x), 1));
            SIM_TMP1(61, vo, spp::fast_pow_int(A1(x), 0));
         default:
            break;
         }
      } else {
         switch(how) {
            SIM_TMP1(56, v, S{T(0)} | A1(x));
            SIM_TMP1(57, v, spp::const1D(n, S{T(0)}) | A1(x));
            SIM_TMP1(58, v, A1(x) | S{T(0)});
            SIM_TMP1(59, v, A1(x) ^ spp::const1D(n, S{T(0)}));
         default:
            break;
         }
      }
   } else {
      const S no{T(0)}, yes{T(1)};
      switch(how) {
         SIM_TMP1(45, v, A1(x) && yes);
         SIM_TMP1(46, v, yes && A1(x));
         SIM_TMP1(47, v, A1(x) || spp::const1D(n, no));
         SIM_TMP1(48, v, spp::const1D(n, no) || A1(x));
         SIM_TMP1(49, v, A1(x) ^ no);
         SIM_TMP1(50, v, no ^ A1(x));
         SIM_TMP2(51, w, A2(y) && y);
         SIM_TMP2(52, w, y || A2(y));
         SIM_TMP2(53, w, y && A2(y)(pl::all, pl::all));
         SIM_TMP1(54, v, !!A1(x));
      default:
         break;
      }
   }
}
#undef SIM_TMP1
#undef SIM_TMP2
