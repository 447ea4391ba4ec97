// Iterators kept from step to step: one into each 1-D array (changing) and one into each 2-D array (reading).
using It1 = decltype(std::declval<A1&>().begin());
using It2 = decltype(std::declval<const A2&>().begin());
struct Kept {
   bool set1 = false, set2 = false;
   It1 i1{};
   It2 i2{};
   long p1 = 0, p2 = 0;
};
Kept kept[3];

static T of(const S& x) {
   return x.val();
}
template <class E>
   requires requires(const E& e) { e.un(0); }
static T of(const E& e) {
   return e.empty() ? T{} : S{e.un(0)}.val();
}
struct Walked {
   std::string wrong;
   void check(bool ok, const char* what, long p) {
      if(!ok && wrong.empty()) {
         alloc::Host h;
         wrong = std::string(what) + " at position " + std::to_string(p);
      }
   }
};
// Every comparison (and difference) of an iterator with itself.
template <class I>
static void related(const I& it, long op) {
   related(it, it, op);
}
// Every comparison of two.
template <class I>
static void related(const I& it, const I& jt, long op) {
   switch(op) {
   case 0:
      return (void)(it == jt);
   case 1:
      return (void)(it != jt);
   case 2:
      return (void)(it < jt);
   case 3:
      return (void)(it <= jt);
   case 4:
      return (void)(it > jt);
   case 5:
      return (void)(it >= jt);
   default:
      return (void)(it - jt);
   }
}
template <class G>
static bool refused(G&& g) {
   try {
      g();
   } catch(const spp::StrictException&) {
      return true;
   }
   return false;
}
// Walks an iterator that stands at position p of n, next to base (position 0), and compares everything it answers with
// the position. want(i): the element (or first element of the row or column) there; put(i, x): notes a change of it.
template <bool Write, class It, class Want, class Put>
void walk(It& it, long& p, const It& base, long n, Walked& r, Want&& want, Put&& put) {
   uint64_t h = mix2(static_cast<uint64_t>(A(3)), static_cast<uint64_t>(A(4)));
   auto next = [&](long k) {
      h = mix64(h);
      return static_cast<long>(h % static_cast<uint64_t>(k));
   };
   It jt = base;
   long q = 0;
   int steps = 4 + static_cast<int>(R(A(2), 12));
   for(int i = 0; i < steps; ++i) {
      long k = next(2 * n + 5) - n - 2;
      if(p + k < -n - 3 || p + k > 2 * n + 3) {
         k = -k;
      }
      switch(next(20)) {
      case 0:
         r.check(&++it == &it, "++", p);
         ++p;
         break;
      case 1: {
         It o = it++;
         r.check(o - base == p, "postfix ++", p);
         ++p;
         break;
      }
      case 2:
         r.check(&--it == &it, "--", p);
         --p;
         break;
      case 3: {
         It o = it--;
         r.check(o - base == p, "postfix --", p);
         --p;
         break;
      }
      case 4:
         it += k;
         p += k;
         break;
      case 5:
         it -= -k;
         p += k;
         break;
      case 6:
         it = it + k;
         p += k;
         break;
      case 7:
         it = k + it;
         p += k;
         break;
      case 8:
         it = it - -k;
         p += k;
         break;
      case 9:
         jt = it;
         q = p;
         break;
      case 10:
         jt = base + k;
         q = k;
         break;
      case 11:
         std::swap(it, jt);
         std::swap(p, q);
         break;
      case 12:
         it = base + next(n + 1);
         p = it - base;
         r.check(p >= 0 && p <= n, "difference", p);
         break;
      default:
         break;
      }
      r.check(it - jt == p - q && jt - it == q - p, "difference", p);
      r.check(it - base == p, "position", p);
      r.check((it == jt) == (p == q) && (it != jt) == (p != q) && (it < jt) == (p < q) && (it <= jt) == (p <= q)
                 && (it > jt) == (p > q) && (it >= jt) == (p >= q),
              "comparison", p);
      if(p >= 0 && p < n) {
         r.check(of(*it) == want(p), "element", p);
         if constexpr(std::is_lvalue_reference_v<decltype(*it)>) {
            r.check(it->val() == want(p), "element by arrow", p);
         }
         long t = next(n);
         r.check(of(it[t - p]) == want(t), "element by offset", t);
         if constexpr(Write) {
            if(next(3) == 0) {
               S x = sv(static_cast<int64_t>(h >> 20));
               switch(next(3)) {
               case 0:
                  *it = x;
                  put(p, x);
                  break;
               case 1:
                  it[t - p] = x;
                  put(t, x);
                  break;
               default:
                  *it++ = x;
                  put(p++, x);
               }
            }
         }
      } else {
         SIM_COUNT("fault.invalid_call");
         r.check(refused([&] { (void)of(*it); }), "an element outside was given", p);
         if constexpr(std::is_lvalue_reference_v<decltype(*it)>) {
            r.check(refused([&] { (void)it->val(); }), "an element outside was given by arrow", p);
         }
         long t = next(2) ? n + next(5) : -1 - next(5);
         r.check(refused([&] { (void)of(it[t - p]); }), "an element outside was given by offset", t);
      }
      if(!r.wrong.empty()) {
         return;
      }
   }
}
void walked(const Walked& r) {
   if(last_ok && !r.wrong.empty() && mode == Mode::Model) {
      bad("iterator", r.wrong);
   }
}
// Walks x from position p in one of the ways to get an iterator of it.
template <bool Write, class X, class Want, class Back, class Put, class Tup>
void ends(X& x, long how, long p, long n, Walked& r, Want&& want, Back&& back, Put&& put, Tup&& tup) {
   auto none = [](long, S) {};
   switch(how % 8) {
   case 0: {
      auto it = x.begin() + p;
      return walk<Write>(it, p, x.begin(), n, r, want, put);
   }
   case 1: {
      auto it = x.end() - (n - p);
      return walk<Write>(it, p, x.begin(), n, r, want, put);
   }
   case 2: {
      auto it = x.rbegin() + p;
      return walk<Write>(it, p, x.rbegin(), n, r, back, tup);
   }
   case 3: {
      auto it = x.rend() - (n - p);
      return walk<Write>(it, p, x.rbegin(), n, r, back, tup);
   }
   case 4: {
      auto it = x.cbegin() + p;
      return walk<false>(it, p, std::as_const(x).begin(), n, r, want, none);
   }
   case 5: {
      auto it = x.cend() - (n - p);
      return walk<false>(it, p, x.cbegin(), n, r, want, none);
   }
   case 6: {
      auto it = x.crbegin() + p;
      return walk<false>(it, p, std::as_const(x).rbegin(), n, r, back, none);
   }
   default: {
      auto it = x.crend() - (n - p);
      return walk<false>(it, p, x.crbegin(), n, r, back, none);
   }
   }
}
