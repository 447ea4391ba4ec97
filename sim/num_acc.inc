// Steps on data that is hard to sum: compensated algorithms and error metrics.

using Tail = std::vector<Wide>;
static Wide unit() {
   return scale(Wide(1), -digits<T>());
}
// A number of moderate size; few enough bits that sums and products of wide types stay exact.
static T moderate(uint64_t h, int spread) {
   T y = scale(mantissa<T>(h), static_cast<int>(h % static_cast<uint64_t>(2 * spread + 1)) - spread);
   if constexpr(is_quad<T>) {
      y = static_cast<T>(static_cast<float>(y));
   }
   return (mix64(h) & 1) != 0 ? -y : y;
}
void set_data(size_t s, const V& w) {
   A1 t(spp::Size{static_cast<long>(w.size())});
   for(size_t i = 0; i < w.size(); ++i) {
      t[static_cast<long>(i)] = S{w[i]};
   }
   p[s].resize_and_assign(t);
   pm[s] = w;
}

void do_ill() {
   if constexpr(is_flt<T>) {
      auto s = static_cast<size_t>(R(A(0), 3)), o = (s + 1) % 3;
      int style = static_cast<int>(R(A(1), 7));
      auto len = static_cast<size_t>(R(A(3), 4) == 0 ? R(A(2), 200) : R(A(2), 12));
      V w;
      Rng q(static_cast<uint64_t>(A(4)));
      switch(style) {
      case 0:
         for(size_t i = 0; i < len; ++i) {
            w.push_back(moderate(q.next(), 12));
         }
         break;
      case 1: // nearly everything cancels
      case 2:
         for(size_t i = 0; i < len; ++i) {
            T y = moderate(q.next(), style == 1 ? 12 : 2);
            w.push_back(y);
            w.push_back(-y);
         }
         w.push_back(scale(moderate(q.next(), 2), -digits<T>() / 2));
         for(size_t i = w.size(); i > 1; --i) {
            std::swap(w[i - 1], w[static_cast<size_t>(q.below(static_cast<int64_t>(i)))]);
         }
         break;
      case 3: { // a large number with many small ones
         T big = scale(T(1), digits<T>());
         w.push_back(big);
         for(size_t i = 0; i < len; ++i) {
            w.push_back(T(static_cast<int>(q.below(3)) + 1));
         }
         w.push_back(-big);
         break;
      }
      case 4: // products stay in range
         for(size_t i = 0; i < len; ++i) {
            w.push_back(moderate(q.next(), 0) * ((i & 1) != 0 ? T(1) : T(0.5)));
         }
         break;
      case 5: // nearly orthogonal to another one
         for(size_t i = 0; i < pm[o].size(); ++i) {
            w.push_back(i + 1 < pm[o].size() && (i & 1) == 0 ? pm[o][i + 1]
                        : (i & 1) != 0                       ? -pm[o][i - 1]
                                                             : scale(moderate(q.next(), 1), -12));
         }
         break;
      default: { // coefficients of (x - 1)^k
         long k = q.below(12);
         w.assign(static_cast<size_t>(k + 1), T(0));
         w[0] = T(1);
         for(long i = 0; i < k; ++i) {
            for(size_t j = static_cast<size_t>(i + 1); j > 0; --j) {
               w[j] = w[j - 1] - w[j];
            }
            w[0] = -w[0];
         }
         break;
      }
      }
      set_data(s, w);
   }
}

// Calls f(operand, its values) for data.
template <class F>
void data(int64_t form, size_t i, F f) {
   const V& w = pm[i];
   auto len = static_cast<long>(w.size());
   switch(R(form, 5)) {
   case 0:
   case 1:
      return f(p[i], w);
   case 2: {
      V v(w.rbegin(), w.rend());
      return f(p[i](pl::reverse), v);
   }
   case 3: {
      V v;
      for(T y : w) {
         v.push_back(y * T(2));
      }
      return f(p[i] * S{T(2)}, v);
   }
   default: {
      long k = len > 0 && len % 3 == 0 ? 3 : len > 0 ? 1 : 0;
      return f(std::as_const(p[i]).view2D(k, k ? len / k : 0), w);
   }
   }
}
void near(T got, Wide want, Wide tol, const std::string& what) const {
   Wide d = wabs(static_cast<Wide>(got) - want);
   if(!(d <= tol)) {
      bad("accuracy", what + " gives " + show(got) + " where " + show(want) + " is expected, " + show(d)
                         + " off where " + show(tol) + " is allowed");
   }
}
static Wide sum_of(const Tail& t, Wide& mag) {
   Wide s = 0;
   mag = 0;
   for(Wide y : t) {
      s += y;
      mag += wabs(y);
   }
   return s;
}
// Error bounds: working precision, compensated, in blocks.
static Wide slack(size_t k, Wide mag) {
   return mag * static_cast<Wide>(k + 4) * scale(Wide(1), -111) + scale(Wide(1), -(maxexp<T>() < 1000 ? 140 : 1000));
}
static Wide plain(size_t k, Wide mag) {
   return mag * static_cast<Wide>(k + 4) * unit() + slack(k, mag);
}
static Wide compensated(size_t k, Wide sum, Wide mag) {
   auto q = static_cast<Wide>(k + 4);
   return wabs(sum) * 3 * unit() + mag * 8 * q * q * unit() * unit() + slack(k, mag);
}

void do_accsum() {
   if constexpr(is_flt<T>) {
      int k = static_cast<int>(R(A(2), 8));
      data(A(0), static_cast<size_t>(R(A(1), 3)), [&](const auto& e, const V& w) {
         Tail t;
         for(T y : w) {
            t.push_back(k >= 5 ? wabs(static_cast<Wide>(y)) : static_cast<Wide>(y));
         }
         Wide mag, s = sum_of(t, mag);
         S got, dflt{T(3.5)};
         bool def = (A(3) & 1) != 0;
         act([&] {
            switch(k) {
            case 0:
            case 1:
               got = def ? spp::stable_sum(e, dflt) : spp::stable_sum(e);
               break;
            case 2:
               got = def ? spp::semi_stable_sum(e, dflt) : spp::semi_stable_sum(e);
               break;
            case 3:
               got = def ? spp::stable_mean(e, dflt) : spp::stable_mean(e);
               break;
            case 4:
               got = w.empty() ? S{def ? dflt : S{}} : spp::sum(e);
               break;
            case 5:
               got = def ? spp::stable_norm1(e, dflt) : spp::stable_norm1(e);
               break;
            case 6:
               got = def ? spp::stable_norm1_scaled(e, dflt) : spp::stable_norm1_scaled(e);
               break;
            default:
               got = w.empty() ? S{def ? dflt : S{}} : spp::norm1(e);
               break;
            }
         });
         static const char* const nm[] = {"stable_sum", "stable_sum", "semi_stable_sum", "stable_mean", "sum", "stable_norm1",
                                          "stable_norm1_scaled", "norm1"};
         size_t len = w.size();
         if(len == 0) {
            return eq(got.val(), def ? dflt.val() : T(0), std::string(nm[k]) + " of nothing");
         }
         bool scaled = k == 3 || k == 6;
         Wide d = scaled ? static_cast<Wide>(len) : Wide(1);
         Wide tol = k == 2 ? plain(140, mag) : k == 4 || k == 7 ? plain(len, mag) : compensated(len, s, mag);
         near(got.val(), s / d, tol / d + (scaled ? wabs(s / d) * unit() : Wide(0)), nm[k]);
         seen(mix2(hash_of(w), static_cast<uint64_t>(k)));
      });
   }
}

void do_accprod() {
   if constexpr(is_flt<T>) {
      bool stable = (A(2) & 1) != 0;
      data(A(0), static_cast<size_t>(R(A(1), 3)), [&](const auto& e, const V& w) {
         Wide q = 1;
         double range = 0;
         for(T y : w) {
            q *= static_cast<Wide>(y);
            range += std::fabs(std::log2(std::fabs(static_cast<double>(y))));
         }
         if(!(range < maxexp<T>() / 4)) { // overflow or underflow on the way
            return;
         }
         S got, dflt{T(2.5)};
         bool def = (A(3) & 1) != 0;
         act([&] {
            got = stable ? (def ? spp::stable_prod(e, dflt) : spp::stable_prod(e)) : w.empty() ? (def ? dflt : S{}) : spp::prod(e);
         });
         if(w.empty()) {
            return eq(got.val(), def ? dflt.val() : T(0), "product of nothing");
         }
         size_t len = w.size();
         near(got.val(), q, stable ? compensated(len, q, wabs(q)) : plain(len, wabs(q)), stable ? "stable_prod" : "prod");
         seen(mix2(hash_of(w), static_cast<uint64_t>(stable)));
      });
   }
}

void do_accdot() {
   if constexpr(is_flt<T>) {
      auto i = static_cast<size_t>(R(A(0), 3)), j = static_cast<size_t>(R(A(1), 3));
      int k = static_cast<int>(R(A(2), 5)), form = static_cast<int>(R(A(3), 3));
      if(k < 4 && R(A(4), 8) == 0 && pm[i].size() != pm[j].size()) {
         return refuse("a product of data of different sizes", [&] {
            if((k & 1) != 0) {
               (void)spp::stable_dot_prod(p[i], p[j]);
            } else {
               (void)spp::semi_stable_dot_prod(p[i], p[j]);
            }
         });
      }
      size_t len = std::min(pm[i].size(), pm[j].size());
      auto ln = static_cast<long>(len);
      Tail t;
      for(size_t l = 0; l < len; ++l) {
         size_t lj = form == 2 ? len - 1 - l : l;
         t.push_back(static_cast<Wide>(pm[i][l]) * static_cast<Wide>(pm[j][lj]));
      }
      Wide mag, s = sum_of(t, mag);
      S got, dflt{T(-4)};
      bool def = (A(5) & 1) != 0;
      auto run = [&](const auto& e, const auto& f) {
         act([&] {
            switch(k) {
            case 0:
            case 1:
               got = def ? spp::stable_dot_prod(e, f, dflt) : spp::stable_dot_prod(e, f);
               break;
            case 2:
               got = def ? spp::semi_stable_dot_prod(e, f, dflt) : spp::semi_stable_dot_prod(e, f);
               break;
            case 3:
               got = len == 0 ? (def ? dflt : S{}) : spp::dot_prod(e, f);
               break;
            default: { // the parts of all products, summed up
               auto tp = spp::two_prod(e, f);
               auto part = merge(tp.first, tp.second);
               got = def ? spp::stable_sum(part, dflt) : spp::stable_sum(part);
               break;
            }
            }
         });
      };
      auto u = p[i](spp::place::firstN{ln}), v = p[j](spp::place::firstN{ln});
      if(form == 0) {
         run(u, v);
      } else if(form == 1) {
         run(generate(u, [](auto y) { return y; }), v);
      } else {
         run(u, v(pl::reverse));
      }
      static const char* const nm[] = {"stable_dot_prod", "stable_dot_prod", "semi_stable_dot_prod", "dot_prod", "two_prod"};
      if(len == 0) {
         return eq(got.val(), def ? dflt.val() : T(0), std::string(nm[k]) + " of nothing");
      }
      near(got.val(), s, k == 2 ? plain(142, mag) : k == 3 ? plain(len + 1, mag) : compensated(2 * len, s, mag), nm[k]);
      seen(mix2(mix2(hash_of(pm[i]), hash_of(pm[j])), static_cast<uint64_t>(k)));
   }
}

void do_accnorm() {
   if constexpr(is_flt<T>) {
      int k = static_cast<int>(R(A(2), 8));
      long lp = R(A(3), 8) + 1;
      data(A(0), static_cast<size_t>(R(A(1), 3)), [&](const auto& e, const V& w) {
         size_t len = w.size();
         bool two = k < 3;
         long q = two ? 2 : lp;
         Tail t;
         for(T y : w) {
            Wide z = 1;
            for(long l = 0; l < q; ++l) {
               z *= wabs(static_cast<Wide>(y));
            }
            t.push_back(z);
         }
         Wide mag, s = sum_of(t, mag);
         if(!w.empty() && !(s < scale(Wide(1), maxexp<T>() / 2) && s > scale(Wide(1), -maxexp<T>() / 2))) {
            return;
         }
         S got, dflt{T(6)};
         bool def = (A(4) & 1) != 0;
         act([&] {
            switch(k) {
            case 0:
               got = def ? spp::stable_norm2(e, dflt) : spp::stable_norm2(e);
               break;
            case 1:
               got = def ? spp::stable_norm2_scaled(e, dflt) : spp::stable_norm2_scaled(e);
               break;
            case 2:
               got = len == 0 ? (def ? dflt : S{}) : spp::norm2(e);
               break;
            case 3:
            case 4:
               got = def ? spp::stable_norm_lp(e, lp, dflt) : spp::stable_norm_lp(e, lp);
               break;
            case 5:
            case 6:
               got = def ? spp::stable_norm_lp_scaled(e, lp, dflt) : spp::stable_norm_lp_scaled(e, lp);
               break;
            default:
               got = len == 0 ? (def ? dflt : S{}) : spp::norm_lp(e, lp);
               break;
            }
         });
         static const char* const nm[] = {"stable_norm2", "stable_norm2_scaled", "norm2", "stable_norm_lp", "stable_norm_lp",
                                          "stable_norm_lp_scaled", "stable_norm_lp_scaled", "norm_lp"};
         std::string what = std::string(nm[k]) + " (" + std::to_string(q) + ")";
         if(len == 0) {
            return eq(got.val(), def ? dflt.val() : T(0), what + " of nothing");
         }
         bool scaled = k == 1 || k == 5 || k == 6;
         Wide z = 1;
         for(long l = 0; l < q; ++l) {
            z *= static_cast<Wide>(got.val());
         }
         z = scaled ? z * static_cast<Wide>(len) : z;
         // Error of the sum, of the root (of a rounded exponent) and of taking it back.
         bool stable = k != 2 && k != 7;
         Wide es = stable ? compensated(2 * len, s, mag) + slack(static_cast<size_t>(q) * len, mag) : plain(len + static_cast<size_t>(q), mag);
         auto ln = static_cast<Wide>(std::fabs(std::log(static_cast<double>(s))) + std::log(static_cast<double>(len)));
         Wide er = s * unit() * (two ? Wide(12) : static_cast<Wide>(8 * q) + 2 * ln + 8);
         if(wabs(z - s) > es + er) {
            bad("accuracy", what + " gives " + show(got.val()) + ": to the power of " + std::to_string(q) + " that is " + show(z)
                               + " where " + show(s) + " is expected");
         }
         seen(mix2(hash_of(w), static_cast<uint64_t>(k * 16 + lp)));
      });
   }
}

void do_accpoly() {
   if constexpr(is_flt<T>) {
      auto i = static_cast<size_t>(R(A(0), 3)), j = static_cast<size_t>(R(A(1), 3));
      int k = static_cast<int>(R(A(2), 5));
      size_t len = std::min<size_t>(pm[i].size(), 13);
      if(k == 3) {
         len = std::min(len, pm[j].size());
      }
      auto ln = static_cast<long>(len);
      uint64_t h = mix64(static_cast<uint64_t>(A(3)));
      T z = (h & 1) != 0 ? T(1) + scale(mantissa<T>(h), -static_cast<int>(h % 12) - 3) : scale(mantissa<T>(h), static_cast<int>(h % 3) - 1);
      if constexpr(is_quad<T>) {
         z = static_cast<T>(static_cast<float>(z));
      }
      z = (h & 16) != 0 ? -z : z;
      // Exponents: 0, 1, 2, ... or any.
      std::vector<int> pw;
      spp::Array1D<int> ip(spp::Size{ln});
      for(long l = 0; l < ln; ++l) {
         int e = k == 1 || k == 3 ? static_cast<int>(mix64(h + static_cast<uint64_t>(l)) % 11) : static_cast<int>(l);
         pw.push_back(e);
         ip[l] = spp::StrictInt{e};
      }
      Tail t;
      double top = 0;
      for(size_t l = 0; l < len; ++l) {
         auto y = static_cast<Wide>(k == 3 ? pm[j][l] : z);
         auto q = static_cast<Wide>(pm[i][l]);
         for(int e = 0; e < pw[l]; ++e) {
            q *= y;
         }
         top = std::max(top, std::fabs(std::log2(std::fabs(static_cast<double>(y)))) * pw[l]);
         t.push_back(q);
      }
      if(!(top < maxexp<T>() / 4)) {
         return;
      }
      Wide mag, s = sum_of(t, mag);
      S got, dflt{T(7)}, sz{z};
      bool def = (A(4) & 1) != 0;
      auto co = p[i](spp::place::firstN{ln}), xs = p[j](spp::place::firstN{k == 3 ? ln : 0});
      if(k == 3 && R(A(5), 8) == 0 && ln > 0) {
         ip[ln - 1] = spp::StrictInt{-1 - static_cast<int>(R(A(5) / 8, 3))};
         return refuse("a negative power", [&] { (void)spp::stable_gpolynomial(co, xs, ip); });
      }
      act([&] {
         switch(k) {
         case 0:
         case 4:
            got = def ? spp::stable_polynomial(co, sz, dflt) : spp::stable_polynomial(co, sz);
            break;
         case 1:
            got = def ? spp::stable_polynomial(co, sz, ip, dflt) : spp::stable_polynomial(co, sz, ip);
            break;
         case 2:
            got = len == 0 ? (def ? dflt : S{}) : spp::polynomial(co, sz);
            break;
         default:
            got = def ? spp::stable_gpolynomial(co, xs, ip, dflt) : spp::stable_gpolynomial(co, xs, ip);
            break;
         }
      });
      static const char* const nm[] = {"stable_polynomial", "stable_polynomial (powers)", "polynomial", "stable_gpolynomial", "stable_polynomial"};
      if(len == 0) {
         return eq(got.val(), def ? dflt.val() : T(0), std::string(nm[k]) + " of nothing");
      }
      near(got.val(), s, k == 2 ? plain(2 * len + 4, mag) : compensated(2 * len + 24, s, mag), nm[k]);
      seen(mix2(mix2(hash_of(pm[i]), bits(z)), static_cast<uint64_t>(k)));
   }
}

void do_accerr() {
   if constexpr(is_flt<T>) {
      int i = reg(0), j = reg(1), k = static_cast<int>(R(A(2), 9));
      auto s = static_cast<size_t>(R(A(3), 3)), o = static_cast<size_t>(R(A(4), 3));
      // Numbers close to each other half of the time.
      T u = m[i], v = (A(5) & 1) != 0 ? m[j] : m[i] + m[i] * extreme<T>(3) * T(static_cast<int>(R(A(5) / 2, 400)) - 200);
      auto ord = [](T y) { return y == y && absolute(y) < extreme<T>(0) / T(4); };
      T eps = extreme<T>(3), tol = T(100) * eps, nz = tol;
      bool given = (A(5) & 4096) != 0;
      if(given) {
         tol = scale(T(1), -static_cast<int>(R(A(6), 60)));
         nz = scale(T(1), -static_cast<int>(R(A(6) / 60, 20)));
      }
      // The decision: -1 no, 1 yes, 0 too close to call.
      auto decide = [&](T y, T bound) { return y <= bound * (T(1) - T(8) * eps) || bound == y ? 1 : y > bound * (T(1) + T(8) * eps) ? -1 : 0; };
      auto abs_ok = [&](T y, T z) { return decide(absolute(y - z), tol); };
      auto rel_ok = [&](T y, T z) {
         T top = std::max(absolute(y), absolute(z));
         return top <= nz ? 1 : decide(absolute(y - z) / top, tol);
      };
      const V& w = am[s];
      const V& q = am[o];
      SB f;
      S got;
      int want = 1;
      switch(k) {
      case 8: { // lists
         if(!ord(u) || !ord(v)) {
            return;
         }
         int form = static_cast<int>(R(A(3) / 3, 10));
         bool two = (A(4) / 3 & 1) != 0, rel = form % 2 == 1;
         want = rel ? std::min(rel_ok(u, v), rel_ok(v, v)) : std::min(abs_ok(u, v), abs_ok(v, v));
         act([&] {
            spp::Array1D<T> p{S{u}, S{v}}, none;
            spp::Array2D<T> p2(1, 2), none2;
            p2 = p.view2D(1, 2);
            switch(form) {
            case 0:
               f = given ? spp::within_tol_abs(p, {S{v}, S{v}}, S{tol}) : spp::within_tol_abs(p, {S{v}, S{v}});
               break;
            case 1:
               f = given ? spp::within_tol_rel(p, {S{v}, S{v}}, S{tol}, S{nz}) : spp::within_tol_rel(p, {S{v}, S{v}});
               break;
            case 2:
               f = given ? spp::within_tol_abs({S{v}, S{v}}, p, S{tol}) : spp::within_tol_abs({S{v}, S{v}}, p);
               break;
            case 3:
               f = given ? spp::within_tol_rel({S{v}, S{v}}, p, S{tol}, S{nz}) : spp::within_tol_rel({S{v}, S{v}}, p);
               break;
            case 4:
               f = given ? spp::within_tol_abs(p2, {{S{v}, S{v}}}, S{tol}) : spp::within_tol_abs(p2, {{S{v}, S{v}}});
               break;
            case 5:
               f = given ? spp::within_tol_rel(p2, {{S{v}, S{v}}}, S{tol}, S{nz}) : spp::within_tol_rel(p2, {{S{v}, S{v}}});
               break;
            case 6:
               f = given ? spp::within_tol_abs({{S{v}, S{v}}}, p2, S{tol}) : spp::within_tol_abs({{S{v}, S{v}}}, p2);
               break;
            case 7:
               f = given ? spp::within_tol_rel({{S{v}, S{v}}}, p2, S{tol}, S{nz}) : spp::within_tol_rel({{S{v}, S{v}}}, p2);
               break;
            case 8: {
               const spp::use::List1D<S> l{};
               f = two ? (given ? spp::within_tol_abs(none, l, S{tol}) : spp::within_tol_abs(none, l))
                       : (given ? spp::within_tol_abs(l, none, S{tol}) : spp::within_tol_abs(l, none));
               want = -1;
               break;
            }
            default: {
               const spp::use::List1D<S> l{};
               f = two ? (given ? spp::within_tol_rel(none, l, S{tol}, S{nz}) : spp::within_tol_rel(none, l))
                       : (given ? spp::within_tol_rel(l, none, S{tol}, S{nz}, spp::true_sb) : spp::within_tol_rel(l, none));
               want = !two && given ? 1 : -1;
               break;
            }
            }
         });
         break;
      }
      case 0:
         act([&] { got = spp::abs_error(S{u}, S{v}); });
         return put(reg(7), got, absolute(u - v), "abs_error");
      case 1: {
         std::optional<S> r;
         act([&] { r = spp::rel_error(S{u}, S{v}); });
         bool some = u != T(0) && v != T(0);
         eq(r.has_value(), some, "whether there is a relative error of " + show(u) + ", " + show(v));
         if(some) {
            put(reg(7), *r, absolute((u - v) / v), "rel_error");
         }
         return;
      }
      case 2:
      case 3:
         if(!ord(u) || !ord(v)) {
            return;
         }
         want = k == 2 ? abs_ok(u, v) : rel_ok(u, v);
         act([&] {
            f = k == 2 ? (given ? spp::within_tol_abs(S{u}, S{v}, S{tol}) : spp::within_tol_abs(S{u}, S{v}))
                       : (given ? spp::within_tol_rel(S{u}, S{v}, S{tol}, S{nz}) : spp::within_tol_rel(S{u}, S{v}));
         });
         break;
      case 4:
      case 5:
         for(size_t l = 0; l < w.size(); ++l) {
            if(!ord(w[l]) || !ord(q[l])) {
               return;
            }
            int d = k == 4 ? abs_ok(w[l], q[l]) : rel_ok(w[l], q[l]);
            want = std::min(want, d);
         }
         if(w.empty()) {
            want = -1;
         }
         act([&] {
            f = k == 4 ? (given ? spp::within_tol_abs(a[s], a[o], S{tol}) : spp::within_tol_abs(a[s], a[o]))
                       : (given ? spp::within_tol_rel(a[s], a[o], S{tol}, S{nz}) : spp::within_tol_rel(a[s], a[o]));
         });
         break;
      case 6: {
         T top = T(0);
         for(size_t l = 0; l < w.size(); ++l) {
            if(!ord(w[l]) || !ord(q[l])) {
               return;
            }
            top = std::max(top, absolute(w[l] - q[l]));
         }
         act([&] { got = spp::max_abs_error(a[s], a[o]); });
         eq(got.val(), w.empty() ? T(1) : top, "max_abs_error");
         return seen(mix2(hash_of(w), hash_of(q)));
      }
      default: {
         T top = T(0);
         bool some = true;
         for(size_t l = 0; l < w.size(); ++l) {
            if(!ord(w[l]) || !ord(q[l])) {
               return;
            }
            some = some && w[l] != T(0) && q[l] != T(0);
            T e = q[l] == T(0) ? T(0) : absolute((w[l] - q[l]) / q[l]);
            top = std::max(top, e);
         }
         std::optional<S> r;
         act([&] { r = spp::max_rel_error(a[s], a[o]); });
         eq(r.has_value(), some, "whether there is a largest relative error");
         if(some) {
            eq(r->val(), w.empty() ? T(1) : top, "max_rel_error");
         }
         return seen(mix2(hash_of(w), hash_of(q)));
      }
      }
      if(want != 0) {
         eq(f.val(), want > 0, k < 4 ? "tolerance of " + show(u) + ", " + show(v) : std::string("tolerance of arrays"));
      }
      seen(mix2(mix2(bits(u), bits(v)), static_cast<uint64_t>(k)));
   }
}
