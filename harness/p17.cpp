// P17: reductions equal their definition over all elements, exactly once each.
#include "operands.hpp"
using namespace h;
using namespace spp;
#ifdef STRICT_QUAD_PRECISION
extern "C" __float128 powq(__float128, __float128);
extern "C" __float128 sqrtq(__float128);
#endif
using W = __float128;

template <class T> constexpr bool FL = !std::is_integral_v<T>;
template <class T> struct Lim {   // numeric_limits is not specialised for float128 by gcc 13
   static W eps() { return W(std::numeric_limits<T>::epsilon()); }
   static W min() { return W(std::numeric_limits<T>::min()); }
   static W max() { return W(std::numeric_limits<T>::max()); }
};
template <> struct Lim<W> {
   static W eps() { return W(__builtin_ldexpl(1, -112)); }
   static W min() { return W(__builtin_ldexpl(1, -16380)); }
   static W max() { return W(__builtin_ldexpl(1, 16380)); }
};
template <class T> W unit() { return Lim<T>::eps(); }
template <class T> W absw(T x) { return x < 0 ? -W(x) : W(x); }
// Room for the oracle's own rounding when T is as wide as W.
inline std::string shw(W x) { return show((long double)x); }

template <class T> void near(Strict<T> got, W want, W bound, const char* f, const std::string& a) {
   W d = W(got.val()) - want;
   if(d < 0) d = -d;
   CHECK(d <= bound, str("value ", f), f, a, " = ", show(got.val()), " expected ", shw(want), " +- ", shw(bound));
   ev(f);
}
template <class T> void is(Strict<T> got, T want, const char* f, const std::string& a) {
   CHECK(same<T>(got.val(), want), str("value ", f), f, a, " = ", show(got.val()), " expected ", show(want));
   ev(f);
}

// Elements: exactly representable small numbers, numbers spanning magnitudes, or repeated extremes.
template <class T> T elem(Rng& r, int style) {
   if constexpr(FL<T>) {
      switch(style) {
      case 0: return T(r.in(-40, 40));
      case 1: return T(std::ldexp((long double)(r.in(-1000000, 1000000)), int(r.in(-30, 10))));
      case 2: return T(r.unit()) * T(r.in(-9, 9));
      default: return r.pick({T(-3), T(0), -T(0), T(7), T(7), T(0.125)});
      }
   } else if constexpr(std::is_unsigned_v<T>) {
      switch(style) {
      case 0: return T(r.in(0, 40));
      case 1: return T(r.next());
      case 2: return T(std::numeric_limits<T>::max() - T(r.in(0, 3)));
      default: return r.pick({T(0), T(3), T(7), T(7)});
      }
   } else {
      switch(style) {
      case 0: return T(r.in(-40, 40));
      case 1: return T(r.in(-3000, 3000));
      case 2: return T(r.in(-2, 2));
      default: return r.pick({T(-3), T(0), T(7), T(7)});
      }
   }
}

template <class T> T ipow(T x, i64 p) {
   T y = 1;
   for(i64 i = 0; i < p; ++i) y = T(y * x);
   return y;
}

// All reductions that do not depend on the dimension.
template <class A, class T> void common(Rng& r, const A& a, const std::vector<T>& v, const std::string& s) {
   i64 n = i64(v.size());
   T dflt = T(r.in(1, 90));
   bool give = r.chance(50);
   auto D = S<T>(dflt);
   if(n == 0) {
      auto e = [&](Strict<T> x, Strict<T> y, const char* f) {
         CHECK(x.val() == T{}, str("empty ", f), f, " of empty = ", show(x.val()));
         CHECK(y.val() == dflt, str("empty-default ", f), f, " of empty with default ", show(dflt), " = ", show(y.val()));
         ev(str("empty ", f));
      };
      e(sum(a), sum(a, D), "sum");
      e(prod(a), prod(a, D), "prod");
      e(spp::min(a), spp::min(a, D), "min");
      e(spp::max(a), spp::max(a, D), "max");
      e(dot_prod(a, a), dot_prod(a, a, D), "dot_prod");
      if constexpr(FL<T>) {
         e(mean(a), mean(a, D), "mean");
         e(norm_inf(a), norm_inf(a, D), "norm_inf");
         e(norm1(a), norm1(a, D), "norm1");
         e(norm1_scaled(a), norm1_scaled(a, D), "norm1_scaled");
         e(norm2(a), norm2(a, D), "norm2");
         e(norm2_scaled(a), norm2_scaled(a, D), "norm2_scaled");
         e(norm_lp(a, 3), norm_lp(a, 3, D), "norm_lp");
         e(norm_lp_scaled(a, 3), norm_lp_scaled(a, 3, D), "norm_lp_scaled");
      }
      return;
   }
   auto opt = [&](auto f) { return give ? f(D) : f(Strict<T>{}); };
   T mn = v[0], mx = v[0];
   for(T x : v) {
      if(x < mn) mn = x;
      if(x > mx) mx = x;
   }
   is<T>(opt([&](auto d) { return spp::min(a, d); }), mn, "min", s);
   is<T>(opt([&](auto d) { return spp::max(a, d); }), mx, "max", s);
   if constexpr(!FL<T>) {
      T t = 0, p = 1, q = 0;
      bool pok = true;
      for(T x : v) {
         t = T(t + x);
         if constexpr(std::is_signed_v<T>) pok = pok && !__builtin_mul_overflow(p, x, &p);
         else p = T(p * x);
         q = T(q + x * x);
      }
      is<T>(opt([&](auto d) { return sum(a, d); }), t, "sum", s);
      if(pok) is<T>(opt([&](auto d) { return prod(a, d); }), p, "prod", s);
      is<T>(opt([&](auto d) { return dot_prod(a, a, d); }), q, "dot_prod", s);
   } else {
      W u = unit<T>(), t = 0, ta = 0, p = 1, q = 0, ninf = 0;
      for(T x : v) {
         t += W(x), ta += absw(x), p *= W(x), q += W(x) * W(x);
         if(absw(x) > ninf) ninf = absw(x);
      }
      W k = W(n + 4) * u;
      near<T>(opt([&](auto d) { return sum(a, d); }), t, k * ta, "sum", s);
      W tiny = Lim<T>::min();
      if(absw(p) < Lim<T>::max() / 4 && absw(p) > tiny * 4 && n < 12) near<T>(opt([&](auto d) { return prod(a, d); }), p, k * absw(p), "prod", s);
      near<T>(opt([&](auto d) { return mean(a, d); }), t / W(n), k * ta / W(n), "mean", s);
      near<T>(opt([&](auto d) { return dot_prod(a, a, d); }), q, k * q, "dot_prod", s);
      near<T>(opt([&](auto d) { return norm_inf(a, d); }), ninf, 0, "norm_inf", s);
      near<T>(opt([&](auto d) { return norm1(a, d); }), ta, k * ta, "norm1", s);
      near<T>(opt([&](auto d) { return norm1_scaled(a, d); }), ta / W(n), k * ta / W(n), "norm1_scaled", s);
#ifdef STRICT_QUAD_PRECISION
      auto root = [&](W x, int lp) { return lp == 2 ? sqrtq(x) : powq(x, W(1) / W(lp)); };
#else
      auto root = [&](W x, int lp) { return W(lp == 2 ? std::sqrt((long double)x) : std::pow((long double)x, 1.0L / lp)); };
#endif
      W n2 = root(q, 2), rn = root(W(n), 2);
      near<T>(opt([&](auto d) { return norm2(a, d); }), n2, k * n2, "norm2", s);
      near<T>(opt([&](auto d) { return norm2_scaled(a, d); }), n2 / rn, k * n2 / rn, "norm2_scaled", s);
      int lp = int(r.in(1, 5));
      W l = 0;
      for(T x : v) {
         W y = 1;
         for(int i = 0; i < lp; ++i) y *= absw(x);
         l += y;
      }
      if(l < Lim<T>::max() / 4 && (l == 0 || l > tiny * 1e6)) {
         W nl = root(l, lp), sc = root(W(n), lp);
         W lg = std::fabs(std::log((long double)(l > 0 ? l : W(1)))) + 1;
         W b = (W(n + 8 + 2 * lp) + 4 * lg) * u;
         near<T>(opt([&](auto d) { return norm_lp(a, lp, d); }), nl, b * nl, "norm_lp", s);
         near<T>(opt([&](auto d) { return norm_lp_scaled(a, lp, d); }), nl / sc, (b + 16 * u) * nl / sc, "norm_lp_scaled", s);
      }
   }
}

template <class T> std::vector<T> values(Rng& r, i64 n) {
   int st = int(r.below(4));
   std::vector<T> v;
   for(i64 i = 0; i < n; ++i) v.push_back(elem<T>(r, st));
   if(n && r.chance(25))
      for(auto& x : v) x = v[0];   // all equal
   return v;
}

template <class T> void one(Case& c) {
   Rng& r = c.r;
   i64 n = r.chance(8) ? r.in(100, 600) : rsize(r, 40);
   if(r.chance(10)) n = 7;
   auto v = values<T>(r, n);
   c.note(str("1D n=", n));
   std::string s = n <= 40 ? str("(", show(v), ")") : str("(n=", n, ")");
   any1<T>(r, v, all1{}, [&](auto& a) {
      common(r, a, v, s);
      auto [i, x] = min_index(a);
      auto [j, y] = max_index(a);
      if(n == 0) {
         CHECK(i.val() == -1 && j.val() == -1 && x.val() == T{} && y.val() == T{}, "empty min_index", "min_index/max_index of empty: ", i.val(), " ", j.val());
         auto d = min_index(a, {ix(5), S<T>(T(9))});
         auto e = max_index(a, {ix(6), S<T>(T(8))});
         CHECK(d.first.val() == 5 && d.second.val() == T(9) && e.first.val() == 6 && e.second.val() == T(8), "empty-default min_index", "default of min_index/max_index not returned");
         ev("empty min_index");
         return;
      }
      size_t mi = 0, ma = 0;
      for(size_t k = 1; k < v.size(); ++k) {
         if(v[k] < v[mi]) mi = k;
         if(v[k] > v[ma]) ma = k;
      }
      CHECK(i.val() == i64(mi) && same<T>(x.val(), v[mi]), "value min_index", "min_index", s, " = ", i.val(), ",", show(x.val()), " expected ", mi);
      CHECK(j.val() == i64(ma) && same<T>(y.val(), v[ma]), "value max_index", "max_index", s, " = ", j.val(), ",", show(y.val()), " expected ", ma);
      ev("min_index"), ev("max_index");
   });
   c.nontrivial = n > 1;
}
template <class T> void two(Case& c) {
   Rng& r = c.r;
   i64 nr = rsize(r, 14), nc = nr ? r.in(1, 14) : 0;
   if(r.chance(12)) nr = 3, nc = 4;
   auto v = values<T>(r, nr * nc);
   Mat<T> m(nr, nc);
   m.d = v;
   c.note(str("2D ", nr, "x", nc));
   std::string s = nr * nc <= 60 ? str("(", nr, "x", nc, " ", show(v), ")") : str("(", nr, "x", nc, ")");
   any2<T>(r, m, all2{}, [&](auto& a) {
      common(r, a, v, s);
      auto [i, j, x] = min_index(a);
      auto [k, l, y] = max_index(a);
      if(v.empty()) {
         CHECK(i.val() == -1 && j.val() == -1 && k.val() == -1 && l.val() == -1 && x.val() == T{} && y.val() == T{}, "empty min_index 2D", "positions of empty");
         auto [d, e, f] = min_index(a, {ix(3), ix(4), S<T>(T(9))});
         auto [d2, e2, f2] = max_index(a, {ix(5), ix(6), S<T>(T(8))});
         CHECK(d.val() == 3 && e.val() == 4 && f.val() == T(9) && d2.val() == 5 && e2.val() == 6 && f2.val() == T(8), "empty-default min_index 2D", "default not returned");
         ev("empty min_index 2D");
         return;
      }
      i64 mi = 0, ma = 0;
      for(i64 q = 1; q < i64(v.size()); ++q) {
         if(v[size_t(q)] < v[size_t(mi)]) mi = q;
         if(v[size_t(q)] > v[size_t(ma)]) ma = q;
      }
      CHECK(i.val() * nc + j.val() == mi && j.val() < nc && same<T>(x.val(), v[size_t(mi)]), "value min_index 2D", "min_index", s, " = ", i.val(), ",", j.val(), " expected ", mi / nc, ",", mi % nc);
      CHECK(k.val() * nc + l.val() == ma && l.val() < nc && same<T>(y.val(), v[size_t(ma)]), "value max_index 2D", "max_index", s, " = ", k.val(), ",", l.val(), " expected ", ma / nc, ",", ma % nc);
      ev("min_index 2D"), ev("max_index 2D");
   });
   c.nontrivial = v.size() > 1;
}

// Dot product of two different operands and polynomials.
template <class T> void twoops(Case& c) {
   Rng& r = c.r;
   i64 n = r.chance(10) ? 7 : rsize(r, 30);
   auto v = values<T>(r, n), w = values<T>(r, n);
   c.note(str("ops n=", n));
   c.nontrivial = n > 0;
   std::string s = str("(", show(v), ",", show(w), ")");
   T dflt = T(r.in(1, 90));
   pair1<T>(r, v, w, pairs1{}, [&](auto& a, auto& b) {
      Strict<T> got = dot_prod(a, b, S<T>(dflt));
      if(n == 0) return is<T>(got, dflt, "empty dot_prod2", s);
      if constexpr(FL<T>) {
         W q = 0, qa = 0;
         for(size_t i = 0; i < v.size(); ++i) q += W(v[i]) * W(w[i]), qa += absw(v[i]) * absw(w[i]);
         near<T>(got, q, W(n + 4) * unit<T>() * qa + W(n) * Lim<T>::min(), "dot_prod2", s);
      } else {
         T q = 0;
         for(size_t i = 0; i < v.size(); ++i) q = T(q + v[i] * w[i]);
         is<T>(got, q, "dot_prod2", s);
      }
   });
   if(r.chance(40)) {
      Mat<T> ma(0, 0), mb(0, 0);
      i64 nr = rsize(r, 8), nc = nr ? r.in(1, 8) : 0;
      if(r.chance(15)) nr = 3, nc = 4;
      ma = Mat<T>(nr, nc), mb = Mat<T>(nr, nc);
      ma.d = values<T>(r, nr * nc), mb.d = values<T>(r, nr * nc);
      pair2<T>(r, ma, mb, pairs2{}, [&](auto& a, auto& b) {
         Strict<T> got = dot_prod(a, b, S<T>(dflt));
         std::string t = str("(", show(ma), ",", show(mb), ")");
         if(nr == 0) return is<T>(got, dflt, "empty dot_prod 2D", t);
         if constexpr(FL<T>) {
            W q = 0, qa = 0;
            for(size_t i = 0; i < ma.d.size(); ++i) q += W(ma.d[i]) * W(mb.d[i]), qa += absw(ma.d[i]) * absw(mb.d[i]);
            near<T>(got, q, W(nr * nc + 4) * unit<T>() * qa + W(nr * nc) * Lim<T>::min(), "dot_prod 2D", t);
         } else {
            T q = 0;
            for(size_t i = 0; i < ma.d.size(); ++i) q = T(q + ma.d[i] * mb.d[i]);
            is<T>(got, q, "dot_prod 2D", t);
         }
      });
   }
}

template <class T> void poly(Case& c) {
   Rng& r = c.r;
   i64 n = r.chance(10) ? 7 : rsize(r, 12);
   if(n > 12) n = 12;
   constexpr bool un = std::is_unsigned_v<T>;
   auto small = [&](i64 b) -> T {
      if constexpr(FL<T>) return r.chance(50) ? T(r.in(-b, b)) : T(r.in(-b * 64, b * 64)) / T(48);
      else if constexpr(un) return r.chance(30) ? T(r.next()) : T(r.in(0, b));
      else return T(r.in(-b, b));
   };
   std::vector<T> co, X;
   std::vector<int> pw;
   std::vector<long> pl;
   i64 maxp = std::is_same_v<T, int> ? 12 : 14;
   for(i64 i = 0; i < n; ++i) {
      co.push_back(small(9));
      X.push_back(small(std::is_same_v<T, int> ? 4 : 5));
      pw.push_back(int(r.in(0, maxp)));
      pl.push_back(pw.back());
   }
   T x = small(std::is_same_v<T, int> ? 4 : 5);   // |9 * 4^12 * 12| < 2^31
   if constexpr(std::is_same_v<T, int>) {
      for(auto& p : pw) p = std::min(p, 11);
      for(size_t i = 0; i < pl.size(); ++i) pl[i] = pw[i];
   }
   T dflt = T(r.in(1, 90));
   c.note(str("poly n=", n));
   c.nontrivial = n > 1;
   std::string s = str("(", show(co), " x=", show(x), " X=", show(X), " p=", show(pw), ")");
   auto powT = [](T b, i64 p) { return ipow<T>(b, p); };
   auto verify = [&](Strict<T> got, const char* f, auto base, auto power, i64 terms) {
      if(terms == 0) return is<T>(got, dflt, str("empty ", f).c_str(), s);
      if constexpr(FL<T>) {
         W t = 0, ta = 0;
         for(i64 i = 0; i < terms; ++i) {
            W y = 1, b = W(base(i));
            for(i64 k = 0; k < power(i); ++k) y *= b;
            y *= W(co[size_t(i)]);
            t += y, ta += absw(y);
         }
         near<T>(got, t, W(2 * terms + 40) * unit<T>() * ta, f, s);
      } else {
         T t = 0;
         for(i64 i = 0; i < terms; ++i) t = T(t + T(co[size_t(i)] * powT(base(i), power(i))));
         is<T>(got, t, f, s);
      }
   };
   any1<T>(r, co, kinds<0, 3, 4, 7>{}, [&](auto& a) {
      verify(polynomial(a, S<T>(x), S<T>(dflt)), "polynomial", [&](i64) { return x; }, [](i64 i) { return i; }, n);
      any1<int>(r, pw, kinds<0, 2, 4, 7>{}, [&](auto& p) {
         verify(polynomial(a, S<T>(x), p, S<T>(dflt)), "polynomial powers", [&](i64) { return x; }, [&](i64 i) { return i64(pw[size_t(i)]); }, n);
         any1<T>(r, X, kinds<1, 4, 7>{}, [&](auto& xx) {
            verify(gpolynomial(a, xx, p, S<T>(dflt)), "gpolynomial", [&](i64 i) { return X[size_t(i)]; }, [&](i64 i) { return i64(pw[size_t(i)]); }, n);
         });
      });
      any1<long>(r, pl, kinds<0, 5>{}, [&](auto& p) {
         verify(polynomial(a, S<T>(x), p, S<T>(dflt)), "polynomial long powers", [&](i64) { return x; }, [&](i64 i) { return i64(pw[size_t(i)]); }, n);
      });
   });
}

#ifdef STRICT_QUAD_PRECISION
using types = std::tuple<float128, double>;
#else
using types = std::tuple<int, long, unsigned, unsigned long, float, double, long double>;
#endif
constexpr int NT = std::tuple_size_v<types>;

int main(int argc, char** argv) {
   return h::run(argc, argv, [](Case& c) {
      dispatch<4 * NT>(c, []<int K>(Case& c) {
         using T = std::tuple_element_t<K % NT, types>;
         if constexpr(K / NT == 0) one<T>(c);
         else if constexpr(K / NT == 1) two<T>(c);
         else if constexpr(K / NT == 2) twoops<T>(c);
         else poly<T>(c);
      });
   });
}
