// P19: compensated operations against exact (multiple precision) computation and their a-priori error bounds.
#include "operands.hpp"
#include <gmpxx.h>
using namespace h;
using namespace spp;
using E = mpf_class;   // 5000 bits: every sum and product formed here is exact

#ifdef STRICT_QUAD_PRECISION
using Q = float128;
inline constexpr int NT = 4;
#else
inline constexpr int NT = 3;
#endif
template <class T> struct Fp {
   static constexpr int p = std::numeric_limits<T>::digits;
   static constexpr int emax = std::numeric_limits<T>::max_exponent;
};
#ifdef STRICT_QUAD_PRECISION
template <> struct Fp<float128> {
   static constexpr int p = 113;
   static constexpr int emax = 16384;
};
#endif
template <int K> struct TypeOf;
template <> struct TypeOf<0> { using type = float; };
template <> struct TypeOf<1> { using type = double; };
template <> struct TypeOf<2> { using type = long double; };
#ifdef STRICT_QUAD_PRECISION
template <> struct TypeOf<3> { using type = float128; };
#endif

inline E two(long k) {
   E x(1);
   if(k >= 0) mpf_mul_2exp(x.get_mpf_t(), x.get_mpf_t(), (unsigned long)k);
   else mpf_div_2exp(x.get_mpf_t(), x.get_mpf_t(), (unsigned long)-k);
   return x;
}
template <class T> T pw2(long k) {
   T x = 1, f = k >= 0 ? T(2) : T(0.5);
   for(long i = 0; i < (k < 0 ? -k : k); ++i) x *= f;
   return x;
}
// Exact conversion, by scaling to around 1 and peeling off doubles.
template <class T> E ex(T x) {
   if constexpr(std::is_same_v<T, float> || std::is_same_v<T, double>) {
      return E(double(x));
   } else {
      if(x == T(0)) return E(0);
      long k = 0;
      while(x >= pw2<T>(512) || x <= -pw2<T>(512)) x *= pw2<T>(-512), k += 512;
      while(x < pw2<T>(-512) && x > -pw2<T>(-512)) x *= pw2<T>(512), k -= 512;
      E r(0);
      for(int i = 0; i < 3; ++i) {
         double d = double(x);
         r += E(d);
         x -= T(d);
      }
      return r * two(k);
   }
}
inline std::string es(const E& e) {
   char b[80];
   gmp_snprintf(b, sizeof b, "%.20Fe", e.get_mpf_t());
   return b;
}
template <class T> E uu() { return two(-Fp<T>::p); }   // unit roundoff

// A number with a full random significand, exponent in [lo,hi].
template <class T> T num(Rng& r, int lo, int hi) {
   T x = T(1);
   int bits = r.chance(70) ? Fp<T>::p - 1 : int(r.in(0, Fp<T>::p - 1));
   T w = T(0.5);
   for(int i = 0; i < bits; ++i, w *= T(0.5))
      if(r.chance(50)) x += w;
   x *= pw2<T>(r.in(lo, hi));
   return r.chance(50) ? x : -x;
}
template <class T> T near(Rng& r, E e) {   // a T next to e
   T x = T(0);
   for(int i = 0; i < 4; ++i) {
      T d = T(e.get_d());
      x += d;
      e -= ex<T>(d);
   }
   (void)r;
   return x;
}

template <class T> void scalars(Case& c) {
   Rng& r = c.r;
   for(int k = 0; k < 30; ++k) {
      int span = int(r.pick({2, 10, 60, 120}));
      if(std::is_same_v<T, float>) span = std::min(span, 50);
      T x = num<T>(r, -span, span), y = num<T>(r, -span, span);
      if(r.chance(10)) y = -x;
      if(r.chance(10)) y = -x * (T(1) + pw2<T>(1 - Fp<T>::p));
      if(r.chance(5)) y = T(0);
      if(r.chance(5)) x = T(0);
      auto [a, b] = two_sums(S<T>(x), S<T>(y));
      T s0 = x + y;
      CHECK(same<T>(a.val(), s0), "two_sums high", "two_sums(", show(x), ",", show(y), ") first ", show(a.val()), " is not the rounded sum ", show(s0));
      CHECK(ex<T>(a.val()) + ex<T>(b.val()) == ex<T>(x) + ex<T>(y), "two_sums exact", "two_sums(", show(x), ",", show(y), ") = ", show(a.val()), " + ", show(b.val()), " is not exact");
      auto [p, q] = two_prods(S<T>(x), S<T>(y));
      T p0 = x * y;
      CHECK(same<T>(p.val(), p0), "two_prods high", "two_prods(", show(x), ",", show(y), ") first ", show(p.val()));
      bool safe = std::is_same_v<T, float> ? span <= 30 : true;   // the error term must not underflow
      if(safe) CHECK(ex<T>(p.val()) + ex<T>(q.val()) == ex<T>(x) * ex<T>(y), "two_prods exact", "two_prods(", show(x), ",", show(y), ") = ", show(p.val()), " + ", show(q.val()), " is not exact");
      ev("two");
      i64 pw = r.chance(70) ? r.in(0, 12) : r.in(13, 60);
      int sp = std::is_same_v<T, float> ? (pw > 12 ? 0 : 3) : 5;
      T z = r.chance(10) ? T(r.pick({0, 1, -1, 2, 3})) : num<T>(r, -sp, sp);
      auto [u, v] = pow_prods(S<T>(z), long(pw));
      E want(1);
      for(i64 i = 0; i < pw; ++i) want *= ex<T>(z);
      E tiny = two(std::is_same_v<T, float> ? -140 : -1000);
      E err = abs(ex<T>(u.val()) + ex<T>(v.val()) - want), bound = abs(want) * uu<T>() * uu<T>() * E(double(2 * pw * pw + 4)) + tiny;
      if(abs(want) > two(std::is_same_v<T, float> ? -60 : -400) && abs(want) < two(Fp<T>::emax - 4))
         CHECK(err <= bound, str("pow_prods ", pw <= 5 ? std::to_string(pw) : pw % 2 ? "odd" : "even"), "pow_prods(", show(z), ",", pw, ") = ", show(u.val()), " + ", show(v.val()), " error ", es(err), " exceeds ", es(bound));
      ev(pw > 5 ? (pw % 2 ? "pow odd" : "pow even") : "pow small");
   }
   c.note("scalars");
   c.note(r.next());
   c.nontrivial = true;
}

// Values whose sum, or product, or dot product cancels to a chosen degree.
template <class T> std::vector<T> summands(Rng& r, i64 n, int span) {
   std::vector<T> v;
   int mode = int(r.below(5));
   for(i64 i = 0; i < n; ++i) v.push_back(num<T>(r, -span, span));
   if(mode == 1) for(auto& x : v) x = x < T(0) ? -x : x;
   if(mode == 2) {   // the partner of an element, slightly off, somewhere else
      for(i64 i = 0; i + 1 < n; i += 2) v[size_t(i + 1)] = r.chance(30) ? -v[size_t(i)] : -v[size_t(i)] * (T(1) + T(r.in(1, 5)) * pw2<T>(1 - Fp<T>::p));
   }
   if(mode == 3 && n > 2) {   // the last element cancels the rest
      E s(0);
      for(i64 i = 0; i + 1 < n; ++i) s += ex<T>(v[size_t(i)]);
      v[size_t(n - 1)] = near<T>(r, -s);
   }
   if(mode == 4 && n > 2) {   // large, small, -large
      T b = num<T>(r, span, span + 10);
      v[size_t(r.below(u64(n)))] = b;
      v[size_t(n - 1)] = -b;
      v[0] = b;
      v[size_t(n / 2)] = -b;
   }
   if(mode != 1 && r.chance(60))
      for(i64 i = n - 1; i > 0; --i) std::swap(v[size_t(i)], v[size_t(r.in(0, i))]);
   return v;
}

template <class T> void within(const char* f, T got, const E& want, const E& bound, const std::string& s) {
   if(!(got == got)) fail(str("bound ", f), str(f, s, " is not a number, expected ", es(want)));
   E err = abs(ex<T>(got) - want);
   CHECK(err <= bound, str("bound ", f), f, s, " = ", show(got), " exact ", es(want), " error ", es(err), " exceeds ", es(bound));
   ev(f);
}
// sqrt of a positive e.
inline E root(const E& e) {
   E x;
   mpf_sqrt(x.get_mpf_t(), e.get_mpf_t());
   return x;
}

// The sums, norms and products of one object.
template <class A, class T> void sums(Rng& r, const A& a, const std::vector<T>& v, const std::string& s) {
   i64 n = i64(v.size());
   T dflt = T(r.in(1, 90));
   auto D = S<T>(dflt);
   if(n == 0) {
      auto e = [&](Strict<T> x, Strict<T> y, const char* f) {
         CHECK(x.val() == T(0), str("empty ", f), f, " of empty = ", show(x.val()));
         CHECK(y.val() == dflt, str("empty-default ", f), f, " of empty with default ", show(dflt), " = ", show(y.val()));
         ev(str("empty ", f));
      };
      e(stable_sum(a), stable_sum(a, D), "stable_sum");
      e(semi_stable_sum(a), semi_stable_sum(a, D), "semi_stable_sum");
      e(stable_prod(a), stable_prod(a, D), "stable_prod");
      e(stable_mean(a), stable_mean(a, D), "stable_mean");
      e(stable_dot_prod(a, a), stable_dot_prod(a, a, D), "stable_dot_prod");
      e(semi_stable_dot_prod(a, a), semi_stable_dot_prod(a, a, D), "semi_stable_dot_prod");
      e(stable_norm1(a), stable_norm1(a, D), "stable_norm1");
      e(stable_norm1_scaled(a), stable_norm1_scaled(a, D), "stable_norm1_scaled");
      e(stable_norm2(a), stable_norm2(a, D), "stable_norm2");
      e(stable_norm2_scaled(a), stable_norm2_scaled(a, D), "stable_norm2_scaled");
      e(stable_norm_lp(a, 3), stable_norm_lp(a, 3, D), "stable_norm_lp");
      e(stable_norm_lp_scaled(a, 3), stable_norm_lp_scaled(a, 3, D), "stable_norm_lp_scaled");
      return;
   }
   E u = uu<T>(), un{double(n)}, sm(0), ab(0), sq(0);
   for(T x : v) sm += ex<T>(x), ab += abs(ex<T>(x)), sq += ex<T>(x) * ex<T>(x);
   E second = 4 * un * un * u * u;
   bool dd = r.chance(50);   // the default must not matter
   within<T>("stable_sum", (dd ? stable_sum(a, D) : stable_sum(a)).val(), sm, abs(sm) * u * (1 + 4 * u) + second * ab, s);
   within<T>("semi_stable_sum", (dd ? semi_stable_sum(a, D) : semi_stable_sum(a)).val(), sm, (2 * abs(sm) + 66 * ab) * u + (second + 8192 * u * u) * ab, s);
   within<T>("stable_mean", (dd ? stable_mean(a, D) : stable_mean(a)).val(), sm / un, (abs(sm) * u * 2 * (1 + 4 * u) + 2 * second * ab) / un, s);
   within<T>("stable_norm1", (dd ? stable_norm1(a, D) : stable_norm1(a)).val(), ab, ab * (u * (1 + 4 * u) + second), s);
   within<T>("stable_norm1_scaled", (dd ? stable_norm1_scaled(a, D) : stable_norm1_scaled(a)).val(), ab / un, ab * (2 * u * (1 + 4 * u) + 2 * second) / un, s);
   within<T>("stable_dot_prod self", stable_dot_prod(a, a).val(), sq, sq * (u * (1 + 4 * u) + second), s);
   E nr = root(sq);
   within<T>("stable_norm2", (dd ? stable_norm2(a, D) : stable_norm2(a)).val(), nr, nr * (2 * u + second), s);
   within<T>("stable_norm2_scaled", (dd ? stable_norm2_scaled(a, D) : stable_norm2_scaled(a)).val(), nr / root(un), nr / root(un) * (5 * u + second), s);
}

inline int nsel(Rng& r, bool big) {
   int k = int(r.below(100));
   if(k < 6) return 0;
   if(k < 12) return 1;
   if(k < 18) return 2;
   if(k < 24) return int(r.pick({63, 64, 65, 127, 128, 129, 192, 193}));
   if(k < 80) return int(r.in(3, 24));
   if(big && k > 96) return int(r.in(1000, 3000));
   return int(r.in(25, 200));
}

template <class T> void arrays(Case& c) {
   Rng& r = c.r;
   i64 n = nsel(r, true);
   int span = std::is_same_v<T, float> ? int(r.pick({0, 2, 8, 15})) : int(r.pick({0, 2, 20, 60}));
   auto v = summands<T>(r, n, span);
   c.note(r.next());
   c.note(str("sums n=", n, " span ", span));
   c.nontrivial = n > 1;
   auto f = [&](auto& a) { sums(r, a, v, str("(", show(v), ")")); };
   if(n > 300) hold1<0, T>(r, v, f);
   else any1<T>(r, v, kinds<0, 2, 4, 7, 8>{}, f);
   if(n && n < 300) {
      Mat<T> m(n % 3 == 0 ? 3 : 1, n % 3 == 0 ? n / 3 : n);
      m.d = v;
      any2<T>(r, m, kinds<2, 4, 6>{}, [&](auto& a) { sums(r, a, v, str("2D(", show(v), ")")); });
   }
}

// Long sums of values of one sign, where the naive error grows with the length.
template <class T> void lengthy(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(20000, 120000);
   std::vector<T> v;
   T x = num<T>(r, 0, 1);
   x = x < T(0) ? -x : x;
   bool jitter = r.chance(50);
   for(i64 i = 0; i < n; ++i) v.push_back(jitter ? x * (T(1) + T(r.unit()) / T(64)) : x);
   E sm(0), sq(0), u = uu<T>();
   for(T y : v) sm += ex<T>(y), sq += ex<T>(y) * ex<T>(y);
   E second = 4 * E(double(n)) * E(double(n)) * u * u;
   auto a = mk1<Array1D<T>>(v);
   std::string s = str(" of ", n, " values near ", show(x));
   within<T>("stable_sum", stable_sum(a).val(), sm, sm * (u * (1 + 4 * u) + second), s);
   within<T>("semi_stable_sum", semi_stable_sum(a).val(), sm, sm * (68 * u + second + 8192 * u * u), s);
   within<T>("stable_dot_prod self", stable_dot_prod(a, a).val(), sq, sq * (u * (1 + 4 * u) + second), s);
   within<T>("semi_stable_dot_prod", semi_stable_dot_prod(a, a).val(), sq, sq * (70 * u + second + 8192 * u * u), s);
   c.note(str("long ", n));
   c.note(r.next());
   c.nontrivial = true;
   ev("lengthy");
}

template <class T> void products(Case& c) {
   Rng& r = c.r;
   i64 n = nsel(r, false);
   std::vector<T> v;
   int lim = std::is_same_v<T, float> ? 18 : 150;
   int at = 0;
   for(i64 i = 0; i < n; ++i) {   // the running product stays well inside the exponent range
      int e = int(r.in(-3, 3));
      if(at + e > lim || at + e < -lim) e = at > 0 ? -3 : 2;
      at += e;
      T m = num<T>(r, 0, 0);
      if((m < T(0) ? -m : m) > T(1.5) && r.chance(60)) m *= T(0.5), at += 0;
      v.push_back(m * pw2<T>(e));
   }
   // The significands can still accumulate: only judge while every partial product is in range.
   E want(1), hi(1), lo(1), bottom;
   for(T x : v) {
      want *= ex<T>(x);
      if(abs(want) > hi) hi = abs(want);
      if(abs(want) < lo) lo = abs(want);
   }
   E suffix(1);
   for(size_t i = v.size(); i-- > 0;) {
      suffix *= ex<T>(v[i]);
      if(abs(suffix) > hi) hi = abs(suffix);
      if(abs(suffix) < lo) lo = abs(suffix);
   }
   long em = std::is_same_v<T, float> ? 90 : 700, en = std::is_same_v<T, float> ? -70 : -600;
   c.note(r.next());
   c.note(str("prod n=", n));
   if(n == 0 || hi > two(em) || lo < two(en)) { ev("product out of range"); return; }
   E u = uu<T>(), nn{double(n + 1)};
   any1<T>(r, v, kinds<0, 2, 4, 7>{}, [&](auto& a) {
      within<T>("stable_prod", stable_prod(a).val(), want, abs(want) * (u * (1 + 8 * u) + 8 * nn * nn * u * u), str("(", show(v), ")"));
   });
   Mat<T> m(1, n);
   m.d = v;
   any2<T>(r, m, kinds<0, 3>{}, [&](auto& a) {
      within<T>("stable_prod", stable_prod(a, S<T>(T(7))).val(), want, abs(want) * (u * (1 + 8 * u) + 8 * nn * nn * u * u), str("2D(", show(v), ")"));
   });
   c.nontrivial = n > 1;
}

template <class T> void dots(Case& c) {
   Rng& r = c.r;
   i64 n = nsel(r, true);
   if(n == 0) n = 1;
   int span = std::is_same_v<T, float> ? int(r.pick({0, 2, 6})) : int(r.pick({0, 2, 20, 50}));
   std::vector<T> v, w;
   for(i64 i = 0; i < n; ++i) v.push_back(num<T>(r, -span, span)), w.push_back(num<T>(r, -span, span));
   int mode = int(r.below(4));
   if(mode == 1 && n > 1) {   // pairs that cancel
      for(i64 i = 0; i + 1 < n; i += 2) v[size_t(i + 1)] = -w[size_t(i)] * (r.chance(50) ? T(1) : T(1) + pw2<T>(1 - Fp<T>::p)), w[size_t(i + 1)] = v[size_t(i)];
   }
   if(mode == 2 && n > 1) {   // second half chosen so that the running sum keeps cancelling
      E s(0);
      for(i64 i = 0; i < n; ++i) {
         if(i >= n / 2) v[size_t(i)] = near<T>(r, -s / ex<T>(w[size_t(i)]));
         s += ex<T>(v[size_t(i)]) * ex<T>(w[size_t(i)]);
         if(s == 0) s = 0;
      }
   }
   E d(0), ab(0), u = uu<T>(), nn{double(n)};
   bool flow = false;   // error terms of the products must not underflow
   for(i64 i = 0; i < n; ++i) {
      E p = ex<T>(v[size_t(i)]) * ex<T>(w[size_t(i)]);
      d += p;
      ab += abs(p);
      if(p != 0 && abs(p) < two(std::is_same_v<T, float> ? -70 : -800)) flow = true;
   }
   c.note(r.next());
   c.note(str("dot n=", n, " mode ", mode, " span ", span));
   if(flow) { ev("dot underflow"); return; }
   c.nontrivial = n > 1;
   std::string s = str("(", show(v), ",", show(w), ")");
   E second = 4 * (nn + 2) * (nn + 2) * u * u;
   auto go = [&](auto& a, auto& b) {
      within<T>("stable_dot_prod", stable_dot_prod(a, b).val(), d, abs(d) * u * (1 + 4 * u) + second * ab, s);
      within<T>("semi_stable_dot_prod", semi_stable_dot_prod(a, b).val(), d, 2 * abs(d) * u + 68 * u * ab + (second + 8192 * u * u) * ab, s);
      if(n < 60) {
         auto tp = two_prod(a, b);
         for(i64 i = 0; i < n; ++i) {
            E p = ex<T>(v[size_t(i)]) * ex<T>(w[size_t(i)]);
            T f = tp.first.un(long(i)).val(), g = tp.second.un(long(i)).val();
            CHECK(ex<T>(f) + ex<T>(g) == p && same<T>(f, T(v[size_t(i)] * w[size_t(i)])), "two_prod array", "two_prod element ", i, " ", show(f), " + ", show(g), " of ", s);
         }
         ev("two_prod array");
      }
   };
   if(n > 300) {
      auto a = mk1<Array1D<T>>(v), b = mk1<Array1D<T>>(w);
      go(a, b);
   } else if(r.chance(60)) {
      pair1<T>(r, v, w, kinds<0x00, 0x24, 0x73, 0x44, 0x58>{}, go);
   } else {
      Mat<T> m(n % 2 == 0 ? 2 : 1, n % 2 == 0 ? n / 2 : n), k = m;
      m.d = v;
      k.d = w;
      pair2<T>(r, m, k, kinds<0x00, 0x34, 0x62>{}, go);
   }
}

template <class T> T horner(const std::vector<T>& co, T x) {
   T y = 0;
   for(size_t i = co.size(); i-- > 0;) y = y * x + co[i];
   return y;
}

template <class T> void polys(Case& c) {
   Rng& r = c.r;
   i64 n = r.chance(8) ? 0 : r.chance(20) ? r.in(1, 3) : r.in(4, 22);
   int pmax = std::is_same_v<T, float> ? 14 : 40;
   if(std::is_same_v<T, float>) n = std::min<i64>(n, pmax);
   T x = r.chance(60) ? num<T>(r, -1, 0) : num<T>(r, 0, 1);
   if(r.chance(8)) x = T(r.pick({0, 1, -1}));
   std::vector<T> co, X;
   std::vector<int> pw;
   for(i64 i = 0; i < n; ++i) {
      co.push_back(num<T>(r, -2, 2));
      X.push_back(r.chance(90) ? num<T>(r, -1, 1) : T(r.pick({0, 1, -1})));
      pw.push_back(r.chance(70) ? int(r.in(0, 6)) : int(r.in(0, pmax)));
   }
   if(n > 2 && r.chance(50)) {   // ill-conditioned: x near a root
      E s(0), p(1);
      for(i64 i = 0; i < n; ++i) {
         if(i) s += ex<T>(co[size_t(i)]) * p;
         p *= ex<T>(x);
      }
      co[0] = near<T>(r, -s);
   }
   c.note(r.next());
   c.note(str("poly n=", n));
   auto C = mk1<Array1D<T>>(co);
   auto P = mk1<Array1D<int>>(pw);
   T dflt = T(r.in(2, 50));
   if(n == 0) {
      Array1D<T> XX;
      CHECK(stable_polynomial(C, S<T>(x)).val() == T(0) && stable_polynomial(C, S<T>(x), S<T>(dflt)).val() == dflt, "empty stable_polynomial", "stable_polynomial of no coefficients");
      CHECK(stable_polynomial(C, S<T>(x), P).val() == T(0) && stable_polynomial(C, S<T>(x), P, S<T>(dflt)).val() == dflt, "empty stable_polynomial powers", "stable_polynomial of no coefficients, powers");
      CHECK(stable_gpolynomial(C, XX, P).val() == T(0) && stable_gpolynomial(C, XX, P, S<T>(dflt)).val() == dflt, "empty stable_gpolynomial", "stable_gpolynomial of no coefficients");
      ev("empty polynomial");
      return;
   }
   auto term = [&](const E& b, i64 p) {
      E y(1);
      for(i64 i = 0; i < p; ++i) y *= b;
      return y;
   };
   bool under = false;
   auto tiny = [&](const E& e) { if(e != 0 && abs(e) < two(std::is_same_v<T, float> ? -75 : -800)) under = true; };
   E s1(0), a1(0), s2(0), a2(0), s3(0), a3(0), u = uu<T>();
   for(i64 i = 0; i < n; ++i) {
      E k = ex<T>(co[size_t(i)]);
      E t1 = term(ex<T>(x), i), t2 = term(ex<T>(x), pw[size_t(i)]), t3 = term(ex<T>(X[size_t(i)]), pw[size_t(i)]);
      tiny(t1); tiny(t2); tiny(t3); tiny(k * t1); tiny(k * t2); tiny(k * t3);
      s1 += k * t1, a1 += abs(k * t1);
      s2 += k * t2, a2 += abs(k * t2);
      s3 += k * t3, a3 += abs(k * t3);
   }
   if(under) { ev("poly underflow"); return; }
   c.nontrivial = n > 1;
   double q = double(2 * n + 2 * pmax + 4);
   E second = 16 * q * q * u * u;
   std::string s = str("(", show(co), ", x=", show(x), ", powers ", show(pw), ", X ", show(X), ")");
   auto X1 = mk1<Array1D<T>>(X);
   within<T>("stable_polynomial", stable_polynomial(C, S<T>(x)).val(), s1, abs(s1) * u * (1 + 4 * u) + second * a1, s);
   within<T>("stable_polynomial powers", stable_polynomial(C, S<T>(x), P).val(), s2, abs(s2) * u * (1 + 4 * u) + second * a2, s);
   within<T>("stable_gpolynomial", stable_gpolynomial(C, X1, P).val(), s3, abs(s3) * u * (1 + 4 * u) + second * a3, s);
   any1<T>(r, co, kinds<2, 4, 7, 8>{}, [&](auto& a) {
      within<T>("stable_polynomial", stable_polynomial(a, S<T>(x), S<T>(dflt)).val(), s1, abs(s1) * u * (1 + 4 * u) + second * a1, s);
      within<T>("stable_gpolynomial", stable_gpolynomial(a, X1, P, S<T>(dflt)).val(), s3, abs(s3) * u * (1 + 4 * u) + second * a3, s);
   });
   auto pp = pow_prod(X1, P);
   for(i64 i = 0; i < n; ++i) {
      auto [f, g] = pow_prods(S<T>(X[size_t(i)]), long(pw[size_t(i)]));
      CHECK(same<T>(pp.first.un(long(i)).val(), f.val()) && same<T>(pp.second.un(long(i)).val(), g.val()), "pow_prod array", "pow_prod element ", i, s);
   }
   ev("pow_prod array");
}

template <class T> void lp(Case& c) {
   Rng& r = c.r;
   i64 n = nsel(r, false);
   if(n == 0) n = 1;
   n = std::min<i64>(n, 60);
   i64 p = r.in(1, std::is_same_v<T, float> ? 6 : 12);
   std::vector<T> v;
   for(i64 i = 0; i < n; ++i) v.push_back(num<T>(r, -2, 2));
   if(r.chance(20)) v[size_t(r.below(u64(n)))] = T(0);
   if(n == 1 && v[0] == T(0)) v[0] = T(3);
   E s(0), u = uu<T>();
   for(T x : v) {
      E t(1);
      for(i64 i = 0; i < p; ++i) t *= abs(ex<T>(x));
      s += t;
   }
   c.note(r.next());
   c.note(str("lp n=", n, " p=", p));
   c.nontrivial = true;
   // got^p against s: relative error of the norm is e, of its p-th power p*e to first order.
   double ls = std::fabs(std::log(s.get_d())) + 1, lm = std::log(double(n)) + 1;
   double q = double(2 * n + 2 * p + 4);
   E second = 16 * q * q * u * u;
   E rel = (u + second) / double(p) + u * ls / double(p) * 2 + 3 * u;
   auto judge = [&](const char* f, T got, const E& target, const E& re, const std::string& w) {
      E g(1);
      for(i64 i = 0; i < p; ++i) g *= ex<T>(got);
      E err = abs(g - target), bound = target * re * double(p) * 1.01;
      CHECK(got == got && err <= bound, str("bound ", f), f, w, " = ", show(got), " its power differs by ", es(err), " from ", es(target), " allowed ", es(bound));
      ev(f);
   };
   std::string w = str("(", show(v), ", ", p, ")");
   any1<T>(r, v, kinds<0, 2, 4, 7>{}, [&](auto& a) {
      judge("stable_norm_lp", stable_norm_lp(a, long(p)).val(), s, rel, w);
      judge("stable_norm_lp_scaled", stable_norm_lp_scaled(a, long(p), S<T>(T(5))).val(), s / double(n), rel + u * lm / double(p) * 2 + 5 * u, w);
   });
   Mat<T> m(1, n);
   m.d = v;
   any2<T>(r, m, kinds<0, 2, 6>{}, [&](auto& a) { judge("stable_norm_lp", stable_norm_lp(a, long(p), S<T>(T(5))).val(), s, rel, w); });
}

int main(int argc, char** argv) {
   mpf_set_default_prec(5000);
   return run(argc, argv, [](Case& c) {
      dispatch<NT>(c, []<int K>(Case& c) {
         using T = typename TypeOf<K>::type;
         switch(c.r.below(40)) {
         case 0: if(c.r.chance(12)) { lengthy<T>(c); break; } [[fallthrough]];
         case 1: case 2: case 3: case 4: case 5: case 6: scalars<T>(c); break;
         case 7: case 8: case 9: case 10: case 11: case 12: case 13: case 14: arrays<T>(c); break;
         case 15: case 16: case 17: case 18: case 19: products<T>(c); break;
         case 20: case 21: case 22: case 23: case 24: case 25: case 26: case 27: dots<T>(c); break;
         case 28: case 29: case 30: case 31: case 32: case 33: case 34: case 35: polys<T>(c); break;
         default: lp<T>(c);
         }
      });
   });
}
