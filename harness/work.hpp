// One catalogue of operations whose results are folded into a digest: used to compare storage kinds
// (P29), build configurations (P25) and threads (P26).
#pragma once
#include "operands.hpp"
#include <iomanip>
#include <memory>
#include <numeric>

namespace w {
using namespace h;
using namespace spp;

struct Dig {
   u64 h = 0x1234;
   bool text = false;      // keep a readable transcript
   bool invalid = true;    // also make calls that must be reported (as exceptions)
   std::string t;
   u64 items = 0;
   const char* cur = "";
   void raw(u64 x) {
      h = mix(h ^ x);
      ++items;
   }
   void note(const std::string& s) {
      if(text) t += s, t += ' ';
   }
   void op(const char* name) {
      cur = name;
      if(text) t += '\n', t += name, t += ": ";
      u64 x = 7;
      for(const char* p = name; *p; ++p) x = x * 131 + u64(*p);
      raw(x);
   }
   template <class T> void v(T x) {
      if constexpr(std::is_same_v<T, bool> || std::is_integral_v<T>) {
         raw(u64(x));
      } else if(x != x) {
         raw(0x7ff8);
      } else {
         long double a = (long double)x;
         unsigned char b[16] = {};
         std::memcpy(b, &a, 10);
         u64 lo, hi;
         std::memcpy(&lo, b, 8);
         std::memcpy(&hi, b + 8, 8);
         raw(lo);
         raw(hi);
         if constexpr(sizeof(T) == 16 && !std::is_same_v<T, long double>) {
            double rest = double(x - T(a));
            u64 q;
            std::memcpy(&q, &rest, 8);
            raw(q);
         }
      }
      if(text) note(show(x));
   }
   void n(i64 x) { v(x); }
   void b(bool x) { v(x); }
   template <class T> void s(Strict<T> x) { v(x.val()); }
   void str(const std::string& x) {
      u64 y = x.size();
      for(char c : x) y = y * 1099511628211ULL + u64((unsigned char)c);
      raw(y);
      if(text) note("'" + x + "'");
   }
   template <class A> void a1(const A& a) {
      i64 k = sz(a);
      n(k);
      for(i64 i = 0; i < k; ++i) v(a.un(long(i)).val());
   }
   template <class A> void a2(const A& a) {
      i64 r = a.rows().val(), c = a.cols().val();
      n(r), n(c);
      for(i64 i = 0; i < r; ++i)
         for(i64 j = 0; j < c; ++j) v(a.un(long(i), long(j)).val());
   }
   template <class A> void a(const A& x) {
      if constexpr(A::dimension().val() == 1) a1(x);
      else a2(x);
   }
   // A lazy result: as it is and evaluated.
   template <class E> void e(const E& x) {
      a(x);
      a(x.eval());
   }
   template <class F> void bad(F f) {
      if(!invalid) return;
      bool th = false;
      try {
         f();
      } catch(const StrictException&) {
         th = true;
      }
      raw(th ? 11 : 12);
      note(th ? "error" : "accepted");
   }
};

template <class T> constexpr bool FL = !std::is_integral_v<T>;
template <class T> constexpr bool INT = std::is_integral_v<T> && !std::is_same_v<T, bool>;
template <class T> constexpr bool NUM = !std::is_same_v<T, bool>;

// Values that no operation of the catalogue takes out of its domain.
template <class T> T value(Rng& r) {
   if constexpr(std::is_same_v<T, bool>) return r.chance(50);
   else if constexpr(std::is_unsigned_v<T>) return T(r.in(0, 9));
   else if constexpr(std::is_integral_v<T>) return T(r.in(-9, 9));
   else {
      switch(r.below(12)) {
      case 0: return T(0);
      case 1: return -T(0);
      case 2: return T(r.unit() * 1e-30);
      case 3: return T(-r.unit() * 1e20);
      case 4: return std::numeric_limits<T>::denorm_min();
      case 5: case 6: return T(r.in(-9, 9));
      default: return T((r.unit() - 0.5) * 8);
      }
   }
}
template <class T> std::vector<T> values(Rng& r, i64 n) {
   std::vector<T> v;
   for(i64 i = 0; i < n; ++i) v.push_back(value<T>(r));
   return v;
}
template <class T> Mat<T> values(Rng& r, i64 m, i64 n) {
   Mat<T> v(m, n);
   for(auto&& x : v.d) x = value<T>(r);
   return v;
}

constexpr int G1 = 8;   // groups of one-dimensional operations
constexpr int G2 = 8;

// What reductions, predicates and lazy functions that do not look at the dimension give.
template <class A> void reduce(Dig& d, Rng& r, const A& a) {
   using T = bt<A>;
   T y = T(r.in(1, 5));
   auto D = S<T>(y);
   if constexpr(NUM<T>) {
      d.op("sum"), d.s(sum(a)), d.s(sum(a, D));
      if constexpr(FL<T>) d.op("prod"), d.s(prod(a, D));
      d.op("min"), d.s(spp::min(a)), d.s(spp::min(a, D));
      d.op("max"), d.s(spp::max(a)), d.s(spp::max(a, D));
      d.op("dot_prod"), d.s(dot_prod(a, a, D));
      d.op("signs"), d.b(bool(has_zero(a))), d.b(bool(all_zeros(a))), d.b(bool(all_pos(a))), d.b(bool(all_neg(a))), d.b(bool(all_non_pos(a))),
         d.b(bool(all_non_neg(a)));
   }
   if constexpr(FL<T>) {
      d.op("mean"), d.s(mean(a, D));
      d.op("norms"), d.s(norm_inf(a, D)), d.s(norm1(a, D)), d.s(norm1_scaled(a, D)), d.s(norm2(a, D)), d.s(norm2_scaled(a, D)), d.s(norm_lp(a, 3, D)),
         d.s(norm_lp_scaled(a, 3, D));
      d.op("finite"), d.b(bool(all_finite(a))), d.b(bool(has_inf(a))), d.b(bool(has_nan(a)));
   }
   d.op("quantified");
   auto f = [&](auto x) { return Strict<bool>{x.val() == y}; };
   d.b(bool(spp::any_of(a, D))), d.b(bool(spp::all_of(a, D))), d.b(bool(spp::none_of(a, D)));
   d.b(bool(spp::any_of(a, f))), d.b(bool(spp::all_of(a, f))), d.b(bool(spp::none_of(a, f)));
   d.op("for_each");
   u64 k = 0;
   for_each(a, [&](auto x) { k = k * 3 + (x.val() == y ? 1 : 2); });
   d.raw(k);
}
template <class A> void stable(Dig& d, const A& a) {
   using T = bt<A>;
   if constexpr(FL<T>) {
      d.op("stable"), d.s(stable_sum(a)), d.s(semi_stable_sum(a)), d.s(stable_prod(a)), d.s(stable_mean(a)), d.s(stable_dot_prod(a, a)), d.s(semi_stable_dot_prod(a, a));
      d.op("stable norms"), d.s(stable_norm1(a)), d.s(stable_norm1_scaled(a)), d.s(stable_norm2(a)), d.s(stable_norm2_scaled(a)), d.s(stable_norm_lp(a, 3)),
         d.s(stable_norm_lp_scaled(a, 3));
   } else if constexpr(INT<T>) {
      d.op("integer scalar ops"), d.e(a % S<T>(T(3))), d.e(a & S<T>(T(5))), d.e(a | S<T>(T(5))), d.e(a ^ S<T>(T(3))), d.e(~a);
   } else {
      d.op("bool scalar ops"), d.e(!a), d.e(a && true_sb), d.e(a || true_sb), d.e(a ^ true_sb);
   }
}
template <class A> void unary(Dig& d, Rng& r, const A& a) {
   using T = bt<A>;
   auto x = S<T>(T(r.in(1, 4)));
   if constexpr(NUM<T>) {
      d.op("unary +"), d.e(+a);
      if constexpr(std::is_signed_v<T> || FL<T>) d.op("unary -"), d.e(-a);
      d.op("abs"), d.e(abs(a));
      d.op("scalar ops"), d.e(a + x), d.e(x - a), d.e(a * x), d.e(a / x);
      d.op("generate"), d.e(generate(a, [x](auto y) { return y + x; }));
      auto e1 = a + x;
      d.op("nested"), d.e(e1 * a), d.s(sum(e1)), d.e(abs(e1) - a);
   }
   if constexpr(FL<T>) {
      d.op("math"), d.e(sqrt(abs(a))), d.e(cbrt(a)), d.e(exp(a)), d.e(sin(a)), d.e(cos(a)), d.e(tan(a)), d.e(log(abs(a) + x)), d.e(log2(abs(a) + x)), d.e(log10(abs(a) + x)),
         d.e(inv(a + x)), d.e(pow(abs(a), x)), d.e(pow_int(a, 3)), d.e(fast_pow_int(a, 5));
   }
   d.op("cast"), d.e(array_cast<double>(a)), d.e(array_cast<bool>(a));
   if constexpr(INT<T>) {
      d.op("shift"), d.e(abs(a) << S<T>(T(2))), d.e(abs(a) >> S<T>(T(1)));
   }
   if(d.invalid) {
      d.op("division by zero");
      if constexpr(INT<T>) d.bad([&] { d.a((a / S<T>(T(0))).eval()); });
   }
}
template <class A> void printing(Dig& d, Rng& r, const A& a) {
   d.op("print");
   std::ostringstream os;
   int k = int(r.below(3));
   if(k == 1) os << std::scientific << std::setprecision(int(r.in(1, 12)));
   if(k == 2) os << std::fixed << std::setprecision(int(r.in(0, 6)));
   os << a;
   d.str(os.str());
}
// A second operand, in a plain array.
template <class A, class B> void binary(Dig& d, const A& a, const B& b) {
   using T = bt<A>;
   d.op("compare"), d.b(bool(a == b)), d.b(bool(b == a)), d.b(bool(a != b)), d.b(bool(b != a)), d.b(bool(a == a)), d.b(bool(equal(a, b)));
   if constexpr(NUM<T>) {
      d.op("a+b"), d.e(a + b), d.e(b + a), d.e(a - b), d.e(b - a), d.e(a * b);
      d.op("dot"), d.s(dot_prod(a, b)), d.s(dot_prod(b, a));
      auto den = b * b + S<T>(T(1));
      d.op("a/den"), d.e(a / den), d.e(den / (a * a + S<T>(T(1))));
      d.op("long"), d.e((a + b) * (a - b) + a), d.s(sum(a * b - b));
   } else {
      d.op("logic"), d.e(a && b), d.e(b || a), d.e(a ^ b);
   }
   if constexpr(INT<T>) {
      auto den = b * b + S<T>(T(1));
      d.op("integer"), d.e(a % den), d.e(a & b), d.e(b | a), d.e(a ^ b), d.e(abs(a) << abs(b)), d.e(abs(b) >> abs(a));
   }
   if constexpr(FL<T>) {
      d.op("tolerances"), d.b(bool(within_tol_abs(a, b))), d.b(bool(within_tol_rel(b, a, S<T>(T(1))))), d.b(bool(within_tol_rel(a, a)));
      auto m = max_rel_error(a, b);
      d.b(m.has_value());
      if(m) d.s(*m);
      d.op("stable dot"), d.s(stable_dot_prod(a, b)), d.s(semi_stable_dot_prod(b, a));
   }
   d.op("two-operand predicates");
   auto f = [](auto x, auto y) { return Strict<bool>{x.val() == y.val()}; };
   d.b(bool(spp::any_of(a, b, f))), d.b(bool(spp::all_of(a, b, f))), d.b(bool(spp::none_of(b, a, f)));
   d.op("generate2"), d.e(generate(a, b, [](auto x, auto y) { return Strict<bool>{!(x.val() < y.val())}; }));
}

template <int G, class A> void read1(Dig& d, Rng r, const A& a, const std::vector<bt<A>>& w) {
   using T = bt<A>;
   const i64 n = sz(a);
   if constexpr(G == 0) {
      d.op("size"), d.n(n), d.b(bool(a.empty())), d.n(a.size_m1().val());
      d.op("index");
      for(i64 i = 0; i < n; ++i) d.s(a[long(i)]), d.s(a.at(long(i))), d.s(a[last - long(i)]), d.s(a.un(long(i)));
      d.op("invalid index"), d.bad([&] { (void)a[long(n)]; }), d.bad([&] { (void)a.at(-1L); }), d.bad([&] { (void)a[last - long(n)]; });
      d.op("iterate");
      for(auto x : a) d.s(x);
      for(auto it = a.rbegin(); it != a.rend(); ++it) d.s(*it);
      d.n(a.end() - a.begin());
      if(n) {
         i64 k = r.in(0, n - 1);
         d.op("iterator"), d.s(*(a.begin() + k)), d.s(a.begin()[k]), d.s(*(a.end() - (k + 1))), d.n(std::distance(a.begin(), std::find(a.begin(), a.end(), S<T>(T(w[size_t(k)])))));
      }
      d.op("copy");
      Array1D<T> b(a);
      Array1D<T, Aligned> b2(a);
      Array1D<T> b3(a.begin(), a.end());
      d.a(b), d.a(b2), d.a(b3), d.a(a.eval());
      b2 = a;
      d.a(b2);
      b.resize_and_assign(a), d.a(b);
      if(n == 7) {
         FixedArray1D<T, 7> f(a);
         d.a(f);
      }
      d.op("insert");
      Array1D<T> c(2L);
      c.insert(1L, a), c.insert_front(a), c.insert_back(a), d.a(c);
      d.op("std");
      std::vector<T> v;
      for(auto x : a) v.push_back(x.val());
      d.n(std::count_if(a.begin(), a.end(), [](auto x) { return x.val() > T(0); }));
      d.b(std::equal(a.begin(), a.end(), b.begin()));
      if constexpr(NUM<T>) {
         auto e = blas_array(a);
         d.b(e == nullptr);
         for(i64 i = 0; i < n; ++i) d.v(e[size_t(i)]);
      }
   } else if constexpr(G == 1) {
      d.op("all"), d.a(a(place::all)), d.a(a.view1D());
      d.op("named"), d.a(a(place::even)), d.a(a(place::odd)), d.a(a(place::reverse));
      i64 k = r.in(0, n);
      d.op("firstN"), d.a(a(place::firstN{long(k)})), d.a(a(place::lastN{long(k)})), d.a(a(place::skipN{long(r.in(1, 4))}));
      if(n) {
         i64 p = r.in(0, n - 1), q = r.in(p, n - 1), s = r.in(1, 3);
         d.op("seq"), d.a(a(seq{long(p), long(q)})), d.a(a(seq{First{long(p)}, Endmost{long(q)}})), d.a(a(seq{long(p), long(p + (q - p) / s * s), long(s)}));
         d.op("seqN"), d.a(a(seqN{long(p), long(q - p + 1)})), d.a(a(seqN{long(p), long((n - 1 - p) / s + 1), long(s)})), d.a(a(seqN{long(n - 1), long(n), -1}));
         Idx x;
         for(i64 i = r.in(0, 5); i > 0; --i) x.push_back(r.in(0, n - 1));
         d.op("list"), d.a(a(implicit(x)));
         d.op("nested"), d.a(a(place::reverse)(place::even)), d.a(a(seq{long(p), long(n - 1)})(place::reverse)(place::odd));
         Idx y;
         for(i64 i = 0; i < n; ++i)
            if(r.chance(40)) y.push_back(i);
         d.op("complement"), d.a(a(place::complement{implicit(y)}));
         i64 rows = 1;
         for(i64 i = 2; i <= n; ++i)
            if(n % i == 0 && r.chance(50)) rows = i;
         d.op("view2D");
         auto v = a.view2D(long(rows), long(n / rows));
         d.a(v), d.a(v.row(rows - 1)), d.a(v.col(0)), d.a(v.view1D());
         auto sl = a(seq{long(p), long(n - 1)});
         if constexpr(NUM<T>) d.op("slice ops"), d.s(sum(sl)), d.e(sl + sl), d.s(spp::max(sl(place::reverse)));
      }
      if constexpr(NUM<T>) {
         d.op("ranges");
         auto lo = S<T>(T(1)), hi = S<T>(T(5));
         d.a(in_open_range(a, lo, hi)), d.a(in_closed_range(a, lo, hi)), d.a(in_cond_range(a, [](auto x) { return Strict<bool>{x.val() > T(2)}; }));
      }
      d.op("invalid slices"), d.bad([&] { d.a(a(seqN{0, long(n + 1)})); }), d.bad([&] { d.a(a(seq{0, long(n)})); }), d.bad([&] { d.a(a.view2D(2, long(n))); });
   } else if constexpr(G == 2) {
      reduce(d, r, a);
      if constexpr(NUM<T>) {
         d.op("min_index");
         auto [i, x] = min_index(a);
         auto [j, y] = max_index(a);
         d.n(i.val()), d.n(j.val()), d.s(x), d.s(y);
         Array1D<int> pw(long(n), 2_si);
         if(n < 9) d.op("polynomial"), d.s(polynomial(a, S<T>(T(2)))), d.s(polynomial(a, S<T>(T(2)), pw));
      }
   } else if constexpr(G == 3) {
      unary(d, r, a);
   } else if constexpr(G == 4) {
      stable(d, a);
      if constexpr(FL<T>) d.op("stable polynomial"), d.s(stable_polynomial(a, S<T>(T(0.5))));
      d.op("merge"), d.e(merge(a, a)), d.e(merge(a, S<T>(T(1)))), d.e(merge(S<T>(T(1)), a)), d.e(merge(S<T>(T(1)), S<T>(T(0)), a));
      if(n) {
         i64 p = r.in(0, n - 1), k = r.in(1, n - p);
         d.op("exclude"), d.e(exclude(a, long(p), long(k))), d.e(exclude(a, last)), d.e(exclude(a, long(p)));
         d.op("irange"), d.e(irange(a)), d.e(irange_m1(a));
         if constexpr(NUM<T>) d.op("tensor"), d.e(tensor_prod(a, a));
         d.op("broadcast"), d.bad([&] { (void)exclude(a, long(n)); });
      }
   } else if constexpr(G == 5) {
      Array1D<T> b = mk1<Array1D<T>>(w);
      binary(d, a, b);
   } else if constexpr(G == 6) {
      printing(d, r, a);
      Array1D<T> b = mk1<Array1D<T>>(w);
      d.op("merge2"), d.e(merge(a, b)), d.e(merge(b, a, b));
      d.op("equal after change");
      if(n) {
         b.un(long(r.in(0, n - 1))) = S<T>(T(1));
         d.b(bool(a == b)), d.b(bool(b != a));
      }
      Array1D<T> c(long(n + 1));
      d.op("sizes differ"), d.b(bool(a == c)), d.b(bool(c != a)), d.bad([&] { c = a; });
      if constexpr(NUM<T>) d.bad([&] { (void)(a + c); }), d.bad([&] { (void)dot_prod(a, c); });
      if constexpr(INT<T>) {
         d.op("as powers");
         if constexpr(std::is_signed_v<T>) {
            auto p = abs(a);
            Array1D<double> X(long(n), 0.5_sd);
            if(n) d.s(polynomial(X, 0.5_sd, p)), d.s(gpolynomial(X, X, p));
         }
      }
   } else if constexpr(G == 7) {
      // the same through a reference to non-const
      A& m = const_cast<A&>(a);
      d.op("non-const"), d.a(m(place::even)), d.a(m.view1D());
      for(auto x : m) d.s(x);
      for(i64 i = 0; i < n; ++i) d.s(m[long(i)]), d.s(m.at(long(i)));
      Idx x;
      for(i64 i = n ? r.in(0, 5) : 0; i > 0; --i) x.push_back(r.in(0, n - 1));
      auto s = m(implicit(x));
      auto s2 = m(implicit(x));
      d.op("lists"), d.a(s);
      if constexpr(NUM<T>) d.e(s + s2), d.e(s * S<T>(T(2))), d.s(sum(s));
      d.b(bool(s == s2));
      d.op("rvalue slices"), d.a(m(implicit(x))(place::reverse)), d.a(m(place::all)(place::odd));
      for(auto it = m.cbegin(); it != m.cend(); it += 1) d.s(*it);
      d.b(std::is_sorted(a.begin(), a.end(), [](auto p, auto q) { return p.val() < q.val(); }));
      if(n) {
         auto it = std::max_element(a.begin(), a.end(), [](auto p, auto q) { return p.val() < q.val(); });
         d.op("max_element"), d.n(it - a.begin()), d.s(*it);
      }
   }
}

template <int G, class A> void read2(Dig& d, Rng r, const A& a, const Mat<bt<A>>& w) {
   using T = bt<A>;
   const i64 nr = a.rows().val(), nc = a.cols().val(), n = nr * nc;
   if constexpr(G == 0) {
      d.op("shape"), d.n(nr), d.n(nc), d.n(sz(a)), d.b(bool(a.empty())), d.n(a.rows_m1().val()), d.n(a.cols_m1().val());
      d.op("index");
      for(i64 i = 0; i < nr; ++i)
         for(i64 j = 0; j < nc; ++j) d.s(a(long(i), long(j))), d.s(a.at(long(i), long(j))), d.s(a(last - long(i), last - long(j))), d.s(a.un(long(i * nc + j)));
      d.op("invalid index"), d.bad([&] { (void)a(long(nr), 0L); }), d.bad([&] { (void)a.at(0L, -1L); }), d.bad([&] { (void)a(0L, long(nc)); });
      d.op("iterate");
      for(auto x : a) d.s(x);
      for(auto it = a.rbegin(); it != a.rend(); ++it) d.s(*it);
      d.op("copy");
      Array2D<T> b(a);
      Array2D<T, Aligned> b2(a);
      b2 = a;
      d.a(b), d.a(b2), d.a(a.eval());
      b.resize_and_assign(a), d.a(b);
      if(nr == 3 && nc == 4) {
         FixedArray2D<T, 3, 4> f(a);
         d.a(f);
      }
      d.op("insert");
      if(n) {
         b.insert_rows(1L, a), b.insert_rows(0L, a), d.a(b);
         Array2D<T> c(a);
         c.insert_cols(1L, a), d.a(c);
      }
      if constexpr(NUM<T>) {
         auto e = blas_array(a);
         d.b(e == nullptr);
         for(i64 i = 0; i < n; ++i) d.v(e[size_t(i)]);
      }
   } else if constexpr(G == 1) {
      d.op("view1D"), d.a(a.view1D());
      if(n) {
         i64 i = r.in(0, nr - 1), j = r.in(0, nc - 1), i2 = r.in(i, nr - 1), j2 = r.in(j, nc - 1);
         d.op("lines"), d.a(a.row(long(i))), d.a(a.col(long(j))), d.a(a.row(last - long(i))), d.a(a.col(last)), d.a(a.diag());
         d.a(a.diag(long(r.in(-(nr - 1), nc - 1))));
         d.op("block"), d.a(a.block(long(i), long(j), long(i2), long(j2))), d.a(a.blockN(long(i), long(j), long(i2 - i + 1), long(j2 - j + 1)));
         d.op("rows/cols"), d.a(a.rows(seq{long(i), long(i2)})), d.a(a.cols(seq{long(j), long(nc - 1)})), d.a(a.rows(place::reverse)), d.a(a.cols(place::even));
         d.op("selection"), d.a(a(seq{long(i), long(i2)}, place::reverse)), d.a(a(place::reverse, seqN{long(j), long(j2 - j + 1)}));
         Idx x, y;
         for(i64 k = r.in(1, 4); k > 0; --k) x.push_back(r.in(0, nr - 1)), y.push_back(r.in(0, nc - 1));
         d.op("lists"), d.a(a(implicit(x), implicit(y))), d.a(a(implicit(x), place::all)), d.a(a(place::odd, implicit(y)));
         d.op("nested"), d.a(a.block(long(i), long(j), long(i2), long(j2)).row(0)), d.a(a.rows(place::reverse).col(0)), d.a(a(place::reverse, place::reverse).diag());
         d.op("view2D"), d.a(a.view2D(long(nc), long(nr))), d.a(a.view1D()(place::reverse));
         auto bl = a.blockN(long(i), long(j), long(i2 - i + 1), long(j2 - j + 1));
         if constexpr(NUM<T>) d.op("block ops"), d.s(sum(bl)), d.e(bl + bl), d.s(sum(a.row(long(i)))), d.e(a.col(long(j)) + a.col(0));
         d.op("invalid"), d.bad([&] { d.a(a.row(long(nr))); }), d.bad([&] { d.a(a.col(-1)); }), d.bad([&] { d.a(a.blockN(0, 0, long(nr + 1), 1)); });
      }
   } else if constexpr(G == 2) {
      reduce(d, r, a);
      if constexpr(NUM<T>) {
         d.op("min_index");
         auto [i, j, x] = min_index(a);
         auto [k, l, y] = max_index(a);
         d.n(i.val()), d.n(j.val()), d.s(x), d.n(k.val()), d.n(l.val()), d.s(y);
      }
   } else if constexpr(G == 3) {
      unary(d, r, a);
   } else if constexpr(G == 4) {
      stable(d, a);
      if(n) {
         d.op("transpose"), d.e(transpose(a));
         d.op("merge"), d.e(merge_horizontal(a, a)), d.e(merge_vertical(a, a));
         d.op("iranges"), d.e(irange_row(a)), d.e(irange_col(a)), d.e(irange_row_m1(a)), d.e(irange_col_m1(a));
         if constexpr(NUM<T>) {
            d.op("reduce lines"), d.e(row_reduce(a, [](auto x) { return sum(x); })), d.e(col_reduce(a, [](auto x) { return spp::max(x); }));
            Array1D<T> x(long(nc), S<T>(T(2)));
            d.op("matvec"), d.e(matvec_prod(a, x));
         }
      }
   } else if constexpr(G == 5) {
      Array2D<T> b = mk2<Array2D<T>>(w);
      binary(d, a, b);
   } else if constexpr(G == 6) {
      printing(d, r, a);
      Array2D<T> b = mk2<Array2D<T>>(w);
      if(n) {
         d.op("merge2"), d.e(merge_horizontal(a, b)), d.e(merge_vertical(b, a));
         b.un(long(r.in(0, n - 1))) = S<T>(T(1));
         d.op("equal after change"), d.b(bool(a == b)), d.b(bool(b != a));
         Array2D<T> c(long(nc + 1), long(nr + 1));
         d.op("sizes differ"), d.b(bool(a == c)), d.bad([&] { c = a; });
         if(nr != nc) {
            Array2D<T> t(1L * nc, 1L * nr);
            d.op("transposed shape"), d.b(bool(a == t)), d.bad([&] { t = a; });
            if constexpr(NUM<T>) d.bad([&] { (void)(a + t); });
         }
      }
   } else if constexpr(G == 7) {
      A& m = const_cast<A&>(a);
      if(n) {
         d.op("non-const"), d.a(m.row(0)), d.a(m.col(last)), d.a(m.view1D()), d.a(m.diag());
         for(auto x : m) d.s(x);
         d.op("line iterators");
         RowIt ri(m);
         for(auto it = ri.begin(); it != ri.end(); ++it) d.a(*it);
         ColIt ci(m);
         for(auto it = ci.rbegin(); it != ci.rend(); ++it) d.a(*it);
         RowIt rc(a);
         d.n(rc.end() - rc.begin());
         for(auto it = rc.begin(); it != rc.end(); ++it) d.a(*it);
         Idx x, y;
         for(i64 k = r.in(1, 4); k > 0; --k) x.push_back(r.in(0, nr - 1)), y.push_back(r.in(0, nc - 1));
         auto s = m(implicit(x), implicit(y));
         auto s2 = m(implicit(x), implicit(y));
         d.op("lists"), d.a(s), d.b(bool(s == s2));
         if constexpr(NUM<T>) d.e(s + s2), d.s(sum(s)), d.e(s.row(0) + s2.row(0));
         d.op("indexes");
         for(auto it : IndexRange2D{a}) d.n(it.first.val()), d.n(it.second.val());
      }
   }
}

// Writing operations. The object's whole contents afterwards are part of the digest.
template <class A> void write1(Dig& d, Rng r, A& a, const std::vector<bt<A>>& w) {
   using T = bt<A>;
   const i64 n = sz(a);
   auto x = S<T>(T(r.in(1, 3)));
   Array1D<T> b = mk1<Array1D<T>>(w);
   for(int k = 0; k < 5; ++k) {
      int op = int(r.below(15));
      switch(op) {
      case 0: {
         auto f = r.chance(30) ? x : S<T>(value<T>(r));
         d.op("fill"), a = f;
         break;
      }
      case 1: d.op("assign"), a = b; break;
      case 2:
         d.op("compound");
         if constexpr(NUM<T>) a += b, a -= x, a *= x;
         break;
      case 3:
         d.op("compound 2");
         if constexpr(NUM<T>) a *= b, a /= x;
         if constexpr(INT<T>) a %= x, a ^= b, a |= x, a &= b;
         break;
      case 4:
         d.op("elements");
         for(i64 i = 0; i < n; i += 2) a[long(i)] = x, a.at(long(n - 1 - i)) = b.un(long(i));
         break;
      case 5:
         d.op("iterator");
         for(auto& y : a) y = x;
         if(n) *(a.begin() + (n - 1)) = b.un(0);
         break;
      case 6: d.op("slices"), a(place::even) = x, a(place::odd) = b(place::odd); break;
      case 7: d.op("reverse"), a(place::reverse) = b; break;
      case 8:
         if constexpr(NUM<T>) d.op("sort"), sort_increasing(a);
         break;
      case 9:
         if constexpr(NUM<T>) d.op("sort down"), sort_decreasing(a);
         break;
      case 10: d.op("copy into"), std::copy(b.begin(), b.end(), a.begin()); break;
      case 11:
         d.op("expression");
         if constexpr(NUM<T>) a = b + b * x;
         else a = b && b;
         break;
      case 12: d.op("for_each"), for_each(a, [x](auto& y) { if(!(y.val() == T(0))) y = x; }); break;
      case 13:
         d.op("view2D");
         if(n) a.view2D(1, long(n)).row(0)(place::even) = b(place::even);
         break;
      case 14:
         d.op("reject");
         {
            Array1D<T> c(long(n + 1));
            d.bad([&] { a = c; });
            if constexpr(NUM<T>) d.bad([&] { a += c; });
            d.bad([&] { a[long(n)] = x; });
         }
         break;
      }
      d.a(a);
      if constexpr(NUM<T>)
         if(INT<T>) {   // keep the values small
            for(i64 i = 0; i < n; ++i)
               if(a.un(long(i)).val() > T(99) || (std::is_signed_v<T> && a.un(long(i)).val() < T(0) - T(99))) a.un(long(i)) = x;
         }
   }
}
template <class A> void write2(Dig& d, Rng r, A& a, const Mat<bt<A>>& w) {
   using T = bt<A>;
   const i64 nr = a.rows().val(), nc = a.cols().val(), n = nr * nc;
   if(!n) return;
   auto x = S<T>(T(r.in(1, 3)));
   Array2D<T> b = mk2<Array2D<T>>(w);
   for(int k = 0; k < 5; ++k) {
      int op = int(r.below(14));
      i64 i = r.in(0, nr - 1), j = r.in(0, nc - 1);
      switch(op) {
      case 0: {
         auto f = r.chance(30) ? x : S<T>(value<T>(r));
         d.op("fill"), a = f;
         break;
      }
      case 1: d.op("assign"), a = b; break;
      case 2:
         d.op("compound");
         if constexpr(NUM<T>) a += b, a -= x, a *= x;
         break;
      case 3: d.op("elements"), a(long(i), long(j)) = x, a(last, last) = b(0, 0), a.at(0, long(j)) = x; break;
      case 4:
         d.op("iterator");
         for(auto& y : a) y = x;
         *(a.begin() + (n - 1)) = b.un(0);
         break;
      case 5: d.op("row"), a.row(long(i)) = b.row(0); break;
      case 6: d.op("col"), a.col(long(j)) = b.col(last); break;
      case 7: d.op("diag"), a.diag() = x; break;
      case 8: d.op("block"), a.block(long(i), long(j), long(nr - 1), long(nc - 1)) = b.blockN(0, 0, long(nr - i), long(nc - j)); break;
      case 9: d.op("view1D"), a.view1D()(place::reverse) = b.view1D(); break;
      case 10: d.op("rows"), a.rows(place::reverse) = b; break;
      case 11:
         if constexpr(NUM<T>) d.op("sort row"), sort_increasing(a.row(long(i))), sort_decreasing(a);
         break;
      case 12:
         d.op("expression");
         if constexpr(NUM<T>) a = b + b * x;
         else a = b || b;
         break;
      case 13: {
         d.op("reject");
         Array2D<T> c(long(nr + 1), long(nc));
         d.bad([&] { a = c; });
         d.bad([&] { a(long(nr), 0) = x; });
         if constexpr(NUM<T>) d.bad([&] { a *= c; });
         break;
      }
      }
      d.a(a);
      if constexpr(INT<T>)
         for(i64 q = 0; q < n; ++q)
            if(a.un(long(q)).val() > T(99) || (std::is_signed_v<T> && a.un(long(q)).val() < T(0) - T(99))) a.un(long(q)) = x;
   }
}
} // namespace w
