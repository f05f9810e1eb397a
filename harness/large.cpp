// WHAT=number of a property: its guarantees on objects of hundreds to a hundred thousand elements, which the
// other harnesses leave out because they show and compare every element many times over.
#include "operands.hpp"
#ifdef WITH_EIGEN
#include <strictpp/Eigen/eigen.hpp>
#endif
#include <algorithm>
#include <fstream>
using namespace h;
using namespace spp;

Case* current = nullptr;
// Lengths on both sides of powers of two and of round numbers, and anything between.
i64 length(Rng& r, i64 hi = 100000) {
   i64 n;
   switch(r.below(5)) {
   case 0: n = (i64(1) << r.in(8, 16)) + r.in(-2, 2); break;
   case 1: {
      const i64 a[] = {100, 1000, 10000, 500, 5000, 50000};
      n = a[r.below(6)] * (1 + i64(r.below(2))) + r.in(-1, 1);
      break;
   }
   case 2: n = r.in(200, 2000); break;
   case 3: n = r.in(2000, 20000); break;
   default: n = r.in(200, 70000); break;
   }
   current->note(std::min(n, hi));
   return std::min(n, hi);
}
std::pair<i64, i64> shape(Rng& r, i64 hi = 60000) {
   i64 p = 0, q = 0;
   switch(r.below(4)) {
   case 0: p = r.in(20, 300), q = r.in(20, 300); break;
   case 1: p = r.in(1, 4), q = length(r, hi / 4); break;
   case 2: q = r.in(1, 4), p = length(r, hi / 4); break;
   default: p = (i64(1) << r.in(5, 8)) + r.in(-1, 1), q = (i64(1) << r.in(5, 8)) + r.in(-1, 1);
   }
   while(p * q > hi) p > q ? p = p * 3 / 4 : q = q * 3 / 4;
   current->note(p), current->note(q);
   return {p, q};
}

template <class A, class T> void is1(const A& a, const std::vector<T>& m, const char* key, const std::string& what) {
   i64 n = i64(m.size());
   CHECK(sz(a) == n, key, what, ": size ", sz(a), " expected ", n);
   for(i64 i = 0; i < n; ++i) {
      T x = a.un(long(i)).val();
      if(!same_bits<T>(x, m[size_t(i)])) fail(key, str(what, ": element ", i, " of ", n, " is ", show<T>(x), " expected ", show<T>(m[size_t(i)])));
   }
   ev("elements compared", u64(n));
}
template <class A, class T> void is2(const A& a, const Mat<T>& m, const char* key, const std::string& what) {
   CHECK(a.rows().val() == m.r && a.cols().val() == m.c && sz(a) == m.r * m.c, key, what, ": shape ", a.rows().val(), "x", a.cols().val(), " expected ", m.r, "x", m.c);
   for(i64 i = 0; i < m.r; ++i)
      for(i64 j = 0; j < m.c; ++j) {
         T x = a.un(long(i), long(j)).val();
         if(!same_bits<T>(x, m(i, j))) fail(key, str(what, ": element ", i, ",", j, " of ", m.r, "x", m.c, " is ", show<T>(x), " expected ", show<T>(m(i, j))));
      }
   ev("elements compared", u64(m.r * m.c));
}
template <class T> Mat<T> cut(const Mat<T>& m, i64 i0, i64 si, i64 ni, i64 j0, i64 sj, i64 nj) {
   Mat<T> t(ni, nj);
   for(i64 i = 0; i < ni; ++i)
      for(i64 j = 0; j < nj; ++j) t(i, j) = m(i0 + i * si, j0 + j * sj);
   return t;
}
template <class T> Mat<T> without(const Mat<T>& m, bool rows, i64 pos, i64 k) {
   Mat<T> t(rows ? m.r - k : m.r, rows ? m.c : m.c - k);
   if(!t.r || !t.c) t = Mat<T>(0, 0);
   for(i64 i = 0; i < t.r; ++i)
      for(i64 j = 0; j < t.c; ++j) t(i, j) = m(rows && i >= pos ? i + k : i, !rows && j >= pos ? j + k : j);
   return t;
}
template <class T> Mat<T> with(const Mat<T>& m, bool rows, i64 pos, const Mat<T>& s) {
   i64 k = rows ? s.r : s.c;
   Mat<T> t(rows ? m.r + k : m.r, rows ? m.c : m.c + k);
   for(i64 i = 0; i < t.r; ++i)
      for(i64 j = 0; j < t.c; ++j) {
         i64 x = rows ? i : j;
         if(x >= pos && x < pos + k) t(i, j) = rows ? s(i - pos, j) : s(i, j - pos);
         else t(i, j) = m(rows && i >= pos ? i - k : i, !rows && j >= pos ? j - k : j);
      }
   return t;
}
// A slice that selects many elements: start, count, stride.
struct Sel {
   i64 a = 0, n = 0, s = 1;
   i64 at(i64 k) const { return a + k * s; }
};
Sel sel(Rng& r, i64 n) {
   Sel x;
   x.s = r.chance(50) ? 1 : r.in(1, 4);
   x.n = n / x.s - (r.chance(60) ? 0 : r.in(0, n / x.s / 3));
   if(x.n < 1) x.n = 1, x.s = 1;
   x.a = r.in(0, n - 1 - (x.n - 1) * x.s);
   if(r.chance(40)) x.a += (x.n - 1) * x.s, x.s = -x.s;
   return x;
}
seqN sl(const Sel& x) { return seqN{long(x.a), long(x.n), long(x.s)}; }

template <class T, AlignmentFlag K> void edits1(Case& c) {
   Rng& r = c.r;
   Array1D<T, K> a;
   std::vector<T> m;
   for(int k = 0; k < 6; ++k) {
      i64 n = i64(m.size()), op = n < 100 ? 0 : r.in(0, 9);
      std::string what = str("edit ", op, " on ", n);
      auto pos = [&] { return r.chance(20) ? 0 : r.chance(20) ? n : r.in(0, n); };
      if(op < 3) {
         auto v = rvec<T>(r, length(r, 30000));
         auto b = mk1<Array1D<T, K>>(v);
         i64 p = pos();
         if(op == 0) a.insert(long(p), b);
         else if(op == 1) a.insert(long(p), b(place::reverse)), std::reverse(v.begin(), v.end());
         else a.resize_and_assign(b), m.clear(), p = 0;
         m.insert(m.begin() + p, v.begin(), v.end());
      } else if(op == 3) {
         i64 p = r.in(0, n - 1), q = r.in(1, n - p);
         a.remove(long(p), long(q));
         m.erase(m.begin() + p, m.begin() + p + q);
      } else if(op == 4) {
         std::vector<ImplicitInt> gone;
         std::vector<T> left;
         i64 every = r.in(2, 9);
         for(i64 i = 0; i < n; ++i)
            if(r.below(u64(every)) == 0) gone.push_back(long(i));
            else left.push_back(m[size_t(i)]);
         a.remove(gone), m = left;
      } else if(op == 5) {
         i64 q = length(r);
         a.resize(long(q)), m.resize(size_t(q));
      } else if(op == 6) {
         if(n > 20000) continue;
         i64 p = pos();
         auto s = m;
         a.insert(long(p), a), m.insert(m.begin() + p, s.begin(), s.end());
      } else if(op == 7) {
         i64 p = pos();
         T x = rnd<T>(r);
         a.insert(long(p), S<T>(x)), m.insert(m.begin() + p, x);
      } else if(op == 8) {
         T x = rnd<T>(r);
         a = S<T>(x), m.assign(m.size(), x);
      } else {
         auto x = sel(r, n);
         a.resize_and_assign(a(sl(x)));
         std::vector<T> t;
         for(i64 i = 0; i < x.n; ++i) t.push_back(m[size_t(x.at(i))]);
         m = t;
      }
      is1(a, m, "edited", what);
      ev(str("edit ", op));
   }
}
template <class T, AlignmentFlag K> void edits2(Case& c) {
   Rng& r = c.r;
   auto [p0, q0] = shape(r);
   auto m = rmat<T>(r, p0, q0);
   auto a = mk2<Array2D<T, K>>(m);
   for(int k = 0; k < 4; ++k) {
      if(!m.r) break;
      int op = int(r.in(0, 6));
      bool rows = r.chance(50);
      i64 len = rows ? m.r : m.c, p = r.in(0, len), q;
      std::string what = str("edit ", op, rows ? " rows" : " cols", " on ", m.r, "x", m.c);
      if(op == 0) {
         q = r.in(1, 60);
         auto s = rows ? rmat<T>(r, q, m.c) : rmat<T>(r, m.r, q);
         auto b = mk2<Array2D<T>>(s);
         rows ? (void)a.insert_rows(long(p), b) : (void)a.insert_cols(long(p), b);
         m = with(m, rows, p, s);
      } else if(op == 1) {
         auto s = rows ? rmat<T>(r, 1, m.c) : rmat<T>(r, m.r, 1);
         auto b = mk1<Array1D<T>>(s.d);
         rows ? (void)a.insert_row(long(p), b) : (void)a.insert_col(long(p), b);
         m = with(m, rows, p, s);
      } else if(op == 2 || op == 3) {
         p = r.in(0, len - 1), q = r.in(1, len - p);
         if(q == len) q = std::max<i64>(1, len / 2);
         if(op == 3) q = 1, rows ? (void)a.remove_row(long(p)) : (void)a.remove_col(long(p));
         else rows ? (void)a.remove_rows(long(p), long(q)) : (void)a.remove_cols(long(p), long(q));
         m = without(m, rows, p, q);
      } else if(op == 4) {
         auto [p2, q2] = shape(r);
         a.resize(long(p2), long(q2));
         Mat<T> t(p2, q2);
         for(i64 i = 0; i < std::min(p2, m.r); ++i)
            for(i64 j = 0; j < std::min(q2, m.c); ++j) t(i, j) = m(i, j);
         m = t;
      } else if(op == 5) {
         auto [p2, q2] = shape(r);
         m = rmat<T>(r, p2, q2);
         auto b = mk2<Array2D<T>>(m);
         a.resize_and_assign(b);
      } else {
         auto x = sel(r, m.r), y = sel(r, m.c);
         a.resize_and_assign(a(sl(x), sl(y)));
         m = cut(m, x.a, x.s, x.n, y.a, y.s, y.n);
      }
      is2(a, m, "edited", what);
      ev(str("edit ", op));
   }
}
template <class A, class M, class F> void values_of(Case& c, M m, M other, F is) {
   Rng& r = c.r;
   auto make = [](const M& x) {
      if constexpr(requires { x.r; }) return mk2<A>(x);
      else return mk1<A>(x);
   };
   A a = make(m), b = make(other);
   A x(a);
   is(x, m, "copy constructed");
   is(a, m, "source of a copy");
   x = b;
   is(x, other, "copy assigned");
   A& alias = x;
   x = alias;
   is(x, other, "assigned to itself");
   x = std::move(alias);
   is(x, other, "moved to itself");
   x.swap(a);
   is(x, m, "swapped"), is(a, other, "swapped with");
   A y(std::move(x));
   is(y, m, "moved to");
   a = std::move(y);
   is(a, m, "move assigned");
   a.un(0L) = b.un(0L);
   is(b, other, "after a write to another");
   ev("values");
}

template <class T> void slices1(Case& c) {
   Rng& r = c.r;
   i64 n = length(r);
   auto m = rvec<T>(r, n);
   auto a = mk1<Array1D<T>>(m);
   auto x = sel(r, n), y = sel(r, x.n);
   auto pick = [&](auto f, i64 k) {
      std::vector<T> t;
      for(i64 i = 0; i < k; ++i) t.push_back(m[size_t(f(i))]);
      return t;
   };
   is1(a(sl(x)), pick([&](i64 i) { return x.at(i); }, x.n), "read", str("seqN of ", n));
   is1(a(sl(x))(sl(y)), pick([&](i64 i) { return x.at(y.at(i)); }, y.n), "read", str("seqN of seqN of ", n));
   is1(a(seq{long(x.a), long(x.at(x.n - 1)), long(x.s)}), pick([&](i64 i) { return x.at(i); }, x.n), "read", str("seq of ", n));
   is1(a(place::even), pick([](i64 i) { return 2 * i; }, (n + 1) / 2), "read", "even");
   is1(a(place::odd), pick([](i64 i) { return 2 * i + 1; }, n / 2), "read", "odd");
   is1(a(place::reverse), pick([&](i64 i) { return n - 1 - i; }, n), "read", "reverse");
   i64 k = r.in(1, 40);
   is1(a(place::skipN(long(k))), pick([&](i64 i) { return i * k; }, (n + k - 1) / k), "read", "skipN");
   i64 q = r.in(0, n);
   is1(a(place::firstN(long(q))), pick([](i64 i) { return i; }, q), "read", "firstN");
   is1(a(place::lastN(long(q))), pick([&](i64 i) { return n - q + i; }, q), "read", "lastN");
   std::vector<ImplicitInt> idx, gone;
   std::vector<i64> at, left;
   for(i64 i = 0; i < n; ++i) {
      at.push_back(r.in(0, n - 1)), idx.push_back(long(at.back()));
      if(r.chance(10)) gone.push_back(long(i));
      else left.push_back(i);
   }
   is1(a(idx), pick([&](i64 i) { return at[size_t(i)]; }, n), "read", "list");
   is1(a(place::complement{gone}), pick([&](i64 i) { return left[size_t(i)]; }, i64(left.size())), "read", "complement");
   // writing
   auto src = rvec<T>(r, x.n);
   auto b = mk1<Array1D<T>>(src);
   a(sl(x)) = b;
   for(i64 i = 0; i < x.n; ++i) m[size_t(x.at(i))] = src[size_t(i)];
   is1(a, m, "written", str("seqN of ", n));
   T v = rnd<T>(r);
   a(place::complement{gone}) = S<T>(v);
   for(i64 i : left) m[size_t(i)] = v;
   is1(a, m, "written", str("complement of ", n));
   auto w = rvec<T>(r, (n + 1) / 2, 0, 9);
   a(place::even) += mk1<Array1D<T>>(w).lval();
   for(size_t i = 0; i < w.size(); ++i) m[2 * i] = T(m[2 * i] + w[i]);
   is1(a, m, "written", str("even += of ", n));
   ev("1D slices");
}
template <class T> void slices2(Case& c) {
   Rng& r = c.r;
   auto [p, q] = shape(r);
   auto m = rmat<T>(r, p, q);
   auto a = mk2<Array2D<T>>(m);
   auto x = sel(r, p), y = sel(r, q);
   std::string of = str(" of ", p, "x", q);
   is2(a(sl(x), sl(y)), cut(m, x.a, x.s, x.n, y.a, y.s, y.n), "read", "selection" + of);
   is2(a.rows(sl(x)), cut(m, x.a, x.s, x.n, 0, 1, q), "read", "rows" + of);
   is2(a.cols(sl(y)), cut(m, 0, 1, p, y.a, y.s, y.n), "read", "cols" + of);
   is2(a(place::reverse, place::even), cut(m, p - 1, -1, p, 0, 2, (q + 1) / 2), "read", "reverse, even" + of);
   i64 i0 = r.in(0, p - 1), i1 = r.in(i0, p - 1), j0 = r.in(0, q - 1), j1 = r.in(j0, q - 1);
   is2(a.block(long(i0), long(j0), long(i1), long(j1)), cut(m, i0, 1, i1 - i0 + 1, j0, 1, j1 - j0 + 1), "read", "block" + of);
   is2(a.blockN(long(i0), long(j0), long(i1 - i0 + 1), long(j1 - j0 + 1)), cut(m, i0, 1, i1 - i0 + 1, j0, 1, j1 - j0 + 1), "read", "blockN" + of);
   is1(a.row(long(i0)), cut(m, i0, 1, 1, 0, 1, q).d, "read", "row" + of);
   is1(a.col(long(j0)), cut(m, 0, 1, p, j0, 1, 1).d, "read", "col" + of);
   auto diag = [&](i64 k) {
      std::vector<T> d;
      for(i64 i = 0; i < p; ++i)
         if(i + k >= 0 && i + k < q) d.push_back(m(i, i + k));
      return d;
   };
   i64 k = r.in(-(p - 1), q - 1);
   is1(a.diag(), diag(0), "read", "diag" + of);
   is1(a.diag(long(k)), diag(k), "read", str("diag ", k) + of);
   // writing
   auto s = rmat<T>(r, x.n, y.n);
   auto b = mk2<Array2D<T>>(s);
   a(sl(x), sl(y)) = b;
   for(i64 i = 0; i < x.n; ++i)
      for(i64 j = 0; j < y.n; ++j) m(x.at(i), y.at(j)) = s(i, j);
   is2(a, m, "written", "selection" + of);
   T v = rnd<T>(r);
   a.diag(long(k)) = S<T>(v);
   for(i64 i = 0; i < p; ++i)
      if(i + k >= 0 && i + k < q) m(i, i + k) = v;
   is2(a, m, "written", "diag" + of);
   auto w = rvec<T>(r, q, 0, 9);
   a.row(long(i1)) += mk1<Array1D<T>>(w).lval();
   for(i64 j = 0; j < q; ++j) m(i1, j) = T(m(i1, j) + w[size_t(j)]);
   auto z = rvec<T>(r, p, 0, 9);
   a.col(long(j1)) = mk1<Array1D<T>>(z).lval();
   for(i64 i = 0; i < p; ++i) m(i, j1) = z[size_t(i)];
   is2(a, m, "written", "row and column" + of);
   ev("2D slices");
}
template <class T> void views(Case& c) {
   Rng& r = c.r;
   auto [p, q] = shape(r);
   auto m = rmat<T>(r, p, q);
   auto a = mk2<Array2D<T>>(m);
   auto b = mk1<Array1D<T>>(m.d);
   std::vector<T> mem(m.d);
   T* ptr = mem.data();
   is1(a.view1D(), m.d, "view", "view1D");
   is2(b.view2D(long(p), long(q)), m, "view", "view2D");
   Mat<T> t(q, p);
   t.d = m.d;
   is2(a.view2D(long(q), long(p)), t, "view", "view2D of 2D");
   auto x = attach1D(ptr, long(p * q));
   auto y = attach2D(ptr, long(p), long(q));
   is1(x, m.d, "view", "attach1D"), is2(y, m, "view", "attach2D");
   auto o = rvec<T>(r, p * q);
   auto src = mk1<Array1D<T>>(o);
   a.view1D() = src;
   Mat<T> mo(p, q);
   mo.d = o;
   is2(a, mo, "written", "through view1D");
   b.view2D(long(p), long(q)) = a;
   is1(b, o, "written", "through view2D");
   y = a;
   CHECK(eq(mem, o), "written", "through attach2D");
   is1(x, o, "written", "seen by attach1D");
   x(place::reverse) = src;
   std::reverse(o.begin(), o.end());
   CHECK(eq(mem, o), "written", "through a slice of attach1D");
   ev("views");
}
template <int K, class T> void exprs(Case& c, bool update) {
   Rng& r = c.r;
   i64 n = length(r, K == 4 || K == 8 ? 20000 : 60000);
   auto v = rvec<T>(r, n, 1, 20), w = rvec<T>(r, n, 1, 20);
   T s = rnd<T>(r, 1, 5);
   auto X = S<T>(s);
   hold1<K, T>(r, v, [&](auto& a) {
      auto b = mk1<Array1D<T>>(w);
      std::vector<T> m(v);
      auto each = [&](auto f) {
         for(size_t i = 0; i < m.size(); ++i) m[i] = f(v[i], w[i]);
      };
      if(!update) {
         each([&](T x, T y) { return T(T(x + y) * s); });
         is1((a + b) * X, m, "expression", "(a + b) * x");
         is1(((a + b) * X).eval(), m, "expression", "(a + b) * x evaluated");
         each([&](T x, T y) { return T(T(x * y) - T(x / y)); });
         is1(a * b - a / b, m, "expression", "a * b - a / b");
         each([&](T x, T y) { return T(-x) + (y < 0 ? T(-y) : y); });
         is1(-a + abs(b), m, "expression", "-a + abs(b)");
         Array1D<T> d(1L * n);
         d = b - a;
         each([](T x, T y) { return T(y - x); });
         is1(d, m, "expression", "assigned b - a");
         d += a * X;
         each([&](T x, T y) { return T(T(y - x) + T(x * s)); });
         is1(d, m, "expression", "added a * x");
         Array1D<T> e(1L * n, X);
         for(auto& z : m) z = s;
         is1(e, m, "expression", "constant");
      } else if constexpr(K != 7) {
         auto stored = a + b;
         a += b, each([](T x, T y) { return T(x + y); });
         is1(a, m, "update", "a += b");
         auto m2 = m;
         for(size_t i = 0; i < m.size(); ++i) m2[i] = T(m[i] + w[i]);
         is1(stored, m2, "lazy", "a + b after a changed");
         a = a * X + b;
         for(size_t i = 0; i < m.size(); ++i) m[i] = T(T(m[i] * s) + w[i]);
         is1(a, m, "update", "a = a * x + b");
         a(place::odd) = b(place::odd) - a(place::odd);
         for(size_t i = 1; i < m.size(); i += 2) m[i] = T(w[i] - m[i]);
         is1(a, m, "update", "odd elements in place");
         a -= X;
         for(auto& z : m) z = T(z - s);
         is1(a, m, "update", "a -= x");
      }
      ev(kname1[K]);
   });
}
template <class T> void structural(Case& c) {
   Rng& r = c.r;
   i64 n = length(r, 20000), k = length(r, 20000);
   auto v = rvec<T>(r, n), w = rvec<T>(r, k);
   auto a = mk1<Array1D<T>>(v), b = mk1<Array1D<T>>(w);
   T x = rnd<T>(r);
   auto m = v;
   m.insert(m.end(), w.begin(), w.end());
   is1(merge(a, b), m, "merge", "merge(a, b)");
   m.push_back(x);
   auto ab = merge(a, b);
   is1(merge(ab, S<T>(x)), m, "merge", "merge(ab, x)");
   i64 p = r.in(0, n - 1);
   m = v;
   m.erase(m.begin() + p);
   is1(exclude(a, long(p)), m, "exclude", "exclude");
   m.clear();
   for(i64 i = 0; i < n; ++i) m.push_back(T(T(2) + T(i % 100) * T(0)));
   is1(const1D(long(n), S<T>(T(2))), m, "const1D", "const1D");
   m.assign(size_t(n), T(0)), m[size_t(p)] = T(1);
   is1(e_unit<T>(long(p), long(n)).eval(), m, "e_unit", "e_unit");
   m.clear();
   for(i64 i = 0; i < n; ++i) m.push_back(T(T(3) + T(i)));
   is1(sequence(long(n), S<T>(T(3)), S<T>(T(1))), m, "sequence", "sequence");
   auto [pr, pc] = shape(r);
   auto mm = rmat<T>(r, pr, pc, -9, 9);
   auto A = mk2<Array2D<T>>(mm);
   Mat<T> t(pc, pr);
   for(i64 i = 0; i < pr; ++i)
      for(i64 j = 0; j < pc; ++j) t(j, i) = mm(i, j);
   is2(transpose(A), t, "transpose", "transpose");
   Array2D<T> B(1L * pc, 1L * pr);
   B = transpose(A);
   is2(B, t, "transpose", "assigned transpose");
   std::vector<T> rs(size_t(pr), T(0)), cs(size_t(pc), T(0)), mv(size_t(pr), T(0));
   auto u = rvec<T>(r, pc, -9, 9);
   for(i64 i = 0; i < pr; ++i)
      for(i64 j = 0; j < pc; ++j) {
         rs[size_t(i)] = T(rs[size_t(i)] + mm(i, j));
         cs[size_t(j)] = T(cs[size_t(j)] + mm(i, j));
         mv[size_t(i)] = T(mv[size_t(i)] + T(mm(i, j) * u[size_t(j)]));
      }
   is1(row_reduce(A, [](auto row) { return sum(row); }), rs, "row_reduce", "row_reduce");
   is1(col_reduce(A, [](auto col) { return sum(col); }), cs, "col_reduce", "col_reduce");
   auto U = mk1<Array1D<T>>(u);
   is1(matvec_prod(A, U), mv, "matvec_prod", "matvec_prod");
   i64 g = r.in(30, 200), h2 = r.in(30, 200);
   auto f1 = rvec<T>(r, g, -9, 9), f2 = rvec<T>(r, h2, -9, 9);
   auto F1 = mk1<Array1D<T>>(f1), F2 = mk1<Array1D<T>>(f2);
   Mat<T> tp(g, h2), eye(g, g), rb(g, g);
   for(i64 i = 0; i < g; ++i) {
      for(i64 j = 0; j < h2; ++j) tp(i, j) = T(f1[size_t(i)] * f2[size_t(j)]);
      for(i64 j = 0; j < g; ++j) eye(i, j) = T(i == j), rb(i, j) = f1[size_t(j)];
   }
   is2(tensor_prod(F1, F2), tp, "tensor_prod", "tensor_prod");
   is2(identity<T>(long(g)), eye, "identity", "identity");
   is2(row_broadcast(F1), rb, "row_broadcast", "row_broadcast");
   ev("structural");
}
template <int K, class T> void reductions(Case& c) {
   Rng& r = c.r;
   i64 n = length(r, K == 4 || K == 8 ? 20000 : 60000);
   auto v = rvec<T>(r, n, -50, 50), w = rvec<T>(r, n, -9, 9);   // small multiples of 1/8: sums are exact
   i64 lo = r.in(0, n - 1), hi = r.in(0, n - 1);
   v[size_t(hi)] = T(90);
   if(lo != hi) v[size_t(lo)] = T(-90);
   hold1<K, T>(r, v, [&](auto& a) {
      auto b = mk1<Array1D<T>>(w);
      long double s = 0, s1 = 0, s2 = 0, d = 0;
      for(size_t i = 0; i < v.size(); ++i) s += v[i], s1 += std::fabs((long double)v[i]), s2 += (long double)v[i] * v[i], d += (long double)v[i] * w[i];
      auto is = [&](auto got, long double want, const char* what) {
         CHECK((long double)got.val() == want, what, what, " of ", n, " elements is ", show(got.val()), " expected ", show(want));
      };
      is(sum(a), s, "sum"), is(dot_prod(a, b), d, "dot_prod"), is(dot_prod(a, a), s2, "dot_prod with itself");
      is(max(a), 90, "max");
      CHECK(max_index(a).first.val() == hi, "max_index", "max_index is ", max_index(a).first.val(), " expected ", hi, " of ", n);
      if(lo != hi) {
         is(min(a), -90, "min");
         CHECK(min_index(a).first.val() == lo, "min_index", "min_index is ", min_index(a).first.val(), " expected ", lo, " of ", n);
      }
      if constexpr(!std::is_integral_v<T>) {
         is(norm_inf(a), 90, "norm_inf"), is(norm1(a), s1, "norm1"), is(stable_sum(a), s, "stable_sum"), is(stable_dot_prod(a, b), d, "stable_dot_prod"), is(semi_stable_sum(a), s, "semi_stable_sum");
         auto near = [&](auto got, long double want, const char* what) {
            long double e = std::fabs((long double)got.val() - want);
            CHECK(e <= want * std::numeric_limits<T>::epsilon() * 4, what, what, " of ", n, " elements is ", show(got.val()), " expected ", show(want));
         };
         near(norm2(a), std::sqrt(s2), "norm2"), near(stable_norm2(a), std::sqrt(s2), "stable_norm2");
         is(mean(a), (long double)T(T(s) / T(n)), "mean");
      }
      ev(kname1[K]);
   });
}
template <int K, class T> void predicates(Case& c) {
   Rng& r = c.r;
   i64 n = length(r, K == 4 || K == 8 ? 20000 : 60000);
   std::vector<T> v = rvec<T>(r, n, 1, 50);
   i64 odd = r.chance(20) ? n - 1 : r.in(0, n - 1);
   int kind = int(r.below(4));
   T x = kind == 0 ? T(0) : kind == 1 ? T(-3) : T(77);
   if(kind < 3) v[size_t(odd)] = x;
   if constexpr(!std::is_integral_v<T>)
      if(r.chance(30)) {   // one value that is not finite
         auto u = v;
         bool nan = r.chance(50);
         u[size_t(odd)] = nan ? std::numeric_limits<T>::quiet_NaN() : r.chance(50) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
         hold1<K, T>(r, u, [&](auto& a) {
            CHECK(!all_finite(a), "all_finite", "of ", n, " elements, one at ", odd, " not finite");
            CHECK(bool(has_nan(a)) == nan && bool(has_inf(a)) == !nan, "has_nan or has_inf", "of ", n, " elements, one at ", odd, " not finite");
         });
         ev("not finite");
      }
   hold1<K, T>(r, v, [&](auto& a) {
      auto is = [&](bool got, bool want, const char* what) { CHECK(got == want, what, what, " of ", n, " elements, one at ", odd, " being ", show<T>(v[size_t(odd)]), ", is ", got); };
      auto out = [&](auto y) { return Strict<bool>{y.val() == T(0) || y.val() == T(-3) || y.val() == T(77)}; };
      is(bool(has_zero(a)), kind == 0, "has_zero");
      is(bool(all_pos(a)), kind > 1, "all_pos");
      is(bool(all_non_neg(a)), kind != 1, "all_non_neg");
      is(bool(any_of(a, out)), kind < 3, "any_of"), is(bool(none_of(a, out)), kind == 3, "none_of");
      is(bool(all_of(a, [&](auto y) { return !out(y); })), kind == 3, "all_of");
      auto b = mk1<Array1D<T>>(v);
      is(a == b ? true : false, true, "equal");
      b[long(odd)] = S<T>(T(78));
      is(a == b ? true : false, false, "equal");
      std::vector<T> m;
      for(auto y : v)
         if(y >= T(70) && y <= T(80)) m.push_back(y);
      is1(in_closed_range(b, S<T>(T(78)), S<T>(T(78))), std::vector<T>{T(78)}, "in_closed_range", "in_closed_range");
      std::vector<T> small;
      for(size_t i = 0; i < v.size(); ++i)
         if(i64(i) != odd && v[i] < T(20)) small.push_back(v[i]);
      is1(in_cond_range(b, [](auto y) { return y < S<T>(T(20)); }), small, "in_cond_range", "in_cond_range");
      u64 visits = 0, sum = 0;
      for_each(b, [&](auto y) { ++visits, sum = mix(sum ^ u64(double(y.val()) * 8)); });
      u64 want = 0;
      for(size_t i = 0; i < v.size(); ++i) want = mix(want ^ u64(double(i64(i) == odd ? T(78) : v[i]) * 8));
      CHECK(visits == u64(n) && sum == want, "for_each", "for_each visited ", visits, " of ", n, " elements, or in another order");
      ev(kname1[K]);
   });
}
template <class T> void randoms(Case& c) {
   Rng& r = c.r;
   i64 n = length(r);
   T lo = T(5), hi = T(9);
   auto in = [&](const auto& a, const char* what) {
      for(i64 i = 0; i < sz(a); ++i) {
         T x = a.un(long(i)).val();
         if(!(x >= lo && x <= hi)) fail("range", str(what, " of ", n, ": element ", i, " is ", show<T>(x)));
      }
      ev("elements compared", u64(sz(a)));
   };
   Array1D<T> a(1L * n, S<T>(T(1))), s1(1L * n), s2(1L * n);
   random(a, S<T>(lo), S<T>(hi)), in(a, "random");
   semi_random(s1, S<T>(lo), S<T>(hi), Seed{unsigned(r.in(1, 1000000))}), in(s1, "semi_random");
   unsigned seed = unsigned(r.in(1, 1000000));
   semi_random(s1, S<T>(lo), S<T>(hi), Seed{seed}), semi_random(s2, S<T>(lo), S<T>(hi), Seed{seed});
   is1(s1, vec(s2), "repeat", "semi_random of the same seed");
   a = S<T>(T(1));
   random(a(place::even).lval(), S<T>(lo), S<T>(hi)), in(a(place::even), "random slice");
   for(i64 i = 1; i < n; i += 2) CHECK(a.un(long(i)).val() == T(1), "elsewhere", "random wrote element ", i, " outside its target");
   auto l = random(Size{long(n)}, Low<T>{lo}, High<T>{hi});
   in(Array1D<T>(l), "random(n)");
   auto [p, q] = shape(r);
   Array2D<T> m(1L * p, 1L * q);
   random(m, S<T>(lo), S<T>(hi)), in(m, "random 2D");
   ev("random");
}
template <class T> void text(Case& c, bool bad) {
   Rng& r = c.r;
   if(r.chance(50)) {
      i64 n = length(r, 20000);
      auto v = rvec<T>(r, n), w = rvec<T>(r, 3);
      auto a = mk1<Array1D<T>>(v), b = mk1<Array1D<T>>(w);
      std::ostringstream os;
      os << a;
      if(!bad) {
         std::istringstream is(os.str());
         is >> b;
         is1(b, v, "read back", str("text of ", n));
         std::string file = str("large_", long(::getpid()), ".txt");
         std::ofstream(file) << a;
         Array1D<T> d;
         read_from_file(file, d);
         std::remove(file.c_str());
         is1(d, v, "read back", str("file of ", n));
      } else {
         std::string t = os.str();
         auto at = t.find('\n', size_t(r.below(t.size() - 2)));
         if(at == std::string::npos) at = t.size();
         t.insert(at, " x1");
         std::istringstream is(t);
         CHECK(throws([&] { is >> b; }), "accepted", "malformed text of ", n, " values");
         is1(b, w, "kept", "target of malformed text");
      }
   } else {
      auto [p, q] = shape(r, 20000);
      auto m = rmat<T>(r, p, q), o = rmat<T>(r, 2, 2);
      auto a = mk2<Array2D<T>>(m), b = mk2<Array2D<T>>(o);
      std::ostringstream os;
      os << a;
      std::string t = os.str();
      if(!bad) {
         std::istringstream is(t);
         is >> b;
         is2(b, m, "read back", str("text of ", p, "x", q));
      } else {
         auto at = t.find('\n', size_t(r.below(t.size() - 2)));
         if(at == std::string::npos) at = t.size();
         bool word = r.chance(50) || p == 1;
         t.insert(at, word ? " 1x" : " 1");   // a value too many in one line
         std::istringstream is(t);
         CHECK(throws([&] { is >> b; }), "accepted", "malformed text of ", p, "x", q, " values");
         is2(b, o, "kept", "target of malformed text");
      }
   }
   ev(bad ? "malformed" : "text");
}
template <int K, class T> void iterators(Case& c) {
   Rng& r = c.r;
   i64 n = length(r, K == 4 || K == 8 ? 20000 : 40000);
   auto v = r.chance(50) ? rvec<T>(r, n, -20, 20) : rvec<T>(r, n, -30000, 30000);
   hold1<K, T>(r, v, [&](auto& a) {
      auto m = v;
      std::vector<T> t;
      for(auto x : a) t.push_back(x.val());
      CHECK(eq(t, m), "traverse", "forward traversal of ", n);
      t.clear();
      for(auto i = a.rbegin(); i != a.rend(); ++i) t.push_back((*i).val());
      std::reverse(t.begin(), t.end());
      CHECK(eq(t, m), "traverse", "reverse traversal of ", n);
      CHECK(a.end() - a.begin() == n && a.begin() + n == a.end(), "distance", "of ", n);
      if constexpr(K != 7) {
         int op = int(r.below(5));
         auto byval = [](auto x, auto y) { return x < y; };
         if(op == 0) sort_increasing(a), std::sort(m.begin(), m.end());
         if(op == 1) sort_decreasing(a), std::sort(m.begin(), m.end(), std::greater<T>());
         if(op == 2) std::stable_sort(a.begin(), a.end(), byval), std::sort(m.begin(), m.end());
         if(op == 3) std::reverse(a.begin(), a.end()), std::reverse(m.begin(), m.end());
         if(op == 4) {
            shuffle(a);
            auto s = vec(a);
            CHECK(!eq(s, m) || n < 10, "shuffle", "left ", n, " elements where they were");
            std::sort(s.begin(), s.end()), std::sort(m.begin(), m.end());
            CHECK(eq(s, m), "shuffle", "of ", n, " elements is no permutation");
         } else is1(a, m, "algorithm", str("operation ", op));
         ev(str("operation ", op));
      }
      ev(kname1[K]);
   });
}
template <int K, class T> void errors(Case& c) {
   Rng& r = c.r;
   i64 n = length(r, K == 4 || K == 8 ? 20000 : 60000);
   auto v = rvec<T>(r, n, 1, 50);
   hold1<K, T>(r, v, [&](auto& a) {
      auto b = mk1<Array1D<T>>(v);
      i64 at = r.chance(20) ? n - 1 : r.in(0, n - 1);
      T off = T(v[size_t(at)] + T(1)), q = T(T(1) / std::max(off, v[size_t(at)]));
      CHECK(bool(within_tol_abs(a, b)) && bool(within_tol_rel(a, b)), "equal", "equal arrays are not within tolerance");
      b[long(at)] = S<T>(off);
      CHECK(!within_tol_abs(a, b, S<T>(T(0.5))) && !within_tol_abs(b, a, S<T>(T(0.5))) && bool(within_tol_abs(a, b, S<T>(T(1)))), "within_tol_abs", "of ", n, ", one differs at ", at);
      CHECK(!within_tol_rel(a, b, S<T>(q / T(2))) && !within_tol_rel(b, a, S<T>(q / T(2))) && bool(within_tol_rel(a, b, S<T>(q * T(2)))), "within_tol_rel", "of ", n, ", one differs at ", at);
      CHECK(max_abs_error(a, b).val() == T(1), "max_abs_error", "of ", n, ", one differs at ", at, ": ", show<T>(max_abs_error(a, b).val()));
      auto e = max_rel_error(a, b);
      CHECK(bool(e) && std::fabs(e->val() - T(1) / off) <= T(4) * std::numeric_limits<T>::epsilon() / off, "max_rel_error", "of ", n, ", one differs at ", at);
      b[long(at)] = S<T>(T(0));
      CHECK(!max_rel_error(a, b) && !max_rel_error(b, a), "max_rel_error", "of ", n, ", one is zero at ", at);
      ev(kname1[K]);
   });
}
template <class T, AlignmentFlag K> void storage(Case& c) {
   Rng& r = c.r;
   constexpr bool al = K == Aligned;
   using A1 = Array1D<T, K>;
   using A2 = Array2D<T, K>;
   auto chk = [&](auto& a, i64 n, const char* what) {
      CHECK(reinterpret_cast<const T*>(a.data()) == a.blas_data() && a.blas_data() != nullptr, "pointer", what, " of ", n);
      if(al) CHECK(reinterpret_cast<size_t>(a.blas_data()) % 64 == 0, "alignment", what, " of ", n);
      for(i64 i = 0; i < n; i += (i < 2000 ? 1 : 97)) CHECK(reinterpret_cast<const T*>(&a.un(long(i))) == a.blas_data() + i, "contiguous", what, " of ", n, " element ", i);
      CHECK(a.bytes().val() == i64(sizeof(T)) * n, "bytes", what, " of ", n);
   };
   i64 n = length(r);
   A1 a(1L * n), b;
   chk(a, n, "constructed");
   i64 k = length(r, 30000);
   b = A1(), b.resize(long(k)), chk(b, k, "resized");
   b.insert(long(r.in(0, k)), a), chk(b, n + k, "after insertion");
   b.remove_front(long(r.in(1, n))), chk(b, sz(b), "after removal");
   a.swap(b), chk(a, sz(a), "swapped"), chk(b, n, "swapped with");
   A1 d(a), e(std::move(a));
   chk(d, sz(d), "copied"), chk(e, sz(e), "moved");
   auto [p, q] = shape(r);
   A2 m(1L * p, 1L * q);
   chk(m, p * q, "2D");
   m.insert_rows(0L, m.block(0, 0, 0, long(q - 1)));
   chk(m, (p + 1) * q, "2D after insertion");
   ev(al ? "aligned" : "unaligned");
}
#ifdef WITH_EIGEN
template <class T> void products(Case& c) {
   Rng& r = c.r;
   i64 p = r.in(1, 90), q = r.in(1, 90), s = r.in(1, 90);
   if(r.chance(40)) p = r.in(1, 300), q = r.in(1, 24), s = r.in(1, 300);
   if(r.chance(20)) q = r.in(200, 700), p = r.in(1, 20), s = r.in(1, 20);
   auto a = rmat<T>(r, p, q, -9, 9), b = rmat<T>(r, q, s, -9, 9);   // multiples of 1/8: sums are exact in any order
   auto A = mk2<Array2D<T>>(a);
   auto B = mk2<Array2D<T, Aligned>>(b);
   Mat<T> m(p, s);
   for(i64 i = 0; i < p; ++i)
      for(i64 k = 0; k < q; ++k)
         for(i64 j = 0; j < s; ++j) m(i, j) = T(m(i, j) + T(a(i, k) * b(k, j)));
   for(auto& x : m.d) x = x + T(0);
   auto plus0 = [](auto X) { for(auto& x : X) x = x + Strict<T>{T(0)}; return X; };
   is2(plus0(matrix_prod(A, B)), m, "product", str(p, "x", q, " by ", q, "x", s));
   Array2D<T> C(1L * p, 1L * s, S<T>(T(7)));
   matrix_prod(A, B, C);
   is2(plus0(C), m, "product", str(p, "x", q, " by ", q, "x", s, " into"));
   if(p <= 120) {   // a square factor and its own storage as the target
      auto z = rmat<T>(r, p, p, -9, 9);
      auto Z = mk2<Array2D<T>>(z);
      Mat<T> w(p, q);
      for(i64 i = 0; i < p; ++i)
         for(i64 k = 0; k < p; ++k)
            for(i64 j = 0; j < q; ++j) w(i, j) = T(w(i, j) + T(z(i, k) * a(k, j)));
      for(auto& x : w.d) x = x + T(0);
      matrix_prod(Z, A, A);
      is2(plus0(A), w, "product", str(p, "x", p, " by ", p, "x", q, " into the second factor"));
   }
   ev("products");
}
#endif

template <int W> void work(Case& c) {
   constexpr int kinds[] = {0, 1, 2, 3, 4, 5, 7, 8};
   auto by_kind = [&](auto f) {
      [&]<int... I>(std::integer_sequence<int, I...>) {
         int k = int(c.r.below(8));
         (void)((k == I && (f(std::integral_constant<int, kinds[I]>()), true)) || ...);
      }(std::make_integer_sequence<int, 8>());
   };
   Rng& r = c.r;
   (void)by_kind, (void)r;
   if constexpr(W == 4) r.chance(50) ? edits1<double, Unaligned>(c) : r.chance(50) ? edits1<int, Aligned>(c) : edits1<float, Unaligned>(c);
   if constexpr(W == 5) r.chance(50) ? edits2<double, Unaligned>(c) : r.chance(50) ? edits2<int, Aligned>(c) : edits2<float, Unaligned>(c);
   if constexpr(W == 6) {
      i64 n = length(r), k = length(r);
      auto [p, q] = shape(r);
      auto [p2, q2] = shape(r);
      auto one = [](auto& a, auto& m, const char* what) { is1(a, m, "value", what); };
      auto two = [](auto& a, auto& m, const char* what) { is2(a, m, "value", what); };
      switch(r.below(4)) {
      case 0: values_of<Array1D<double>>(c, rvec<double>(r, n), rvec<double>(r, n), one); break;
      case 1: values_of<Array1D<int, Aligned>>(c, rvec<int>(r, k), rvec<int>(r, k), one); break;
      case 2: values_of<Array2D<double>>(c, rmat<double>(r, p, q), rmat<double>(r, p, q), two); break;
      default: values_of<Array2D<float, Aligned>>(c, rmat<float>(r, p2, q2), rmat<float>(r, p2, q2), two);
      }
   }
   if constexpr(W == 7) r.chance(50) ? slices1<double>(c) : r.chance(50) ? slices1<int>(c) : slices1<float>(c);
   if constexpr(W == 8) r.chance(50) ? slices2<double>(c) : r.chance(50) ? slices2<int>(c) : slices2<float>(c);
   if constexpr(W == 9) r.chance(50) ? views<double>(c) : r.chance(50) ? views<int>(c) : views<float>(c);
   if constexpr(W == 10 || W == 11) by_kind([&]<int K>(std::integral_constant<int, K>) { r.chance(50) ? exprs<K, double>(c, W == 11) : exprs<K, int>(c, W == 11); });
   if constexpr(W == 12) r.chance(50) ? structural<double>(c) : structural<int>(c);
   if constexpr(W == 17) by_kind([&]<int K>(std::integral_constant<int, K>) { r.chance(60) ? reductions<K, double>(c) : reductions<K, int>(c); });
   if constexpr(W == 18) by_kind([&]<int K>(std::integral_constant<int, K>) { r.chance(60) ? predicates<K, double>(c) : predicates<K, int>(c); });
   if constexpr(W == 20) r.chance(50) ? randoms<double>(c) : r.chance(50) ? randoms<int>(c) : randoms<float>(c);
   if constexpr(W == 21 || W == 22) r.chance(50) ? text<double>(c, W == 22) : text<int>(c, W == 22);
   if constexpr(W == 23) by_kind([&]<int K>(std::integral_constant<int, K>) { r.chance(50) ? iterators<K, double>(c) : iterators<K, int>(c); });
   if constexpr(W == 24) by_kind([&]<int K>(std::integral_constant<int, K>) { errors<K, double>(c); });
#ifdef WITH_EIGEN
   if constexpr(W == 27) r.chance(50) ? products<double>(c) : r.chance(50) ? products<int>(c) : products<float>(c);
#endif
   if constexpr(W == 28) r.chance(50) ? storage<double, Aligned>(c) : r.chance(50) ? storage<int, Aligned>(c) : storage<double, Unaligned>(c);
}

int main(int argc, char** argv) {
   return h::run(argc, argv, [](Case& c) {
      c.nontrivial = true;
      current = &c;
      work<WHAT>(c);
   });
}
