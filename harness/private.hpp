// Deterministic work on objects of one's own: edit histories, scalar arithmetic, text.
#pragma once
#include "work.hpp"

namespace w {
// Edit histories of owning arrays.
template <class T> void edits(Case& c, Dig& d) {
   Rng& r = c.r;
   Array1D<T> a;
   Array2D<T> m;
   for(i64 k = r.in(2, 14); k > 0; --k) {
      i64 n = sz(a);
      auto v = values<T>(r, r.in(0, 9));
      auto b = mk1<Array1D<T>>(v);
      int op = int(r.below(14));
      d.op("edit"), d.n(op);
      switch(op) {
      case 0: a.insert(long(r.in(0, n)), b); break;
      case 1: a.insert_back(S<T>(value<T>(r))); break;
      case 2: if(n) a.remove(long(r.in(0, n - 1))); break;
      case 3: if(n) a.remove_front(long(r.in(1, n))); break;
      case 4: a.resize(long(r.in(0, n))); break;
      case 5: a.resize_and_assign(b); break;
      case 6: a.insert(long(r.in(0, n)), a); if(sz(a) > 200) a.resize(5L); break;
      case 7: {
         Array1D<T> x(a), y(std::move(x));
         a.swap(y);
         break;
      }
      case 8: if(n) a.insert_front(a(place::reverse)(place::even)); break;
      case 9: if(n) a(place::odd) = S<T>(T(1)); break;
      case 10: if(n) a.remove(last); break;
      case 11:
         if(n) {
            std::vector<ImplicitInt> x;
            for(i64 i = 0; i < n; ++i)
               if(r.chance(30)) x.push_back(long(i));
            a.remove(x);
         }
         break;
      case 12: {
         auto f = S<T>(value<T>(r));
         Array1D<T> x(1L * n, f), y = const1D(1L * n, f);
         d.a(x), d.a(y);
         break;
      }
      case 13: {
         auto f = S<T>(value<T>(r));
         a = f;
         break;
      }
      }
      d.a(a);
      i64 nr = m.rows().val(), nc = m.cols().val();
      op = int(r.below(11));
      i64 p = r.in(1, 6), q = r.in(1, 6), u = r.in(0, nr), w3 = r.in(0, nc);   // drawn here: arguments are evaluated in any order
      d.op("edit2"), d.n(op);
      switch(op) {
      case 0: m.resize_and_assign(mk2<Array2D<T>>(values<T>(r, p, q))); break;
      case 1: if(nr && nr < 30) m.insert_rows(long(u), mk2<Array2D<T>>(values<T>(r, 1 + p % 3, nc))); break;
      case 2: if(nr && nc < 30) m.insert_cols(long(w3), mk2<Array2D<T>>(values<T>(r, nr, 1 + p % 3))); break;
      case 3: if(nr) m.remove_row(long(r.in(0, nr - 1))); break;
      case 4: if(nr) m.remove_col(long(r.in(0, nc - 1))); break;
      case 5: if(nr) m.resize(long(1 + u % nr), long(1 + w3 % nc)); break;
      case 6: if(nr) m.insert_row(0, m.row(long(nr - 1))); break;
      case 7: if(nr) m.insert_col(long(nc), m.col(0)); break;
      case 8: if(nr) m.resize_and_assign(transpose(m)); break;
      case 9: if(nr) m.row(0) = S<T>(T(1)); break;
      case 10: {
         auto f = S<T>(value<T>(r));
         Array2D<T> x(1L * p, 1L * q, f), y = const2D(1L * p, 1L * q, f);
         d.a(x), d.a(y);
         if(nr) m = f;
         break;
      }
      }
      d.a(m);
   }
}
template <class T> void scalars(Case& c, Dig& d) {
   Rng& r = c.r;
   for(int k = 0; k < 40; ++k) {
      T x = value<T>(r), y = value<T>(r);
      auto a = S<T>(x), b = S<T>(y);
      d.op("compare"), d.b(bool(a < b)), d.b(bool(a <= b)), d.b(bool(a == b)), d.b(bool(a != b)), d.b(bool(a > b)), d.b(bool(a >= b));
      d.op("arithmetic"), d.s(a + b), d.s(a - b), d.s(a * b);
      if(y != T(0)) d.s(a / b);
      if constexpr(!std::is_unsigned_v<T>) d.s(-a);
      d.s(+a), d.s(abss(a)), d.s(mins(a, b)), d.s(maxs(a, b)), d.s(signs(a));
      a += b, d.s(a), a *= b, d.s(a), a -= b, d.s(a), a = S<T>(x);
      if constexpr(INT<T>) {
         auto p = abss(b);
         if(y != T(0)) d.op("integer"), d.s(a % b);
         d.s(a & b), d.s(a | b), d.s(a ^ b), d.s(~a), d.s(abss(a) << p), d.s(abss(a) >> p), ++a, d.s(a), --a, d.s(a);
      } else {
         d.op("math"), d.s(sqrts(abss(a))), d.s(exps(b)), d.s(sins(a)), d.s(coss(a)), d.s(cbrts(a)), d.s(pows_int(a, 5)), d.s(fast_pows_int(a, 7));
         if(x != T(0)) d.s(logs(abss(a))), d.s(invs(a));
         auto [s, e] = two_sums(a, b);
         auto [p, q] = two_prods(a, b);
         d.op("two"), d.s(s), d.s(e), d.s(p), d.s(q), d.s(a.sd()), d.s(a.sf()), d.s(a.sld());
         d.b(bool(within_tol_abs(a, b))), d.b(bool(within_tol_rel(a, b)));
      }
      d.op("cast"), d.s(strict_cast<double>(a)), d.s(strict_cast<float>(a)), d.b(bool(strict_cast<bool>(a)));
      if(d.invalid || true) {
         std::ostringstream os;
         os << a << ' ' << b;
         d.op("print"), d.str(os.str());
         std::istringstream is("17 3.5");
         auto z = S<T>(T(0));
         is >> z;
         d.op("read"), d.s(z);
      }
   }
}
template <class T> void io(Case& c, Dig& d) {
   Rng& r = c.r;
   auto v = values<T>(r, r.in(0, 30));
   if constexpr(FL<T>)
      for(auto& x : v)
         if(x != T(0) && std::fabs((double)x) < 1e-300) x = T(1);
   auto a = mk1<Array1D<T>>(v);
   std::stringstream ss;
   ss << a;
   d.op("written"), d.str(ss.str());
   Array1D<T> b;
   ss >> b;
   d.op("read"), d.a(b);
   i64 nr = r.in(1, 6), nc = r.in(1, 6);
   auto m = mk2<Array2D<T>>(values<T>(r, nr, nc));
   if constexpr(FL<T>) for(auto& x : m) if(x.val() != T(0) && std::fabs((double)x.val()) < 1e-300) x = S<T>(T(1));
   std::stringstream s2;
   s2 << m;
   d.op("written 2D"), d.str(s2.str());
   Array2D<T> q;
   s2 >> q;
   d.op("read 2D"), d.a(q);
}

}   // namespace w
