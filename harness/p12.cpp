// P12: structural functions against their definition on plain vectors and matrices.
#include "operands.hpp"
using namespace h;
using namespace spp;

template <class T> using V = std::vector<T>;

template <class T> void cmp(const V<T>& got, const V<T>& want, const char* key, const std::string& what) {
   CHECK(eq(got, want), key, what, ": got ", show(got), " expected ", show(want));
}
template <class T> void cmp(const Mat<T>& got, const Mat<T>& want, const char* key, const std::string& what) {
   CHECK(eq(got, want), key, what, ": got ", show(got), " expected ", show(want));
}
template <class E, class T> void chk(Rng& r, const E& e, const V<T>& want, const std::string& what) {
   static_assert(std::is_same_v<bt<E>, T>);
   CHECK(sz(e) == i64(want.size()), "size", what, ": size ", sz(e), " expected ", want.size());
   cmp(vec(e), want, "value", what);
   Array1D<T> a(e);
   cmp(vec(a), want, "evaluated", what);
   // random access order must not matter
   for(int t = 0; t < 3 && !want.empty(); ++t) {
      i64 i = r.in(0, i64(want.size()) - 1);
      CHECK(same_bits<T>(e.un(long(i)).val(), want[size_t(i)]), "value", what, " at ", i);
   }
   if(!want.empty() && r.chance(30)) {   // a selection of the result
      auto s = e(place::reverse).eval();
      V<T> w(want.rbegin(), want.rend());
      cmp(vec(s), w, "sliced", what);
   }
   if(r.chance(30)) {
      Array1D<T> b;
      b.resize_and_assign(e);
      cmp(vec(b), want, "resize_and_assign", what);
   }
}
template <class E, class T> void chk(Rng& r, const E& e, const Mat<T>& want, const std::string& what) {
   static_assert(std::is_same_v<bt<E>, T>);
   CHECK(e.rows().val() == want.r && e.cols().val() == want.c && sz(e) == want.size(), "shape", what, ": ", e.rows().val(), "x", e.cols().val(),
         " size ", sz(e), " expected ", want.r, "x", want.c);
   cmp(mat(e), want, "value", what);
   cmp(vec(e), want.d, "linear", what);
   Array2D<T> a(e);
   cmp(mat(a), want, "evaluated", what);
   if(want.size() && r.chance(30)) {
      i64 i = r.in(0, want.r - 1), j = r.in(0, want.c - 1);
      V<T> row, col;
      for(i64 q = 0; q < want.c; ++q) row.push_back(want(i, q));
      for(i64 q = 0; q < want.r; ++q) col.push_back(want(q, j));
      cmp(vec(e.row(long(i))), row, "row-of", what);
      cmp(vec(e.col(long(j))), col, "col-of", what);
      cmp(vec(e.view1D()), want.d, "view1D-of", what);
   }
}

template <class T> V<T> rv(Rng& r, i64 n) { return rvec<T>(r, n); }
template <class T> V<T> cat(const V<T>& a, const V<T>& b) {
   V<T> c(a);
   c.insert(c.end(), b.begin(), b.end());
   return c;
}
template <class T> Mat<T> hcat(const Mat<T>& a, const Mat<T>& b) {
   if(!a.size()) return b;
   if(!b.size()) return a;
   Mat<T> m(a.r, a.c + b.c);
   for(i64 i = 0; i < m.r; ++i)
      for(i64 j = 0; j < m.c; ++j) m(i, j) = j < a.c ? a(i, j) : b(i, j - a.c);
   return m;
}
template <class T> Mat<T> vcat(const Mat<T>& a, const Mat<T>& b) {
   if(!a.size()) return b;
   if(!b.size()) return a;
   Mat<T> m(a.r + b.r, a.c);
   for(i64 i = 0; i < m.r; ++i)
      for(i64 j = 0; j < m.c; ++j) m(i, j) = i < a.r ? a(i, j) : b(i - a.r, j);
   return m;
}
template <class T> Mat<T> tr(const Mat<T>& a) {
   Mat<T> m(a.c, a.r);
   for(i64 i = 0; i < m.r; ++i)
      for(i64 j = 0; j < m.c; ++j) m(i, j) = a(j, i);
   return m;
}

using P1 = kinds<0x00, 0x12, 0x24, 0x44, 0x37, 0x58, 0x73>;
using K1 = kinds<0, 2, 4, 7, 8>;
using K2 = kinds<0, 2, 3, 6, 7>;
using P2 = kinds<0x00, 0x12, 0x33, 0x46, 0x60>;

template <class T> void merge1(Case& c) {
   Rng& r = c.r;
   auto a = rv<T>(r, rsize(r)), b = rv<T>(r, rsize(r));
   int f = int(r.below(6));
   c.note(u64(f));
   c.note(a.size() * 1000 + b.size());
   logs("merge form ", f, " ", a.size(), " ", b.size());
   ev(str("merge.", f));
   T x = rnd<T>(r), y = rnd<T>(r), z = rnd<T>(r);
   if(f < 2) {
      pair1<T>(r, a, b, P1{}, [&](auto& p, auto& q) { chk(r, merge(p, q), cat(a, b), "merge(A,B)"); });
   } else if(f == 2) {
      auto d = rv<T>(r, rsize(r, 12)), e = rv<T>(r, rsize(r, 12));
      any1<T>(r, a, K1{}, [&](auto& p) {
         auto B = mk1<Array1D<T>>(b);
         auto D0 = mk1<Array1D<T>>(cat(V<T>{x}, d));
         auto D = D0(seqN{1, long(d.size())});
         auto E = mk1<Array1D<T, Aligned>>(e);
         chk(r, merge(p, B, D), cat(cat(a, b), d), "merge(A,B,C)");
         chk(r, merge(B, p, E, D), cat(cat(cat(b, a), e), d), "merge(A,B,C,D)");
         chk(r, merge(p, p, p), cat(cat(a, a), a), "merge(A,A,A)");
         if(a.size() < 12) expect1(spp::merge(p, p, p, p, p, p), cat(cat(cat(a, a), cat(a, a)), cat(a, a)), "value", "merge(A,A,A,A,A,A)");
      });
   } else if(f == 3) {
      any1<T>(r, a, K1{}, [&](auto& p) {
         chk(r, merge(p, S(x)), cat(a, V<T>{x}), "merge(A,x)");
         chk(r, merge(p, S(x), S(y), S(z)), cat(a, V<T>{x, y, z}), "merge(A,x,y,z)");
      });
   } else if(f == 4) {
      any1<T>(r, a, K1{}, [&](auto& p) {
         chk(r, merge(S(x), p), cat(V<T>{x}, a), "merge(x,A)");
         chk(r, merge(S(x), S(y), p), cat(V<T>{x, y}, a), "merge(x,y,A)");
         chk(r, merge(S(x), S(y), S(z), p), cat(V<T>{x, y, z}, a), "merge(x,y,z,A)");
      });
   } else {   // assigned to its own operand; nested
      auto A = mk1<Array1D<T>>(a);
      auto B = mk1<Array1D<T>>(b);
      A.resize_and_assign(merge(A, B, A));
      expect1(A, cat(cat(a, b), a), "value", "A = merge(A,B,A)");
      B.resize_and_assign(merge(merge(B, S(x)), merge(S(y), B)));
      expect1(B, cat(cat(b, V<T>{x, y}), b), "value", "B = merge(merge(B,x),merge(y,B))");
   }
   c.nontrivial = true;
}

template <class T> void mergehv(Case& c) {
   Rng& r = c.r;
   bool hor = r.chance(50);
   i64 k = r.in(1, 6), p = r.in(1, 6), q = r.in(1, 6), s = r.in(1, 6);
   auto shape = [&](i64 v) { return r.chance(12) ? Mat<T>(0, 0) : hor ? rmat<T>(r, k, v) : rmat<T>(r, v, k); };
   auto a = shape(p), b = shape(q), d = shape(s);
   auto j = [&](const auto& u, const auto& v) { return hor ? hcat(u, v) : vcat(u, v); };
   int f = int(r.below(4));
   const char* nm = hor ? "merge_horizontal" : "merge_vertical";
   logs(nm, " form ", f, " ", show(a), show(b), show(d));
   c.note(u64(hor) + 2 * u64(f));
   c.note(u64(a.size() * 10000 + b.size() * 100 + d.size()));
   ev(str(nm, ".", f));
   if(!a.size() || !b.size()) ev("merge2D.empty");
   auto mg = [&](auto&... u) {
      if constexpr(sizeof...(u) == 2) {
         if(hor) chk(r, merge_horizontal(u...), j(a, b), nm);
         else chk(r, merge_vertical(u...), j(a, b), nm);
      } else {
         if(hor) chk(r, merge_horizontal(u...), j(a, j(b, d)), nm);
         else chk(r, merge_vertical(u...), j(a, j(b, d)), nm);
      }
   };
   if(f < 2) {
      pair2<T>(r, a, b, P2{}, [&](auto& u, auto& v) { mg(u, v); });
   } else if(f == 2) {
      any2<T>(r, b, K2{}, [&](auto& v) {
         auto A = mk2<Array2D<T>>(a);
         auto D = mk2<Array2D<T, Aligned>>(d);
         mg(A, v, D);
      });
   } else {   // non-conforming operands are rejected
      auto A = mk2<Array2D<T>>(hor ? rmat<T>(r, k, p) : rmat<T>(r, p, k));
      i64 k2 = k + r.in(1, 3);
      auto B = mk2<Array2D<T>>(hor ? rmat<T>(r, k2, q) : rmat<T>(r, q, k2));
      auto D = mk2<Array2D<T>>(hor ? rmat<T>(r, k2, s) : rmat<T>(r, s, k2));
      CHECK(throws([&] { hor ? (void)merge_horizontal(A, B).eval() : (void)merge_vertical(A, B).eval(); }), "mismatch-accepted", nm, " of mismatched shapes accepted");
      CHECK(throws([&] { hor ? (void)merge_horizontal(B, A).eval() : (void)merge_vertical(B, A).eval(); }), "mismatch-accepted", nm, " of mismatched shapes accepted");
      CHECK(throws([&] { hor ? (void)merge_horizontal(A, B, D).eval() : (void)merge_vertical(A, B, D).eval(); }), "mismatch-accepted", nm, " of mismatched shapes accepted");
      CHECK(throws([&] { hor ? (void)merge_horizontal(B, D, A).eval() : (void)merge_vertical(B, D, A).eval(); }), "mismatch-accepted", nm, " of mismatched shapes accepted");
   }
   c.nontrivial = true;
}

template <class T> void excl(Case& c) {
   Rng& r = c.r;
   i64 n = std::max<i64>(1, rsize(r));
   auto a = rv<T>(r, n);
   i64 pos = r.in(0, n - 1), cnt = r.in(1, n - pos);
   if(r.chance(20)) pos = r.pick({i64(0), n - 1}), cnt = 1;
   if(r.chance(10)) pos = 0, cnt = n;
   auto del = [&](i64 p, i64 k) {
      V<T> w(a);
      w.erase(w.begin() + p, w.begin() + p + k);
      return w;
   };
   logs("exclude n=", n, " pos=", pos, " count=", cnt);
   c.note(u64(n * 10000 + pos * 100 + cnt));
   ev("exclude");
   any1<T>(r, a, K1{}, [&](auto& p) {
      chk(r, exclude(p, long(pos), long(cnt)), del(pos, cnt), "exclude(A,pos,count)");
      chk(r, exclude(p, long(pos)), del(pos, 1), "exclude(A,pos)");
      chk(r, exclude(p, Pos{long(pos)}, Count{long(cnt)}), del(pos, cnt), "exclude(A,Pos,Count)");
      chk(r, exclude(p, Pos{long(pos)}), del(pos, 1), "exclude(A,Pos)");
      chk(r, exclude(p, last), del(n - 1, 1), "exclude(A,last)");
      i64 k = r.in(0, n - 1);
      chk(r, exclude(p, last - k), del(n - 1 - k, 1), "exclude(A,last-k)");
      CHECK(throws([&] { (void)exclude(p, long(n)); }), "bad-accepted", "exclude at size");
      CHECK(throws([&] { (void)exclude(p, -1L); }), "bad-accepted", "exclude at -1");
      CHECK(throws([&] { (void)exclude(p, long(pos), long(n - pos + 1)); }), "bad-accepted", "exclude too many");
      CHECK(throws([&] { (void)exclude(p, long(pos), 0L); }), "bad-accepted", "exclude none");
      CHECK(throws([&] { (void)exclude(p, last - n); }), "bad-accepted", "exclude before the first");
   });
   c.nontrivial = true;
}

template <class T> void generators(Case& c) {
   Rng& r = c.r;
   i64 n = rsize(r);
   int f = int(r.below(7));
   c.note(u64(f * 1000 + n));
   logs("generator form ", f, " n=", n);
   ev(str("generator.", f));
   T st = rnd<T>(r, -9, 9), in = rnd<T>(r, -5, 5);
   auto seqv = [&](T s0, T i0) {
      V<T> w;
      for(i64 i = 0; i < n; ++i) w.push_back(T(s0 + i0 * T(i)));
      return w;
   };
   switch(f) {
   case 0:
      chk(r, sequence(long(n), S(st), S(in)), seqv(st, in), "sequence(n,start,incr)");
      chk(r, sequence(long(n), S(st)), seqv(st, T(1)), "sequence(n,start)");
      chk(r, sequence<T>(long(n)), seqv(T(0), T(1)), "sequence(n)");
      chk(r, sequence(Size{long(n)}, Start{T(st)}, Incr{T(in)}), seqv(st, in), "sequence(Size,Start,Incr)");
      chk(r, sequence(Size{long(n)}, Start{T(st)}), seqv(st, T(1)), "sequence(Size,Start)");
      chk(r, sequence<T>(Size{long(n)}), seqv(T(0), T(1)), "sequence(Size)");
      CHECK(throws([&] { (void)sequence<T>(-1L).eval(); }), "bad-accepted", "sequence of negative size");
      break;
   case 1: {
      if constexpr(std::is_floating_point_v<T>) {
         i64 m = std::max<i64>(1, n);
         T e = rnd<T>(r, -90, 90);
         T h0 = m == 1 ? T(0) : (e - st) / T(m - 1);
         V<T> w;
         for(i64 i = 0; i < m; ++i) w.push_back(st + h0 * T(i));
         chk(r, linspace(long(m), S(st), S(e)), w, "linspace");
         chk(r, linspace(Size{long(m)}, Start{T(st)}, End{T(e)}), w, "linspace named");
         auto l = linspace(long(m), S(st), S(e)).eval();
         CHECK(l.un(0).val() == st, "linspace-start", "linspace starts at ", show(l.un(0).val()), " not ", show(st));
         if(m > 1) {
            T d = std::abs(l.un(long(m - 1)).val() - e), b = 4 * std::numeric_limits<T>::epsilon() * (std::abs(st) + std::abs(e));
            CHECK(d <= b, "linspace-end", "linspace ends at ", show(l.un(long(m - 1)).val()), " not ", show(e));
         }
         CHECK(throws([&] { (void)linspace(0L, S(st), S(e)).eval(); }), "bad-accepted", "linspace of size 0");
      }
      break;
   }
   case 2: {
      auto ir = [&](i64 k) {
         V<long> w;
         for(i64 i = 0; i < k; ++i) w.push_back(long(i));
         return w;
      };
      chk(r, irange(long(n)), ir(n), "irange(n)");
      any1<T>(r, rv<T>(r, n), K1{}, [&](auto& p) {
         chk(r, irange(p), ir(n), "irange(A)");
         if(n) chk(r, irange_m1(p), ir(n - 1), "irange_m1(A)");
      });
      i64 nr = r.in(1, 7), nc = r.in(1, 7);
      any2<T>(r, rmat<T>(r, nr, nc), K2{}, [&](auto& p) {
         chk(r, irange_row(p), ir(nr), "irange_row");
         chk(r, irange_col(p), ir(nc), "irange_col");
         chk(r, irange_row_m1(p), ir(nr - 1), "irange_row_m1");
         chk(r, irange_col_m1(p), ir(nc - 1), "irange_col_m1");
      });
      break;
   }
   case 3: {
      i64 m = std::max<i64>(1, n), k = r.in(0, m - 1);
      V<T> w(size_t(m), T(0));
      w[size_t(k)] = T(1);
      chk(r, e_unit<T>(long(k), long(m)), w, "e_unit");
      chk(r, e_unit<T>(Index{long(k)}, Size{long(m)}), w, "e_unit named");
      CHECK(throws([&] { (void)e_unit<T>(long(m), long(m)); }), "bad-accepted", "e_unit index = size");
      CHECK(throws([&] { (void)e_unit<T>(-1L, long(m)); }), "bad-accepted", "e_unit index -1");
      CHECK(throws([&] { (void)e_unit<T>(0L, 0L); }), "bad-accepted", "e_unit of size 0");
      break;
   }
   case 4: {
      i64 m = r.in(0, 9);
      Mat<T> w(m, m);
      for(i64 i = 0; i < m; ++i)
         for(i64 j = 0; j < m; ++j) w(i, j) = T(i == j);
      chk(r, identity<T>(long(m)), w, "identity");
      CHECK(throws([&] { (void)identity<T>(-1L); }), "bad-accepted", "identity of negative size");
      break;
   }
   case 5:
      chk(r, const1D(long(n), S(st)), V<T>(size_t(n), st), "const1D");
      chk(r, const1D(Size{long(n)}, Value<T>{st}), V<T>(size_t(n), st), "const1D named");
      CHECK(throws([&] { (void)const1D(-1L, S(st)); }), "bad-accepted", "const1D of negative size");
      break;
   default: {
      i64 nr = r.in(1, 8), nc = r.in(1, 8);
      if(r.chance(8)) nr = nc = 0;
      Mat<T> w(nr, nc);
      for(auto&& q : w.d) q = st;
      chk(r, const2D(long(nr), long(nc), S(st)), w, "const2D");
      chk(r, const2D(Rows{long(nr)}, Cols{long(nc)}, Value<T>{st}), w, "const2D named");
      CHECK(throws([&] { (void)const2D(0L, 3L, S(st)); }), "bad-accepted", "const2D 0x3");
      CHECK(throws([&] { (void)const2D(3L, -1L, S(st)); }), "bad-accepted", "const2D 3x-1");
   }
   }
   c.nontrivial = true;
}

template <class T> void reshape2(Case& c) {
   Rng& r = c.r;
   i64 nr = r.in(1, 8), nc = r.in(1, 8);
   if(r.chance(8)) nr = 3, nc = 4;
   bool empty = r.chance(5);
   if(empty) nr = nc = 0;
   auto a = rmat<T>(r, nr, nc, -9, 9);
   int f = int(r.below(3));
   c.note(u64(f * 1000 + nr * 10 + nc));
   logs("2D form ", f, " ", show(a));
   ev(str("twodim.", f));
   using AllK = all2;
   if(f == 0) {
      any2<T>(r, a, AllK{}, [&](auto& p) {
         chk(r, transpose(p), tr(a), "transpose");
         chk(r, transpose(transpose(p)), a, "transpose twice");
      });
      auto A = mk2<Array2D<T>>(a);
      A.resize_and_assign(transpose(A));
      expect2(A, tr(a), "value", "A = transpose(A)");
   } else if(f == 1) {
      V<T> rs, cs, rm, cm;
      V<bool> rb;
      for(i64 i = 0; i < nr; ++i) {
         T s = a(i, 0), m = a(i, 0);
         bool any = false;
         for(i64 j = 0; j < nc; ++j) {
            if(j) s = T(s + a(i, j));
            m = std::max(m, T(a(i, j)));
            any = any || a(i, j) == T(0);
         }
         rs.push_back(s);
         rm.push_back(m);
         rb.push_back(any);
      }
      for(i64 j = 0; j < nc; ++j) {
         T s = a(0, j), m = a(0, j);
         for(i64 i = 0; i < nr; ++i) {
            if(i) s = T(s + a(i, j));
            m = std::min(m, T(a(i, j)));
         }
         cs.push_back(s);
         cm.push_back(m);
      }
      any2<T>(r, a, AllK{}, [&](auto& p) {
         chk(r, row_reduce(p, [](auto x) { return sum(x); }), rs, "row_reduce sum");
         chk(r, row_reduce(p, [](auto x) { return max(x); }), rm, "row_reduce max");
         chk(r, row_reduce(p, [](auto x) { return has_zero(x); }), rb, "row_reduce has_zero");
         chk(r, col_reduce(p, [](auto x) { return sum(x); }), cs, "col_reduce sum");
         chk(r, col_reduce(p, [](auto x) { return min(x); }), cm, "col_reduce min");
         V<T> first;
         for(i64 i = 0; i < nr; ++i) first.push_back(a(i, nc - 1));
         chk(r, row_reduce(p, [](auto x) { auto v = x[last]; return v; }), first, "row_reduce last");
      });
   } else {
      auto x = rvec<T>(r, nc, -9, 9);
      V<T> y;
      for(i64 i = 0; i < nr; ++i) {
         T s{};
         for(i64 j = 0; j < nc; ++j) s = T(s + a(i, j) * x[size_t(j)]);
         y.push_back(s);
      }
      any2<T>(r, a, K2{}, [&](auto& p) {
         any1<T>(r, x, kinds<0, 4, 7>{}, [&](auto& q) {
            chk(r, matvec_prod(p, q), y, "matvec_prod");
            auto B = mk1<Array1D<T>>(rvec<T>(r, nc + 1));
            CHECK(throws([&] { (void)matvec_prod(p, B).eval(); }), "bad-accepted", "matvec_prod of mismatched sizes");
         });
      });
   }
   c.nontrivial = true;
}

template <class T> void broadcast(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(0, 9), m = n ? r.in(1, 8) : 0;
   if(r.chance(10)) n = 7;
   auto a = rvec<T>(r, n, -9, 9), b = rvec<T>(r, m, -9, 9);
   c.note(u64(n * 100 + m));
   logs("broadcast ", show(a), " ", show(b));
   ev("broadcast");
   Mat<T> rb(n, n), cb(n, n), tp(n, m);
   for(i64 i = 0; i < n; ++i)
      for(i64 j = 0; j < n; ++j) {
         rb(i, j) = a[size_t(j)];
         cb(i, j) = a[size_t(i)];
      }
   for(i64 i = 0; i < n; ++i)
      for(i64 j = 0; j < m; ++j) tp(i, j) = T(a[size_t(i)] * b[size_t(j)]);
   any1<T>(r, a, all1{}, [&](auto& p) {
      chk(r, row_broadcast(p), rb, "row_broadcast");
      chk(r, col_broadcast(p), cb, "col_broadcast");
   });
   if(m) {
      ev("tensor");
      pair1<T>(r, a, b, P1{}, [&](auto& p, auto& q) { chk(r, tensor_prod(p, q), tp, "tensor_prod"); });
   }
   c.nontrivial = n > 0;
}

template <int G, class T> void one(Case& c) {
   if constexpr(G == 0) c.r.chance(70) ? merge1<T>(c) : excl<T>(c);
   if constexpr(G == 1) mergehv<T>(c);
   if constexpr(G == 2) c.r.chance(50) ? generators<T>(c) : broadcast<T>(c);
   if constexpr(G == 3) reshape2<T>(c);
}

int main(int argc, char** argv) {
   return run(argc, argv, [](Case& c) {
      dispatch<16>(c, []<int K>(Case& c) {
         constexpr int G = (K + K / 4) % 4;   // spreads the heavy groups over the parts
         if constexpr(K / 4 == 0) one<G, int>(c);
         if constexpr(K / 4 == 1) one<G, double>(c);
         if constexpr(K / 4 == 2) one<G, long double>(c);
         if constexpr(K / 4 == 3) one<G, unsigned long>(c);
      });
   });
}
