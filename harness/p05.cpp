// P05: edit histories of dynamic 2D arrays against a matrix model.
#include "common.hpp"
using namespace h;
using namespace spp;

template <class T, AlignmentFlag AF>
struct H {
   using A2 = Array2D<T, AF>;
   using O2 = Array2D<T, AF == Aligned ? Unaligned : Aligned>;
   using A1 = Array1D<T>;
   using M = Mat<T>;
   static Strict<T> S(T x) { return Strict<T>{x}; }

   static std::vector<ImplicitInt> idx(const std::vector<i64>& v) {
      std::vector<ImplicitInt> r;
      for(auto i : v) r.emplace_back(long(i));
      return r;
   }
   static i64 dim(Rng& r) { return r.chance(8) ? r.in(10, 21) : r.in(1, 7); }
   static M norm(M m) {
      if(m.r == 0 || m.c == 0) { m.r = m.c = 0; m.d.clear(); }
      return m;
   }
   static M rows_of(const M& m, const std::vector<i64>& rr) {
      M o(i64(rr.size()), m.c);
      for(i64 i = 0; i < o.r; ++i) for(i64 j = 0; j < o.c; ++j) o(i, j) = m(rr[size_t(i)], j);
      return o;
   }
   static M cols_of(const M& m, const std::vector<i64>& cc) {
      M o(m.r, i64(cc.size()));
      for(i64 i = 0; i < o.r; ++i) for(i64 j = 0; j < o.c; ++j) o(i, j) = m(i, cc[size_t(j)]);
      return o;
   }
   static M tr(const M& m) {
      M o(m.c, m.r);
      for(i64 i = 0; i < o.r; ++i) for(i64 j = 0; j < o.c; ++j) o(i, j) = m(j, i);
      return o;
   }
   static M insr(const M& m, i64 pos, const M& s) {
      if(m.r == 0) return norm(s);
      M o(m.r + s.r, m.c);
      for(i64 i = 0; i < o.r; ++i)
         for(i64 j = 0; j < o.c; ++j) o(i, j) = i < pos ? m(i, j) : i < pos + s.r ? s(i - pos, j) : m(i - s.r, j);
      return o;
   }
   static M insc(const M& m, i64 pos, const M& s) {
      if(m.r == 0) return norm(s);
      return tr(insr(tr(m), pos, tr(s)));
   }
   static std::vector<i64> all_but(i64 n, i64 p, i64 c) {
      std::vector<i64> v;
      for(i64 i = 0; i < n; ++i) if(i < p || i >= p + c) v.push_back(i);
      return v;
   }

   // Matrix sources that read the target in less direct ways.
   template <class F> static void self_source(Rng& r, A2& a, const M& m, M& src, int how, bool rows, F use) {
      switch(how) {
      case 0: {   // through its raw storage
         auto* q = a.blas_data();
         src = m;
         use(attach2D(q, long(m.r), long(m.c)));
         break;
      }
      case 1:
         src = m;
         use(a.view2D(long(m.r), long(m.c)));
         break;
      case 2: {
         src = m;
         auto t = transpose(a);
         use(transpose(t));
         break;
      }
      case 3:
         if(rows) { src = insr(m, m.r, m); use(merge_vertical(a, a)); }
         else { src = insc(m, m.c, m); use(merge_horizontal(a, a)); }
         break;
      case 4: {
         src = M(m.r, m.c);
         i64 k = rows ? r.in(0, m.r - 1) : r.in(0, m.c - 1);
         for(i64 i = 0; i < m.r; ++i) for(i64 j = 0; j < m.c; ++j) src(i, j) = T(m(i, j) + m(m.r - 1 - i, j));
         (void)k;
         use(a + a(place::reverse, place::all));
         break;
      }
      default: {   // a block of itself with the full extent in the other direction
         i64 k = r.in(1, rows ? m.r : m.c);
         src = M(rows ? k : m.r, rows ? m.c : k);
         for(i64 i = 0; i < src.r; ++i) for(i64 j = 0; j < src.c; ++j) src(i, j) = rows ? m(m.r - k + i, j) : m(i, m.c - k + j);
         if(rows) use(a.rows(place::lastN{long(k)})); else use(a.cols(place::lastN{long(k)}));
      }
      }
      ev(str("self-source.", how));
   }

   static void insert2(Case& c, A2& a, M& m) {
      Rng& r = c.r;
      bool rows = r.chance(50);
      i64 ext = rows ? m.r : m.c;
      i64 pos = r.pick({i64(0), ext, ext / 2, r.in(0, ext)});
      M src;
      int how = int(r.below(10));
      if(m.r == 0 && how >= 8) how = 0;
      auto put = [&](auto const& s) {
         int k = int(r.below(4));
         if(rows) {
            if(k == 0) { pos = 0; a.insert_rows_front(s); }
            if(k == 1) { pos = ext; a.insert_rows_back(s); }
            if(k == 2) a.insert_rows(Pos{long(pos)}, s);
            if(k == 3) a.insert_rows(long(pos), s);
         } else {
            if(k == 0) { pos = 0; a.insert_cols_front(s); }
            if(k == 1) { pos = ext; a.insert_cols_back(s); }
            if(k == 2) a.insert_cols(Pos{long(pos)}, s);
            if(k == 3) a.insert_cols(long(pos), s);
         }
      };
      i64 sr = rows ? r.in(1, 4) : m.r, sc = rows ? m.c : r.in(1, 4);
      if(m.r == 0) { sr = r.in(1, 4); sc = r.in(1, 4); }
      switch(how) {
      case 0: src = rmat<T>(r, sr, sc); put(mk2<A2>(src)); break;
      case 1: src = rmat<T>(r, sr, sc); put(mk2<O2>(src)); break;
      case 2: src = m; put(a); break;
      case 3: {   // reversed self
         std::vector<i64> rr, cc;
         for(i64 i = m.r; i-- > 0;) rr.push_back(i);
         for(i64 i = m.c; i-- > 0;) cc.push_back(i);
         if(m.r == 0) { src = m; put(a); break; }
         src = cols_of(rows_of(m, rr), cc);
         put(a(place::reverse, place::reverse));
         break;
      }
      case 4: {
         src = m;
         for(auto&& x : src.d) x = T(x + x);
         put(a + a);
         break;
      }
      case 8:
      case 9: self_source(r, a, m, src, int(r.below(6)), rows, put); break;
      case 5: {   // transposed source
         src = rmat<T>(r, sr, sc);
         auto b = mk2<A2>(tr(src));
         put(transpose(b));
         break;
      }
      case 6: {   // some rows/cols of self by list
         if(m.r == 0) { src = m; put(a); break; }
         std::vector<i64> ii;
         for(i64 k = r.in(1, 3); k > 0; --k) ii.push_back(r.in(0, ext - 1));
         if(rows) { src = rows_of(m, ii); put(a.rows(idx(ii))); }
         else { src = cols_of(m, ii); put(a.cols(idx(ii))); }
         break;
      }
      default: {   // strided block of a larger one
         auto big = rmat<T>(r, 2 * sr + 1, 2 * sc + 1);
         auto b = mk2<A2>(big);
         src = M(sr, sc);
         for(i64 i = 0; i < sr; ++i) for(i64 j = 0; j < sc; ++j) src(i, j) = big(2 * i + 1, 2 * j + 1);
         put(b(place::odd, place::odd));
      }
      }
      ev(str(rows ? "insert_rows." : "insert_cols.", how));
      logs(rows ? "insert_rows" : "insert_cols", how, " pos ", pos, " ", show(src));
      m = rows ? insr(m, pos, src) : insc(m, pos, src);
   }

   static void insert1(Case& c, A2& a, M& m) {
      Rng& r = c.r;
      bool rows = r.chance(50);
      i64 ext = rows ? m.r : m.c;
      i64 len = m.r == 0 ? r.in(1, 5) : rows ? m.c : m.r;
      i64 pos = r.pick({i64(0), ext, ext / 2, r.in(0, ext)});
      std::vector<T> src;
      int how = int(r.below(5));
      auto put = [&](auto const& s) {
         int k = int(r.below(4));
         if(rows) {
            if(k == 0) { pos = 0; a.insert_row_front(s); }
            if(k == 1) { pos = ext; a.insert_row_back(s); }
            if(k == 2) a.insert_row(Pos{long(pos)}, s);
            if(k == 3) a.insert_row(long(pos), s);
         } else {
            if(k == 0) { pos = 0; a.insert_col_front(s); }
            if(k == 1) { pos = ext; a.insert_col_back(s); }
            if(k == 2) a.insert_col(Pos{long(pos)}, s);
            if(k == 3) a.insert_col(long(pos), s);
         }
      };
      if(m.r == 0 && how >= 2) how = 0;
      switch(how) {
      case 0: src = rvec<T>(r, len); put(mk1<A1>(src)); break;
      case 1: {
         auto v = rvec<T>(r, len);
         T x = rnd<T>(r);
         auto b = mk1<A1>(v);
         for(auto y : v) src.push_back(T(y + x));
         put(b + S(x));
         break;
      }
      case 2: {   // row or column of self
         i64 k = r.in(0, ext - 1);
         for(i64 i = 0; i < len; ++i) src.push_back(rows ? m(k, i) : m(i, k));
         if(rows) put(a.row(long(k))); else put(a.col(long(k)));
         break;
      }
      case 3: {   // reversed row of self
         i64 k = r.in(0, ext - 1);
         for(i64 i = len; i-- > 0;) src.push_back(rows ? m(k, i) : m(i, k));
         if(rows) put(a.row(long(k))(place::reverse)); else put(a.col(long(k))(place::reverse));
         break;
      }
      default: {   // sum of two rows of self
         i64 k = r.in(0, ext - 1), l = r.in(0, ext - 1);
         for(i64 i = 0; i < len; ++i) src.push_back(T(rows ? m(k, i) + m(l, i) : m(i, k) + m(i, l)));
         if(rows) put(a.row(long(k)) + a.row(long(l))); else put(a.col(long(k)) + a.col(long(l)));
      }
      }
      ev(str(rows ? "insert_row." : "insert_col.", how));
      logs(rows ? "insert_row" : "insert_col", how, " pos ", pos, " ", show(src));
      M s(rows ? 1 : len, rows ? len : 1);
      s.d = src;
      m = rows ? insr(m, pos, s) : insc(m, pos, s);
   }

   static void remove(Case& c, A2& a, M& m) {
      Rng& r = c.r;
      bool rows = r.chance(50);
      i64 ext = rows ? m.r : m.c;
      if(!ext) return;
      i64 pos = r.in(0, ext - 1), cnt = r.in(1, ext - pos);
      int k = int(r.below(10));
      if(k == 9) {
         std::vector<i64> s, keep;
         int p = int(r.pick({15, 50, 85}));
         for(i64 i = 0; i < ext; ++i) (r.chance(p) ? s : keep).push_back(i);
         if(rows) a.remove_rows(idx(s)); else a.remove_cols(idx(s));
         m = norm(rows ? rows_of(m, keep) : cols_of(m, keep));
         ev(rows ? "remove_rows.list" : "remove_cols.list");
         logs("remove list ", rows, " ", s.size());
         return;
      }
      if(rows) {
         if(k == 0) a.remove_rows(long(pos), long(cnt));
         if(k == 1) a.remove_rows(Pos{long(pos)}, Count{long(cnt)});
         if(k == 2) { cnt = 1; a.remove_row(long(pos)); }
         if(k == 3) { cnt = 1; a.remove_row(Pos{long(pos)}); }
         if(k == 4) { cnt = 1; a.remove_row(last - long(ext - 1 - pos)); }
         if(k == 5) { pos = 0; cnt = r.in(1, ext); a.remove_rows_front(long(cnt)); }
         if(k == 6) { pos = 0; cnt = r.in(1, ext); a.remove_rows_front(Count{long(cnt)}); }
         if(k == 7) { cnt = r.in(1, ext); pos = ext - cnt; a.remove_rows_back(long(cnt)); }
         if(k == 8) { cnt = r.in(1, ext); pos = ext - cnt; a.remove_rows_back(Count{long(cnt)}); }
         m = norm(rows_of(m, all_but(m.r, pos, cnt)));
      } else {
         if(k == 0) a.remove_cols(long(pos), long(cnt));
         if(k == 1) a.remove_cols(Pos{long(pos)}, Count{long(cnt)});
         if(k == 2) { cnt = 1; a.remove_col(long(pos)); }
         if(k == 3) { cnt = 1; a.remove_col(Pos{long(pos)}); }
         if(k == 4) { cnt = 1; a.remove_col(last - long(ext - 1 - pos)); }
         if(k == 5) { pos = 0; cnt = r.in(1, ext); a.remove_cols_front(long(cnt)); }
         if(k == 6) { pos = 0; cnt = r.in(1, ext); a.remove_cols_front(Count{long(cnt)}); }
         if(k == 7) { cnt = r.in(1, ext); pos = ext - cnt; a.remove_cols_back(long(cnt)); }
         if(k == 8) { cnt = r.in(1, ext); pos = ext - cnt; a.remove_cols_back(Count{long(cnt)}); }
         m = norm(cols_of(m, all_but(m.c, pos, cnt)));
      }
      ev(str(rows ? "remove_row." : "remove_col.", k));
      logs("remove", rows, k, " ", pos, "+", cnt);
   }

   static void replace(Case& c, A2& a, M& m) {
      Rng& r = c.r;
      int how = int(r.below(9));
      if(m.r == 0 && how >= 7) how = 0;
      M nv = r.chance(10) ? M() : rmat<T>(r, dim(r), dim(r));
      switch(how) {
      case 0: a.resize_and_assign(mk2<A2>(nv)); break;
      case 7:
      case 8: self_source(r, a, m, nv, int(r.below(6)), r.chance(50), [&](auto const& s) { a.resize_and_assign(s); }); break;
      case 1: { auto b = mk2<A2>(nv); a.resize_and_assign(b); expect2(b, nv, "replace.source", "source of resize_and_assign"); break; }
      case 2: {
         auto b = mk2<A2>(nv);
         a.resize_and_assign(std::move(b));
         CHECK(sz(b) == 0 && b.rows().val() == 0 && b.cols().val() == 0, "replace.moved", "moved-from 2D array not empty");
         break;
      }
      case 3: nv = tr(m); a.resize_and_assign(transpose(a)); break;
      case 4: {
         if(!m.r) { nv = m; break; }
         i64 i0 = r.in(0, m.r - 1), i1 = r.in(i0, m.r - 1), j0 = r.in(0, m.c - 1), j1 = r.in(j0, m.c - 1);
         nv = M(i1 - i0 + 1, j1 - j0 + 1);
         for(i64 i = 0; i < nv.r; ++i) for(i64 j = 0; j < nv.c; ++j) nv(i, j) = T(m(i0 + i, j0 + j) * T(2));
         a.resize_and_assign(a.block(long(i0), long(j0), long(i1), long(j1)) * S(T(2)));
         break;
      }
      case 5: nv = m; a.resize_and_assign(a); break;
      default: { auto b = mk2<O2>(nv); a.resize_and_assign(b); }
      }
      ev(str("replace.", how));
      logs("replace", how, " ", show(nv));
      m = nv;
   }

   static void assign(Case& c, A2& a, M& m) {
      Rng& r = c.r;
      int how = int(r.below(9));
      switch(how) {
      case 0: { T x = rnd<T>(r); a = S(x); for(auto&& y : m.d) y = x; break; }
      case 1: { auto v = rmat<T>(r, m.r, m.c); a = mk2<A2>(v); m = v; break; }
      case 2: { auto v = rmat<T>(r, m.r, m.c); auto b = mk2<A2>(v); a = b; m = v; break; }
      case 3: {
         auto v = rmat<T>(r, m.r, m.c);
         auto b = mk2<A2>(v);
         a = std::move(b);
         CHECK(sz(b) == 0 && b.rows().val() == 0 && b.cols().val() == 0, "assign.moved", "moved-from 2D array not empty");
         m = v;
         break;
      }
      case 4: { auto v = rmat<T>(r, m.r, m.c); auto b = mk2<O2>(v); a = b; m = v; break; }
      case 5: a = a + a; for(auto&& x : m.d) x = T(x + x); break;
      case 6:
         if(m.r == 2 && m.c == 2) {
            T x = rnd<T>(r), y = rnd<T>(r);
            a = {{S(x), S(y)}, {S(y), S(x)}};
            m.d = {x, y, y, x};
         }
         break;
      case 7:
         if(m.r) {
            i64 i = r.in(0, m.r - 1), j = r.in(0, m.c - 1);
            T x = rnd<T>(r);
            int k = int(r.below(6));
            if(k == 0) a(long(i), long(j)) = S(x);
            if(k == 1) a.at(long(i), long(j)) = S(x);
            if(k == 2) a(last - long(m.r - 1 - i), long(j)) = S(x);
            if(k == 3) a(long(i), last - long(m.c - 1 - j)) = S(x);
            if(k == 4) a.un(index_t{long(i)}, index_t{long(j)}) = S(x);
            if(k == 5) a.un(long(i * m.c + j)) = S(x);
            m(i, j) = x;
         }
         break;
      default: a = a;
      }
      ev(str("assign.", how));
      logs("assign", how);
   }

   // An edit that cannot be carried out is reported and is no step of the history.
   static void rejected(Case& c, A2& a, M& m) {
      Rng& r = c.r;
      if(m.r == 0) return;
      int k = int(r.below(12));
      i64 pr = r.in(0, m.r), pc = r.in(0, m.c);
      A2 none;
      A2 wide = mk2<A2>(rmat<T>(r, r.in(1, 3), m.c + r.in(1, 3))), tall = mk2<A2>(rmat<T>(r, m.r + r.in(1, 3), r.in(1, 3)));
      O2 wide2 = wide;
      auto line = mk1<Array1D<T>>(rvec<T>(r, r.pick({i64(0), m.c + 1, m.c - 1})));
      auto col = mk1<Array1D<T>>(rvec<T>(r, r.pick({i64(0), m.r + 1, m.r - 1})));
      bool reported = true;
      switch(k) {
      case 0: reported = throws([&] { a.insert_rows(long(pr), none); }); break;
      case 1: reported = throws([&] { a.insert_cols(long(pc), none); }); break;
      case 2: reported = throws([&] { a.insert_rows(long(pr), wide2); }); break;
      case 3: reported = throws([&] { a.insert_cols(long(pc), tall); }); break;
      case 4: reported = throws([&] { a.insert_row(long(pr), line); }); break;
      case 5: reported = throws([&] { a.insert_col(long(pc), col); }); break;
      case 6: reported = throws([&] { a.insert_rows(long(m.r + 1), a); }); break;
      case 7: reported = throws([&] { a.insert_cols(-1L, a); }); break;
      case 8: reported = throws([&] { a.remove_rows(long(pr), long(m.r - pr + 1)); }); break;
      case 9: reported = throws([&] { a.remove_cols_back(long(m.c + 1)); }); break;
      case 10: reported = throws([&] { a.resize(long(m.r), 0L); }); break;
      default: reported = throws([&] { a.remove_col(long(m.c)); }); break;
      }
      logs("rejected", k);
      ev("rejected");
      CHECK(reported, "rejected", "impossible edit ", k, " accepted on ", show(m));
   }

   static void history(Case& c) {
      Rng& r = c.r;
      M m = r.chance(12) ? M() : rmat<T>(r, dim(r), dim(r));
      A2 a;
      T x = rnd<T>(r);
      int k = int(r.below(6));
      if(k == 0) { a.resize_and_assign(A2(long(m.r), long(m.c))); m = M(m.r, m.c); }
      if(k == 1) { a.resize_and_assign(A2(Rows{long(m.r)}, Cols{long(m.c)})); m = M(m.r, m.c); }
      if(k == 2) { a.resize_and_assign(A2(long(m.r), long(m.c), S(x))); for(auto&& y : m.d) y = x; }
      if(k == 3) { a.resize_and_assign(A2(Rows{long(m.r)}, Cols{long(m.c)}, Value<T>{x})); for(auto&& y : m.d) y = x; }
      if(k == 4) { a.resize_and_assign(A2{{S(x), S(T{}), S(x)}, {S(T{}), S(x), S(T{})}}); m = M(2, 3); m.d = {x, T{}, x, T{}, x, T{}}; }
      if(k == 5) { auto b = mk2<O2>(m); a.resize_and_assign(A2(b + b)); for(auto&& y : m.d) y = T(y + y); }
      ev(str("construct.", k));
      logs("construct", k, " ", show(m));
      expect2(a, m, "state", "after construction");
      i64 ops = r.pick({i64(1), i64(3), i64(8), i64(16)});
      i64 eff = 0;
      for(i64 o = 0; o < ops; ++o) {
         if(m.size() > 600) { a.resize(5, 5); M t(5, 5); for(i64 i = 0; i < 5; ++i) for(i64 j = 0; j < 5; ++j) t(i, j) = i < m.r && j < m.c ? m(i, j) : T{}; m = t; }
         int op = int(r.below(14));
         c.note(u64(op) * 10000 + u64(m.r) * 100 + u64(m.c));
         if(op <= 2) { insert2(c, a, m); ++eff; }
         else if(op <= 4) { insert1(c, a, m); ++eff; }
         else if(op <= 6) { remove(c, a, m); ++eff; }
         else if(op == 7 || op == 8) {
            i64 nr = r.pick({m.r, m.r + 1, m.r - 1, dim(r), m.c, m.r * m.c, i64(0)});
            i64 nc = r.pick({m.c, m.c + 1, m.c - 1, dim(r), m.r, i64(1)});
            if(nr <= 0 || nc <= 0) nr = nc = 0;
            if(nr * nc > 900) nr = nc = 3;
            if(op == 7) {
               a.resize(long(nr), long(nc));
               M t(nr, nc);
               for(i64 i = 0; i < nr; ++i) for(i64 j = 0; j < nc; ++j) t(i, j) = i < m.r && j < m.c ? m(i, j) : T{};
               ev("resize.keep");
               m = t;
            } else {
               a.resize(long(nr), long(nc), false);
               ev("resize.drop");
               CHECK(a.rows().val() == nr && a.cols().val() == nc && sz(a) == nr * nc, "resize.drop.shape", "shape after resize");
               if(nr != m.r || nc != m.c) {
                  m = rmat<T>(r, nr, nc);
                  fill2(a, m);
               }
            }
            logs("resize", op, " ", nr, "x", nc);
            ++eff;
         }
         else if(op == 9) { replace(c, a, m); ++eff; }
         else if(op == 10 || op == 11) assign(c, a, m);
         else if(op == 13) rejected(c, a, m);
         else {
            M v = rmat<T>(r, dim(r), dim(r));
            auto b = mk2<A2>(v);
            a.swap(b);
            expect2(b, m, "swap.other", "swapped-out contents");
            m = v;
            ev("swap");
            logs("swap ", show(v));
         }
         CHECK(sz(a) == m.size(), "state.size", "size ", sz(a), " expected ", m.size());
         CHECK((a.rows().val() == 0) == (a.cols().val() == 0), "state.shape", "rows ", a.rows().val(), " cols ", a.cols().val());
         CHECK(bool(a.empty()) == (m.size() == 0), "state.empty", "empty()");
         expect2(a, m, "state", "after operation " + str(op));
         auto v = vec(a);   // linear order
         CHECK(eq(v, m.d), "state.linear", "linear order ", show(v), " expected ", show(m.d));
      }
      c.nontrivial = eff >= 1;
   }
};

int main(int argc, char** argv) {
   return run(argc, argv, [](Case& c) {
      dispatch<4>(c, []<int K>(Case& c) {
         if constexpr(K == 0) H<int, Unaligned>::history(c);
         if constexpr(K == 1) H<double, Aligned>::history(c);
         if constexpr(K == 2) H<long, Aligned>::history(c);
         if constexpr(K == 3) H<float, Unaligned>::history(c);
      });
   });
}
