// P08: 2D selections to any depth over every kind of 2D object, reading and writing, against an index model.
#include "slices.hpp"
using namespace h;
using namespace spp;

template <class T> Strict<T> S(T x) { return Strict<T>{x}; }
using At = Mat<i64>;   // flat position in the ground of each element of the selection

template <class T>
struct Ground {
   std::vector<T> m;
   std::function<std::vector<T>()> real;
   void check(const char* what) {
      auto v = real();
      CHECK(eq(v, m), "storage", what, ": underlying storage is ", show(v), " expected ", show(m));
   }
};
inline At norm(At a) { return a.r && a.c ? a : At(0, 0); }

template <class T> Mat<T> at_of(const Ground<T>& g, const At& at) {
   Mat<T> w(at.r, at.c);
   for(size_t i = 0; i < at.d.size(); ++i) w.d[i] = g.m[size_t(at.d[i])];
   return w;
}

template <class T, class A> void reads(Case& c, Ground<T>& g, A& a, const At& at) {
   Rng& r = c.r;
   auto want = at_of(g, at);
   CHECK(a.rows().val() == at.r && a.cols().val() == at.c && sz(a) == at.r * at.c, "shape", "selection is ", a.rows().val(), "x",
         a.cols().val(), " of ", sz(a), ", expected ", at.r, "x", at.c);
   expect2(a, want, "read", "selection contents");
   expect2(std::as_const(a), want, "read.const", "selection contents (const)");
   auto lin = vec(a);
   CHECK(eq(lin, want.d), "read.linear", "linear order ", show(lin), " expected ", show(want.d));
   CHECK(bool(a.empty()) == (at.size() == 0), "shape", "empty()");
   if(at.size()) {
      i64 i = r.in(0, at.r - 1), j = r.in(0, at.c - 1);
      T x = want(i, j);
      CHECK(same(a(long(i), long(j)).val(), x) && same(a.at(int(i), long(j)).val(), x) && same(a(last - long(at.r - 1 - i), long(j)).val(), x)
               && same(a.at(index_t{long(i)}, last - long(at.c - 1 - j)).val(), x) && same(std::as_const(a)(long(i), long(j)).val(), x),
            "index", "element ", i, ",", j);
      CHECK(throws([&] { (void)a(long(at.r), 0); }) && throws([&] { (void)a(0, long(at.c)); }) && throws([&] { (void)a.at(0, -1); })
               && throws([&] { (void)a.at(-1, 0); }),
            "range", "out-of-range access of a selection accepted");
      CHECK(a.rows_m1().val() == at.r - 1 && a.cols_m1().val() == at.c - 1, "shape", "rows_m1/cols_m1");
   }
   std::vector<T> it;
   for(auto x : a) it.push_back(x.val());
   CHECK(eq(it, want.d), "iterate", "iteration gives ", show(it), " expected ", show(want.d));
   ev("read");
}

template <class T, class A> void writes(Case& c, Ground<T>& g, A& a, const At& at) {
   Rng& r = c.r;
   i64 nr = at.r, nc = at.c;
   auto M = [&](i64 k) -> auto&& { return g.m[size_t(at.d[size_t(k)])]; };
   bool inj = injective(at.d);
   int op = int(r.below(9));
   if(!inj) op = int(r.pick({0, 3}));
   auto clip = [&] {
      for(i64 k = 0; k < at.size(); ++k)
         if(std::abs(double(M(k))) > 1e6) { M(k) = T(1); a.un(long(k)) = S<T>(T(1)); }
   };
   switch(op) {
   case 0: {
      T x = rnd<T>(r);
      a = S<T>(x);
      for(i64 k = 0; k < at.size(); ++k) M(k) = x;
      break;
   }
   case 1: {
      auto v = rmat<T>(r, nr, nc);
      a = mk2<Array2D<T>>(v);
      for(i64 k = 0; k < at.size(); ++k) M(k) = v.d[size_t(k)];
      break;
   }
   case 2: {   // from another selection: copies elements, does not rebind
      auto v = rmat<T>(r, nr + 1, 2 * nc + 1);
      auto b = mk2<Array2D<T>>(v);
      a = b(seqN{1, long(nr)}, seqN{1, long(nc), 2});
      for(i64 i = 0; i < nr; ++i)
         for(i64 j = 0; j < nc; ++j) M(i * nc + j) = v(i + 1, 1 + 2 * j);
      break;
   }
   case 3:
      if(at.size()) {
         i64 i = r.in(0, nr - 1), j = r.in(0, nc - 1);
         T x = rnd<T>(r);
         if(r.chance(50)) a(long(i), last - long(nc - 1 - j)) = S<T>(x);
         else a.at(last - long(nr - 1 - i), int(j)) = S<T>(x);
         M(i * nc + j) = x;
      }
      break;
   case 4: {
      auto v = rmat<T>(r, nr, nc, 1, 5);
      auto b = mk2<Array2D<T>>(v);
      int k = int(r.below(4));
      T x = rnd<T>(r, 1, 9);
      if(k == 0) a += b;
      if(k == 1) a -= b;
      if(k == 2) a *= b;
      if(k == 3) a += S<T>(x);
      for(i64 q = 0; q < at.size(); ++q) {
         T y = v.d[size_t(q)];
         M(q) = k == 0 ? T(M(q) + y) : k == 1 ? T(M(q) - y) : k == 2 ? T(M(q) * y) : T(M(q) + x);
      }
      clip();
      break;
   }
   case 5:
      a = a + a;
      for(i64 k = 0; k < at.size(); ++k) M(k) = T(M(k) + M(k));
      clip();
      break;
   case 6:
      if(nr == 2 && nc == 2) {
         auto v = rvec<T>(r, 4);
         a = {{S<T>(v[0]), S<T>(v[1])}, {S<T>(v[2]), S<T>(v[3])}};
         for(i64 k = 0; k < 4; ++k) M(k) = v[size_t(k)];
         ev("write.list");
      }
      break;
   case 7: {
      i64 k = 0;
      for(auto& x : a) {
         T y = rnd<T>(r);
         x = S<T>(y);
         M(k++) = y;
      }
      break;
   }
   case 8: {
      auto b = mk2<Array2D<T>>(rmat<T>(r, nr + 1, nc + 1));
      CHECK(throws([&] { a = b; }), "mismatch", "assignment of another shape accepted");
      if(nr != nc && nr && nc) {
         auto d = mk2<Array2D<T>>(rmat<T>(r, nc, nr));
         CHECK(throws([&] { a = d; }), "mismatch", "assignment of the transposed shape accepted");
      }
      break;
   }
   }
   ev(str("write.", op));
   logs("write", op);
   g.check("after write through the selection");
   reads(c, g, a, at);
}

// A row, column, diagonal, ... of a selection.
template <class T, class A> void line(Case& c, Ground<T>& g, A a, const Idx& at) {
   Rng& r = c.r;
   std::vector<T> want;
   for(auto i : at) want.push_back(g.m[size_t(i)]);
   expect1(a, want, "line", "contents of the row, column, diagonal or view");
   i64 n = i64(at.size());
   if(n) {
      i64 i = r.in(0, n - 1);
      CHECK(same(a[long(i)].val(), want[size_t(i)]) && same(a.at(last - long(n - 1 - i)).val(), want[size_t(i)]), "line.index", "element ", i);
      CHECK(throws([&] { (void)a[long(n)]; }), "range", "out-of-range access of a row, column or diagonal accepted");
   }
   if constexpr(requires { a = S<T>(T{}); }) {
      if(r.chance(60) && injective(at)) {
         auto v = rvec<T>(r, n);
         if(r.chance(50)) a = mk1<Array1D<T>>(v);
         else {
            a = S<T>(T{});
            a += mk1<Array1D<T>>(v);
         }
         for(size_t i = 0; i < at.size(); ++i) g.m[size_t(at[i])] = v[i];
         ev("line.write");
         g.check("after write through the row, column, diagonal or view");
      }
   }
   if(r.chance(50)) {
      i64 f = n ? r.in(0, n - 1) : 0, cnt = n ? r.in(0, n - f) : 0;
      auto s = a(seqN{long(f), long(cnt)});
      std::vector<T> w(size_t(cnt), T{});
      for(i64 i = 0; i < cnt; ++i) w[size_t(i)] = g.m[size_t(at[size_t(f + i)])];
      expect1(s, w, "line.slice", "slice of a row, column, diagonal or view");
   }
}

template <class T, class A> void lines(Case& c, Ground<T>& g, A& a, const At& at) {
   Rng& r = c.r;
   i64 nr = at.r, nc = at.c;
   int k = int(r.below(7));
   if(!at.size()) k = int(r.pick({3, 5, 6}));
   ev(str("line.", k));
   logs("line", k);
   c.note(u64(k) + 100);
   Idx v;
   switch(k) {
   case 0: {
      i64 i = r.in(0, nr - 1);
      for(i64 j = 0; j < nc; ++j) v.push_back(at(i, j));
      if(r.chance(50)) line<T>(c, g, a.row(long(i)), v);
      else line<T>(c, g, a.row(last - long(nr - 1 - i)), v);
      line<T>(c, g, std::as_const(a).row(int(i)), v);
      CHECK(throws([&] { (void)a.row(long(nr)); }) && throws([&] { (void)a.row(-1); }), "range", "row out of range accepted");
      break;
   }
   case 1: {
      i64 j = r.in(0, nc - 1);
      for(i64 i = 0; i < nr; ++i) v.push_back(at(i, j));
      if(r.chance(50)) line<T>(c, g, a.col(long(j)), v);
      else line<T>(c, g, a.col(last - long(nc - 1 - j)), v);
      line<T>(c, g, std::as_const(a).col(int(j)), v);
      CHECK(throws([&] { (void)a.col(long(nc)); }) && throws([&] { (void)a.col(-1); }), "range", "column out of range accepted");
      break;
   }
   case 2: {
      i64 d = r.in(-(nr - 1), nc - 1);
      for(i64 i = 0; i < nr; ++i)
         if(i + d >= 0 && i + d < nc) v.push_back(at(i, i + d));
      line<T>(c, g, a.diag(long(d)), v);
      line<T>(c, g, std::as_const(a).diag(long(d)), v);
      CHECK(throws([&] { (void)a.diag(long(nc)); }) && throws([&] { (void)a.diag(-long(nr)); }), "range", "diagonal out of range accepted");
      break;
   }
   case 3:
      for(i64 i = 0; i < std::min(nr, nc); ++i) v.push_back(at(i, i));
      line<T>(c, g, a.diag(), v);
      line<T>(c, g, std::as_const(a).diag(), v);
      break;
   case 4: {
      v = at.d;
      i64 n = at.size(), p = r.in(1, n);
      while(n % p) --p;
      auto w = a.view2D(long(p), long(n / p));
      At q = at;
      q.r = p;
      q.c = n / p;
      expect2(w, at_of(g, q), "view2D", "reshaped selection");
      break;
   }
   case 5:
      line<T>(c, g, a.view1D(), at.d);
      line<T>(c, g, std::as_const(a).view1D(), at.d);
      break;
   case 6: {   // each row in turn through iteration
      for(i64 i = 0; i < nr; ++i) {
         Idx w;
         for(i64 j = 0; j < nc; ++j) w.push_back(at(i, j));
         std::vector<T> want;
         for(auto q : w) want.push_back(g.m[size_t(q)]);
         expect1(a.row(long(i)), want, "line", "row");
      }
      break;
   }
   }
}

template <int D, class T, class A> void level(Case& c, Ground<T>& g, A a, const At& at);

inline At sub(const At& at, const Idx& ri, const Idx& ci) {
   At n(i64(ri.size()), i64(ci.size()));
   for(size_t i = 0; i < ri.size(); ++i)
      for(size_t j = 0; j < ci.size(); ++j) n(i64(i), i64(j)) = at(ri[i], ci[j]);
   return norm(n);
}
inline Idx list(Rng& r, i64 n) {
   Idx v;
   if(n) {
      if(r.chance(60)) {
         Idx p = arith(0, n, 1);
         for(i64 i = n - 1; i > 0; --i) std::swap(p[size_t(i)], p[size_t(r.in(0, i))]);
         p.resize(size_t(r.in(0, n)));
         v = p;
      } else {
         i64 cnt = r.in(0, n + 2);
         for(i64 i = 0; i < cnt; ++i) v.push_back(r.in(0, n - 1));
      }
   }
   return v;
}
inline std::pair<seqN, Idx> range(Rng& r, i64 n) {
   i64 f = n ? r.in(0, n - 1) : 0;
   i64 s = r.pick({i64(1), i64(1), i64(2), i64(3), i64(-1), i64(-2), i64(0)});
   i64 mx = n == 0 ? 0 : s == 0 ? 2 : s > 0 ? (n - 1 - f) / s + 1 : f / -s + 1;
   i64 cnt = r.in(0, mx);
   return {seqN{long(f), long(cnt), long(s)}, arith(f, cnt, s)};
}

// Depth 2 allows one more selection (depth 10), of two independent ranges or two index lists only.
template <int D, class T, class A> void descend(Case& c, Ground<T>& g, A& a, const At& at) {
   constexpr bool mixed = D != 10;
   Rng& r = c.r;
   i64 nr = at.r, nc = at.c;
   auto go = [&](auto&& s, const Idx& ri, const Idx& ci, const char* name) {
      logs(name, "->", ri.size(), "x", ci.size());
      ev(name);
      c.note(std::string(name));
      slice_reports(s, ri.empty() || ci.empty() ? std::pair<Idx, Idx>{} : std::pair<Idx, Idx>{ri, ci}, name);
      for(auto i : ri) c.note(u64(i) + 1000);
      for(auto i : ci) c.note(u64(i) + 2000);
      level<D == 2 ? 10 : 0, T>(c, g, s, sub(at, ri, ci));
   };
   Idx allr = arith(0, nr, 1), allc = arith(0, nc, 1);
   int k = int(r.below(10));
   switch(k) {
   case 0: case 1:
      select(r, nr, [&](auto sl, const Idx& ri, const char*) {
         if(r.chance(50)) {
            auto [q, ci] = range(r, nc);
            if constexpr(mixed || requires { requires !std::is_same_v<decltype(sl), std::vector<ImplicitInt>> && !std::is_same_v<decltype(sl), place::complement>; }) go(a(sl, q), ri, ci, "2D.any-range");
         } else {
            auto ci = list(r, nc);
            if constexpr(mixed) go(a(sl, implicit(ci)), ri, ci, "2D.any-list");
         }
      });
      break;
   case 2: case 3:
      select(r, nc, [&](auto sl, const Idx& ci, const char*) {
         if(r.chance(50)) {
            auto [q, ri] = range(r, nr);
            if constexpr(mixed || requires { requires !std::is_same_v<decltype(sl), std::vector<ImplicitInt>> && !std::is_same_v<decltype(sl), place::complement>; }) go(a(q, sl), ri, ci, "2D.range-any");
         } else {
            auto ri = list(r, nr);
            if constexpr(mixed) go(a(implicit(ri), sl), ri, ci, "2D.list-any");
         }
      });
      break;
   case 4:
      select(r, nr, [&](auto sl, const Idx& ri, const char*) { if constexpr(mixed || requires { requires !std::is_same_v<decltype(sl), std::vector<ImplicitInt>> && !std::is_same_v<decltype(sl), place::complement>; }) go(a.rows(sl), ri, allc, "2D.rows"); });
      break;
   case 5:
      select(r, nc, [&](auto sl, const Idx& ci, const char*) { if constexpr(mixed || requires { requires !std::is_same_v<decltype(sl), std::vector<ImplicitInt>> && !std::is_same_v<decltype(sl), place::complement>; }) go(a.cols(sl), allr, ci, "2D.cols"); });
      break;
   case 6: {
      if(!at.size()) break;
      i64 i0 = r.in(0, nr - 1), i1 = r.in(i0, nr - 1), j0 = r.in(0, nc - 1), j1 = r.in(j0, nc - 1);
      auto ri = arith(i0, i1 - i0 + 1, 1), ci = arith(j0, j1 - j0 + 1, 1);
      if(r.chance(50)) go(a.block(long(i0), long(j0), long(i1), long(j1)), ri, ci, "2D.block");
      else go(a.block(int(i0), last - long(nc - 1 - j0), last - long(nr - 1 - i1), long(j1)), ri, ci, "2D.block-last");
      CHECK(throws([&] { (void)a.block(0, 0, long(nr), 0); }) && throws([&] { (void)a.block(0, 0, 0, long(nc)); }), "range",
            "block beyond the matrix accepted");
      break;
   }
   case 7: {
      i64 i0 = nr ? r.in(0, nr - 1) : 0, j0 = nc ? r.in(0, nc - 1) : 0;
      i64 n = nr ? r.in(0, nr - i0) : 0, m = nc ? r.in(0, nc - j0) : 0;
      if(!at.size()) break;
      go(a.blockN(long(i0), long(j0), long(n), long(m)), arith(i0, n, 1), arith(j0, m, 1), "2D.blockN");
      CHECK(throws([&] { (void)a.blockN(long(i0), long(j0), long(nr - i0 + 1), 1); })
               && throws([&] { (void)a.blockN(long(i0), long(j0), 1, long(nc - j0 + 1)); }),
            "range", "blockN beyond the matrix accepted");
      break;
   }
   case 8: {
      auto ri = list(r, nr), ci = list(r, nc);
      go(a(implicit(ri), implicit(ci)), ri, ci, "2D.list-list");
      break;
   }
   case 9:
      if constexpr(mixed) if(nr >= 3 && nc >= 2) {
         int w = int(r.below(5));
         if(w == 0) go(a({2, 0, 1}, place::even), {2, 0, 1}, arith(0, (nc + 1) / 2, 2), "2D.init-any");
         if(w == 1) go(a(place::reverse, {1, 0, 1}), arith(nr - 1, nr, -1), {1, 0, 1}, "2D.any-init");
         if(w == 2) go(a({2, 0, 1}, {1, 0, 1}), {2, 0, 1}, {1, 0, 1}, "2D.init-init");
         if(w == 3) go(a.rows({0, 2}), {0, 2}, allc, "2D.rows-init");
         if(w == 4) go(a.cols({1, 0}), allr, {1, 0}, "2D.cols-init");
      }
      break;
   }
}

template <int D, class T, class A> void level(Case& c, Ground<T>& g, A a, const At& at) {
   reads<T>(c, g, a, at);
   if constexpr(requires { a = S<T>(T{}); }) {
      if(c.r.chance(50)) writes<T>(c, g, a, at);
   }
   if(c.r.chance(45)) lines<T>(c, g, a, at);
   if constexpr(D > 0) {
      if(c.r.chance(75)) descend<D, T>(c, g, a, at);
   } else {
      ev("depth.max");
   }
}

inline At whole(i64 n, i64 m, i64 off = 0) {
   At a(n, m);
   for(i64 k = 0; k < n * m; ++k) a.d[size_t(k)] = off + k;
   return norm(a);
}

template <int D, class A> void owner(Case& c, A& a) {
   using T = bt<A>;
   Ground<T> g;
   i64 nr = a.rows().val(), nc = a.cols().val();
   g.m = rvec<T>(c.r, nr * nc);
   fill1(a, g.m);
   g.real = [&a] { return vec(a); };
   logs("owner ", nr, "x", nc);
   At at = whole(nr, nc);
   reads<T>(c, g, a, at);
   if(c.r.chance(15)) {
      ev("const-owner");
      logs("const");
      descend<1, T>(c, g, std::as_const(a), at);
   } else {
      descend<D, T>(c, g, a, at);
      lines<T>(c, g, a, at);
   }
   g.check("at the end");
   reads<T>(c, g, a, at);
   c.nontrivial = nr > 0;
}

template <int D, class T> void attached(Case& c) {
   Rng& r = c.r;
   i64 nr = r.in(1, 8), nc = r.in(1, 8), pre = r.in(0, 5), post = r.in(0, 5);
   auto mem = rvec<T>(r, pre + nr * nc + post);
   Ground<T> g;
   g.m = mem;
   g.real = [&mem] { return mem; };
   T* p = mem.data() + pre;
   auto a = attach2D(p, long(nr), long(nc));
   logs("attached ", nr, "x", nc);
   ev("attached");
   level<D, T>(c, g, a, whole(nr, nc, pre));
   descend<D, T>(c, g, a, whole(nr, nc, pre));
   g.check("at the end");
   c.nontrivial = true;
}
template <int D, class T> void viewed(Case& c) {   // 2D view of a (strided part of a) 1D array
   Rng& r = c.r;
   i64 nr = r.in(1, 7), nc = r.in(1, 7), pre = r.in(0, 3), s = r.in(1, 2);
   Array1D<T> base(long(pre + nr * nc * s + r.in(0, 3)));
   Ground<T> g;
   g.m = rvec<T>(r, sz(base));
   fill1(base, g.m);
   g.real = [&base] { return vec(base); };
   auto sl = base(seqN{long(pre), long(nr * nc), long(s)});
   logs("view2D ", nr, "x", nc, " stride ", s);
   ev("viewed");
   At at = whole(nr, nc);
   for(auto& k : at.d) k = pre + k * s;
   auto a = sl.view2D(long(nr), long(nc));
   level<D, T>(c, g, a, at);
   descend<D, T>(c, g, a, at);
   g.check("at the end");
   c.nontrivial = true;
}
template <int D, class T> void overexpr(Case& c) {
   Rng& r = c.r;
   i64 nr = r.in(1, 7), nc = r.in(1, 7);
   auto v = rmat<T>(r, nr, nc), w = rmat<T>(r, nr, nc);
   auto a = mk2<Array2D<T>>(v), b = mk2<Array2D<T>>(w);
   auto e = a + b;
   Ground<T> g;
   for(size_t i = 0; i < v.d.size(); ++i) g.m.push_back(T(v.d[i] + w.d[i]));
   g.real = [&e] { return vec(e); };
   logs("expr ", nr, "x", nc);
   ev("overexpr");
   level<D, T>(c, g, e, whole(nr, nc));
   descend<D, T>(c, g, e, whole(nr, nc));
   c.nontrivial = true;
}

int main(int argc, char** argv) {
   return run(argc, argv, [](Case& c) {
      dispatch<8>(c, []<int K>(Case& c) {
         Rng& r = c.r;
         auto dims = [&](i64 big) { return r.chance(3) ? std::pair<i64, i64>{0, 0} : std::pair<i64, i64>{r.chance(4) ? r.in(9, 40) : r.in(1, big), r.in(1, big)}; };
         if constexpr(K == 0) { auto [n, m] = dims(9); Array2D<int> a(1L * n, 1L * m); owner<2>(c, a); }
         if constexpr(K == 1) { auto [n, m] = dims(9); Array2D<double, Aligned> a(1L * n, 1L * m); owner<1>(c, a); }
         if constexpr(K == 2) { FixedArray2D<int, 5, 7> a; owner<1>(c, a); }
         if constexpr(K == 3) attached<1, double>(c);
         if constexpr(K == 4) viewed<1, int>(c);
         if constexpr(K == 5) overexpr<1, int>(c);
         if constexpr(K == 6) { FixedArray2D<float, 6, 1, Aligned> a; owner<1>(c, a); }
         if constexpr(K == 7) { auto [n, m] = dims(6); Array2D<long> a(1L * n, 1L * m); owner<1>(c, a); }
      });
   });
}
