// P09: several live views of one storage; every write through any of them must be seen through all.
#include "slices.hpp"
using namespace h;
using namespace spp;

template <class T> Strict<T> S(T x) { return Strict<T>{x}; }

// A live view: the flat positions of its elements, its reader, its element addresses and (if mutable) its writers.
template <class T> struct View {
   std::string name;
   i64 r = -1, c = -1;   // 2D shape, or r == -1 for 1D
   Idx at;
   std::function<void()> read;
   std::function<void(Rng&)> write;
};

template <class T> struct World {
   Case& c;
   std::vector<T> m;                                // model of the whole memory, guards included
   std::vector<std::function<std::vector<T>()>> real;
   std::vector<View<T>> views;
   std::function<const void*()> base;                // address of m[0] (an owner may move its storage)

   void check(const std::string& what) {
      auto v = real[0]();
      CHECK(eq(v, m), "storage", what, ": storage is ", show(v), " expected ", show(m));
      for(auto& w : views) w.read();
   }

   template <class A> void add1(std::string name, A& a, const Idx& at) {
      View<T> w;
      w.name = name;
      w.at = at;
      w.read = [this, &a, at, name] {
         std::vector<T> want;
         for(auto i : at) want.push_back(m[size_t(i)]);
         CHECK(sz(a) == i64(at.size()), "shape", name, " has ", sz(a), " elements, expected ", at.size());
         expect1(a, want, "read", name);
         expect1(std::as_const(a), want, "read", name);
         if(const void* b0 = base ? base() : nullptr) {
            for(size_t i = 0; i < at.size(); ++i) {
               CHECK((const void*)&a.un(long(i)) == (const void*)((const Strict<T>*)b0 + at[i]), "sharing", name, " element ", i, " is not the source's element");
            }
         }
         ev("view.read");
      };
      if constexpr(requires { a = S<T>(T{}); }) {
         w.write = [this, &a, at, name](Rng& r) {
            i64 n = i64(at.size());
            int k = int(r.below(6));
            if(!injective(at)) k = 0;
            logs("write", k, " ", name);
            switch(k) {
            case 0:
               if(n) {
                  i64 i = r.in(0, n - 1);
                  T x = rnd<T>(r);
                  a[long(i)] = S<T>(x);
                  m[size_t(at[size_t(i)])] = x;
               }
               break;
            case 1: {
               T x = rnd<T>(r);
               a = S<T>(x);
               for(auto i : at) m[size_t(i)] = x;
               break;
            }
            case 2: {
               auto v = rvec<T>(r, n);
               a = mk1<Array1D<T>>(v);
               for(size_t i = 0; i < v.size(); ++i) m[size_t(at[i])] = v[i];
               break;
            }
            case 3: {
               auto v = rvec<T>(r, n);
               a += mk1<Array1D<T>>(v);
               for(size_t i = 0; i < v.size(); ++i) m[size_t(at[i])] = T(m[size_t(at[i])] + v[i]);
               break;
            }
            case 4: {
               auto v = rvec<T>(r, n);
               auto b = mk1<Array1D<T>>(v);
               a = b - S<T>(T(1));
               for(size_t i = 0; i < v.size(); ++i) m[size_t(at[i])] = T(v[i] - 1);
               break;
            }
            case 5: {
               auto v = rvec<T>(r, n);
               size_t i = 0;
               for(auto& x : a) x = S<T>(v[i++]);
               for(size_t q = 0; q < v.size(); ++q) m[size_t(at[q])] = v[q];
               break;
            }
            }
            ev("view1.write");
         };
      }
      views.push_back(w);
      logs("view ", name, " of ", at.size());
      c.note(name);
      c.note(at.size());
   }

   template <class A> void add2(std::string name, A& a, i64 nr, i64 nc, const Idx& at) {
      View<T> w;
      w.name = name;
      w.at = at;
      w.read = [this, &a, at, name, nr, nc] {
         Mat<T> want(at.empty() ? 0 : nr, at.empty() ? 0 : nc);
         for(size_t i = 0; i < at.size(); ++i) want.d[i] = m[size_t(at[i])];
         CHECK(a.rows().val() == want.r && a.cols().val() == want.c && sz(a) == want.size(), "shape", name, " is ", a.rows().val(), "x", a.cols().val(), " of ", sz(a));
         expect2(a, want, "read", name);
         expect2(std::as_const(a), want, "read", name);
         auto lin = vec(a);
         CHECK(eq(lin, want.d), "read", name, " linear: ", show(lin), " expected ", show(want.d));
         if(const void* b0 = base ? base() : nullptr) {
            for(size_t i = 0; i < at.size(); ++i) {
               CHECK((const void*)&a.un(long(i) / long(nc), long(i) % long(nc)) == (const void*)((const Strict<T>*)b0 + at[i]), "sharing", name, " element ", i, " is not the source's element");
            }
         }
         ev("view.read");
      };
      if constexpr(requires { a = S<T>(T{}); }) {
         w.write = [this, &a, at, name, nr, nc](Rng& r) {
            int k = int(r.below(5));
            if(at.empty()) return;
            if(!injective(at)) k = 0;
            logs("write", k, " ", name);
            switch(k) {
            case 0: {
               i64 i = r.in(0, nr - 1), j = r.in(0, nc - 1);
               T x = rnd<T>(r);
               a(long(i), last - long(nc - 1 - j)) = S<T>(x);
               m[size_t(at[size_t(i * nc + j)])] = x;
               break;
            }
            case 1: {
               auto v = rmat<T>(r, nr, nc);
               a = mk2<Array2D<T>>(v);
               for(size_t i = 0; i < at.size(); ++i) m[size_t(at[i])] = v.d[i];
               break;
            }
            case 2: {
               i64 i = r.in(0, nr - 1);
               auto v = rvec<T>(r, nc);
               a.row(long(i)) = mk1<Array1D<T>>(v);
               for(i64 j = 0; j < nc; ++j) m[size_t(at[size_t(i * nc + j)])] = v[size_t(j)];
               break;
            }
            case 3: {
               i64 j = r.in(0, nc - 1);
               auto v = rvec<T>(r, nr);
               a.col(long(j)) += mk1<Array1D<T>>(v);
               for(i64 i = 0; i < nr; ++i) {
                  T& t = m[size_t(at[size_t(i * nc + j)])];
                  t = T(t + v[size_t(i)]);
               }
               break;
            }
            case 4: {
               T x = rnd<T>(r);
               a = S<T>(x);
               for(auto i : at) m[size_t(i)] = x;
               break;
            }
            }
            ev("view2.write");
         };
      }
      views.push_back(w);
      logs("view ", name, " ", nr, "x", nc);
      c.note(name);
      c.note(u64(nr) * 64 + u64(nc));
   }

   void drive(int steps) {
      check("initially");
      for(int s = 0; s < steps; ++s) {
         auto& w = c.r.pick(views);
         if(w.write) {
            w.write(c.r);
            check("after a write through " + w.name);
         }
         c.note(u64(&w - views.data()));
      }
      c.nontrivial = m.size() > 0;
   }
};

inline std::pair<i64, i64> shape(Rng& r, i64 n) {
   if(n == 0) return {r.chance(50) ? 0 : r.in(0, 4), 0};
   i64 p = r.in(1, n);
   while(n % p) --p;
   return r.chance(50) ? std::pair<i64, i64>{p, n / p} : std::pair<i64, i64>{n / p, p};
}
template <class A> void rejects(Case& c, A& a, i64 n) {
   auto bad = [&](i64 p, i64 q) {
      if(p * q != n) {
         CHECK(throws([&] { (void)a.view2D(long(p), long(q)); }), "reject", "view2D(", p, ",", q, ") of ", n, " elements accepted");
         CHECK(throws([&] { (void)std::as_const(a).view2D(long(p), long(q)); }), "reject", "const view2D(", p, ",", q, ") of ", n, " elements accepted");
      }
   };
   bad(c.r.in(0, 9), c.r.in(0, 9));
   bad(n + 1, 1);
   bad(1, n - 1);
   if(n) {
      auto [p, q] = shape(c.r, n);
      CHECK(throws([&] { (void)a.view2D(-long(p), -long(q)); }), "reject", "view2D with negative extents accepted");
   }
   ev("rejected");
}

// Views over any mutable 1D object a, whose elements are the positions at of the world.
template <class T, class A> void views1(Case& c, World<T>& w, A& a, const Idx& at) {
   Rng& r = c.r;
   i64 n = i64(at.size());
   auto [p, q] = shape(r, n);
   w.add1("source", a, at);
   auto v1 = a.view1D();
   w.add1("view1D", v1, at);
   auto v2 = a.view2D(long(p), long(q));
   w.add2("view2D", v2, p, q, at);
   auto k1 = std::as_const(a).view1D();
   w.add1("const view1D", k1, at);
   auto k2 = std::as_const(a).view2D(long(p), long(q));
   w.add2("const view2D", k2, p, q, at);
   auto v12 = a.view2D(long(p), long(q)).view1D();
   w.add1("view2D.view1D", v12, at);
   auto [s, t] = shape(r, n);
   auto v22 = a.view2D(long(p), long(q)).view2D(long(s), long(t));
   w.add2("view2D.view2D", v22, s, t, at);
   i64 f = n ? r.in(0, n - 1) : 0, cnt = n ? r.in(0, n - f) : 0;
   auto sub = arith(0, 0, 1);
   for(i64 i = 0; i < cnt; ++i) sub.push_back(at[size_t(f + i)]);
   auto [x, y] = shape(r, cnt);
   auto vs = a(seqN{long(f), long(cnt)}).view2D(long(x), long(y));
   w.add2("slice.view2D", vs, x, y, sub);
   auto rv = a.view1D()(place::reverse);
   w.add1("view1D.reverse", rv, Idx(at.rbegin(), at.rend()));
   rejects(c, a, n);
   rejects(c, v2, n);
   w.drive(int(r.in(3, 14)));
}
template <class T, class A> void views2(Case& c, World<T>& w, A& a, i64 nr, i64 nc, const Idx& at) {
   Rng& r = c.r;
   i64 n = i64(at.size());
   w.add2("source", a, nr, nc, at);
   auto v1 = a.view1D();
   w.add1("view1D", v1, at);
   auto [p, q] = shape(r, n);
   auto v2 = a.view2D(long(p), long(q));
   w.add2("view2D", v2, p, q, at);
   auto k1 = std::as_const(a).view1D();
   w.add1("const view1D", k1, at);
   auto k2 = std::as_const(a).view2D(long(p), long(q));
   w.add2("const view2D", k2, p, q, at);
   auto v12 = a.view1D().view2D(long(p), long(q));
   w.add2("view1D.view2D", v12, p, q, at);
   if(n) {
      i64 i = r.in(0, nr - 1), cnt = r.in(1, nr - i);
      Idx sub;
      for(i64 k = 0; k < cnt * nc; ++k) sub.push_back(at[size_t(i * nc + k)]);
      auto [x, y] = shape(r, cnt * nc);
      auto vb = a.rows(seqN{long(i), long(cnt)}).view2D(long(x), long(y));
      w.add2("rows.view2D", vb, x, y, sub);
      auto vr = a(place::reverse, place::reverse).view1D();
      w.add1("reversed.view1D", vr, Idx(at.rbegin(), at.rend()));
      rejects(c, a, n);
      rejects(c, v1, n);
      w.drive(int(r.in(3, 14)));
   } else {
      rejects(c, a, n);
      w.drive(2);
   }
}

template <class A> void owner1(Case& c, A& a) {
   using T = bt<A>;
   World<T> w{c, rvec<T>(c.r, sz(a)), {}, {}};
   fill1(a, w.m);
   w.real.push_back([&a] { return vec(a); });
   w.base = [&a]() -> const void* { return a.data(); };
   views1<T>(c, w, a, arith(0, sz(a), 1));
}
template <class A> void owner2(Case& c, A& a) {
   using T = bt<A>;
   World<T> w{c, rvec<T>(c.r, sz(a)), {}, {}};
   fill1(a, w.m);
   w.real.push_back([&a] { return vec(a); });
   w.base = [&a]() -> const void* { return a.data(); };
   views2<T>(c, w, a, a.rows().val(), a.cols().val(), arith(0, sz(a), 1));
}
template <class T> void attached1(Case& c) {
   Rng& r = c.r;
   i64 n = rsize(r, 40), pre = r.in(0, 4);
   World<T> w{c, rvec<T>(r, pre + n + r.in(0, 4)), {}, {}};
   std::vector<T> mem = w.m;
   w.real.push_back([&mem] { return mem; });
   w.base = [&mem]() -> const void* { return mem.data(); };
   T* p = mem.data() + pre;
   const T* cp = p;
   auto a = attach1D(p, long(n));
   auto ca = attach1D(cp, long(n));
   Idx at = arith(pre, n, 1);
   w.add1("const attach1D", ca, at);
   auto [x, y] = shape(r, n);
   auto b = attach2D(p, n ? long(x) : 0L, n ? long(y) : 0L);
   auto cb = attach2D(cp, n ? long(x) : 0L, n ? long(y) : 0L);
   w.add2("attach2D", b, x, y, at);
   w.add2("const attach2D", cb, x, y, at);
   CHECK(throws([&] { (void)attach1D(p, -1); }) && throws([&] { (void)attach2D(p, -1, 1); }) && throws([&] { (void)attach2D(p, -1, -1); }), "reject",
         "attaching to a negative number of elements accepted");
   ev("attached1");
   views1<T>(c, w, a, at);
}
template <class T> void attached2(Case& c) {
   Rng& r = c.r;
   i64 nr = r.in(1, 7), nc = r.in(1, 7), pre = r.in(0, 4), n = nr * nc;
   World<T> w{c, rvec<T>(r, pre + n + r.in(0, 4)), {}, {}};
   std::vector<T> mem = w.m;
   w.real.push_back([&mem] { return mem; });
   w.base = [&mem]() -> const void* { return mem.data(); };
   T* p = mem.data() + pre;
   const T* cp = p;
   auto a = attach2D(p, long(nr), long(nc));
   auto ca = attach2D(cp, long(nr), long(nc));
   auto b = attach1D(p, long(n));
   Idx at = arith(pre, n, 1);
   w.add2("const attach2D", ca, nr, nc, at);
   w.add1("attach1D", b, at);
   ev("attached2");
   views2<T>(c, w, a, nr, nc, at);
}
template <class T> void sliced1(Case& c) {   // views of a strided or listed slice of a larger array
   Rng& r = c.r;
   Array1D<T> base(long(rsize(r, 40)));
   World<T> w{c, rvec<T>(r, sz(base)), {}, {}};
   fill1(base, w.m);
   w.real.push_back([&base] { return vec(base); });
   w.base = [&base]() -> const void* { return base.data(); };
   i64 n = sz(base);
   if(r.chance(50)) {
      i64 f = n ? r.in(0, n - 1) : 0, s = r.pick({i64(1), i64(2), i64(3), i64(-1), i64(-2)});
      i64 mx = n == 0 ? 0 : s > 0 ? (n - 1 - f) / s + 1 : f / -s + 1, cnt = r.in(0, mx);
      auto a = base(seqN{long(f), long(cnt), long(s)});
      ev("sliced1.range");
      views1<T>(c, w, a, arith(f, cnt, s));
   } else {
      Idx v;
      for(i64 i = 0; i < n; ++i) if(r.chance(60)) v.insert(v.begin() + i64(r.below(v.size() + 1)), i);
      auto a = base(implicit(v));
      ev("sliced1.list");
      views1<T>(c, w, a, v);
   }
}
template <class T> void sliced2(Case& c) {
   Rng& r = c.r;
   i64 R = r.in(1, 8), C = r.in(1, 8);
   Array2D<T> base(1L * R, 1L * C);
   World<T> w{c, rvec<T>(r, R * C), {}, {}};
   fill1(base, w.m);
   w.real.push_back([&base] { return vec(base); });
   w.base = [&base]() -> const void* { return base.data(); };
   i64 i0 = r.in(0, R - 1), nr = r.in(1, R - i0), s = r.in(1, 2), nc = (C + s - 1) / s;
   Idx at;
   for(i64 i = 0; i < nr; ++i)
      for(i64 j = 0; j < nc; ++j) at.push_back((i0 + i) * C + j * s);
   auto a = base(seqN{long(i0), long(nr)}, place::skipN{long(s)});
   ev("sliced2");
   views2<T>(c, w, a, nr, nc, at);
}
template <class T> void overexpr(Case& c) {   // views of expressions are read-only reshapings of their values
   Rng& r = c.r;
   i64 nr = r.in(1, 6), nc = r.in(1, 6);
   auto x = rmat<T>(r, nr, nc), y = rmat<T>(r, nr, nc);
   auto a = mk2<Array2D<T>>(x), b = mk2<Array2D<T>>(y);
   auto e = a + b;
   auto v = e.view1D();
   auto u = (a * b).view1D();
   auto z = v.view2D(long(nc), long(nr));
   for(int k = 0; k < 3; ++k) {
      Mat<T> s(nr, nc), p(nr, nc), q(nc, nr);
      for(size_t i = 0; i < x.d.size(); ++i) {
         s.d[i] = T(x.d[i] + y.d[i]);
         p.d[i] = T(x.d[i] * y.d[i]);
      }
      q.d = s.d;
      expect1(v, s.d, "expr", "view1D of a sum");
      expect1(u, p.d, "expr", "view1D of a product");
      expect2(z, q, "expr", "view2D of a view1D of a sum");
      i64 i = r.in(0, nr - 1), j = r.in(0, nc - 1);
      x(i, j) = rnd<T>(r);
      a(long(i), long(j)) = S<T>(x(i, j));
   }
   rejects(c, e, nr * nc);
   c.note(u64(nr * 100 + nc));
   c.note(u64(r.s));
   c.nontrivial = true;
   ev("overexpr");
}

int main(int argc, char** argv) {
   return run(argc, argv, [](Case& c) {
      dispatch<12>(c, []<int K>(Case& c) {
         Rng& r = c.r;
         i64 n = r.in(1, 9), m = r.in(1, 9);
         if(r.chance(3)) n = m = 0;
         if constexpr(K == 0) { Array1D<int> a(long(rsize(r))); owner1(c, a); }
         if constexpr(K == 1) { Array1D<double, Aligned> a(long(rsize(r))); owner1(c, a); }
         if constexpr(K == 2) { FixedArray1D<int, 12> a; owner1(c, a); }
         if constexpr(K == 3) { Array2D<int> a(1L * n, 1L * m); owner2(c, a); }
         if constexpr(K == 4) { Array2D<float, Aligned> a(1L * n, 1L * m); owner2(c, a); }
         if constexpr(K == 5) { FixedArray2D<double, 4, 6, Aligned> a; owner2(c, a); }
         if constexpr(K == 6) attached1<double>(c);
         if constexpr(K == 7) attached2<int>(c);
         if constexpr(K == 8) sliced1<int>(c);
         if constexpr(K == 9) sliced2<double>(c);
         if constexpr(K == 10) overexpr<int>(c);
         if constexpr(K == 11) sliced2<long>(c);
      });
   });
}
