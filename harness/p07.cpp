// P07: 1D slices to any depth over every kind of 1D object, reading and writing, against an index model.
#include "slices.hpp"
using namespace h;
using namespace spp;

template <class T> Strict<T> S(T x) { return Strict<T>{x}; }

// The ground: a flat memory (model) and a function that reads the real underlying storage.
template <class T>
struct Ground {
   std::vector<T> m;                           // model of the underlying storage
   std::function<std::vector<T>()> real;       // its real contents, guards included
   void check(const char* what) {
      auto v = real();
      CHECK(eq(v, m), "storage", what, ": underlying storage is ", show(v), " expected ", show(m));
   }
};

template <class T, class A> void reads(Case& c, Ground<T>& g, A& a, const Idx& at) {
   Rng& r = c.r;
   std::vector<T> want;
   for(auto i : at) want.push_back(g.m[size_t(i)]);
   CHECK(sz(a) == i64(at.size()), "size", "slice has ", sz(a), " elements, expected ", at.size());
   expect1(a, want, "read", "slice contents");
   expect1(std::as_const(a), want, "read.const", "slice contents (const)");
   CHECK(bool(a.empty()) == at.empty(), "size", "empty()");
   i64 n = i64(at.size());
   if(n) {
      i64 i = r.in(0, n - 1);
      CHECK(same(a[long(i)].val(), want[size_t(i)]) && same(a.at(int(i)).val(), want[size_t(i)])
               && same(a[last - long(n - 1 - i)].val(), want[size_t(i)]) && same(a[index_t{long(i)}].val(), want[size_t(i)])
               && same(std::as_const(a)[long(i)].val(), want[size_t(i)]),
            "index", "element ", i);
      CHECK(throws([&] { (void)a[long(n)]; }) && throws([&] { (void)a.at(-1); }), "range", "out-of-range access of a slice accepted");
      CHECK(sz(a) - 1 == a.size_m1().val(), "size", "size_m1");
   }
   std::vector<T> it;
   for(auto x : a) it.push_back(x.val());
   CHECK(eq(it, want), "iterate", "iteration gives ", show(it), " expected ", show(want));
   ev("read");
}

template <class T, class A> void writes(Case& c, Ground<T>& g, A& a, const Idx& at) {
   Rng& r = c.r;
   i64 n = i64(at.size());
   auto M = [&](i64 i) -> auto&& { return g.m[size_t(at[size_t(i)])]; };
   bool inj = injective(at);
   int op = int(r.below(13));
   if(!inj) op = int(r.pick({0, 5}));
   switch(op) {
   case 0: {
      T x = rnd<T>(r);
      a = S<T>(x);
      for(i64 i = 0; i < n; ++i) M(i) = x;
      break;
   }
   case 1: {
      auto v = rvec<T>(r, n);
      a = mk1<Array1D<T>>(v);
      for(i64 i = 0; i < n; ++i) M(i) = v[size_t(i)];
      break;
   }
   case 2: {   // from another slice
      auto v = rvec<T>(r, 2 * n + 1);
      auto b = mk1<Array1D<T>>(v);
      a = b(seqN{1, long(n), 2});
      for(i64 i = 0; i < n; ++i) M(i) = v[size_t(1 + 2 * i)];
      break;
   }
   case 3: {   // same type of slice: copies elements, does not rebind
      auto v = rvec<T>(r, n);
      auto keep = mk1<Array1D<T>>(v);
      a = keep(place::reverse);
      for(i64 i = 0; i < n; ++i) M(i) = v[size_t(n - 1 - i)];
      break;
   }
   case 4:
      if(n) {
         i64 i = r.in(0, n - 1);
         T x = rnd<T>(r);
         a[long(i)] = S<T>(x);
         M(i) = x;
      }
      break;
   case 5:
      if(n) {
         i64 i = r.in(0, n - 1);
         T x = rnd<T>(r);
         a.at(last - long(n - 1 - i)) = S<T>(x);
         M(i) = x;
      }
      break;
   case 6: {
      T x = rnd<T>(r, 1, 9);
      a += S<T>(x);
      for(i64 i = 0; i < n; ++i) M(i) = T(M(i) + x);
      break;
   }
   case 7: {
      auto v = rvec<T>(r, n, 1, 5);
      auto b = mk1<Array1D<T>>(v);
      int k = int(r.below(3));
      if(k == 0) a += b;
      if(k == 1) a -= b;
      if(k == 2) a *= b;
      for(i64 i = 0; i < n; ++i) {
         T& t = M(i);
         T y = v[size_t(i)];
         t = k == 0 ? T(t + y) : k == 1 ? T(t - y) : T(t * y);
         if(std::abs(double(t)) > 1e6) { t = T(1); a.un(long(i)) = S<T>(T(1)); }
      }
      break;
   }
   case 8:   // in-place expression
      a = a + a;
      for(i64 i = 0; i < n; ++i) {
         M(i) = T(M(i) + M(i));
         if(std::abs(double(M(i))) > 1e6) { M(i) = T(1); a.un(long(i)) = S<T>(T(1)); }
      }
      break;
   case 9:
      if(n == 3) {
         T x = rnd<T>(r), y = rnd<T>(r), z = rnd<T>(r);
         a = {S<T>(x), S<T>(y), S<T>(z)};
         M(0) = x;
         M(1) = y;
         M(2) = z;
         ev("write.list");
      }
      break;
   case 10: {   // through iterators
      i64 k = 0;
      for(auto& x : a) {
         T y = rnd<T>(r);
         x = S<T>(y);
         M(k++) = y;
      }
      break;
   }
   case 11: {
      if(n) {
         std::sort(a.begin(), a.end());
         std::vector<T> v;
         for(i64 i = 0; i < n; ++i) v.push_back(M(i));
         std::sort(v.begin(), v.end());
         for(i64 i = 0; i < n; ++i) M(i) = v[size_t(i)];
      }
      break;
   }
   case 12: {   // mismatching source is rejected and nothing changes
      auto b = mk1<Array1D<T>>(rvec<T>(r, n + 1));
      CHECK(throws([&] { a = b; }), "mismatch", "assignment of a longer array accepted");
      break;
   }
   }
   ev(str("write.", op));
   logs("write", op);
   g.check("after write through the slice");
   reads(c, g, a, at);
}

template <int D, class T, class A> void level(Case& c, Ground<T>& g, A a, const Idx& at);

template <int D, class T, class A, class Sl> void descend(Case& c, Ground<T>& g, A& a, Sl sl, const Idx& at, const Idx& ix) {
   Idx nat = compose(at, ix);
   // lvalue, rvalue and const paths denote the same elements
   int how = int(c.r.below(3));
   if(how == 0) {
      auto s = a(sl);
      slice_reports(s, ix, "1D slice");
      level<D - 1, T>(c, g, s, nat);
   } else if(how == 1) {
      A tmp(a);
      level<D - 1, T>(c, g, std::move(tmp)(sl), nat);
   } else {
      auto s = std::as_const(a)(sl);
      slice_reports(s, ix, "constant 1D slice");
      reads<T>(c, g, s, nat);
      level<D - 1, T>(c, g, a(sl), nat);
   }
}

template <int D, class T, class A> void level(Case& c, Ground<T>& g, A a, const Idx& at) {
   c.note(at.size() * 16 + D);
   reads<T>(c, g, a, at);
   if constexpr(requires { a = S<T>(T{}); }) {
      if(c.r.chance(60)) writes<T>(c, g, a, at);
   }
   if constexpr(D > 0) {
      if(c.r.chance(75)) {
         if(at.size() >= 3 && c.r.chance(8)) {
            logs("IndexList{2,0,1}");
            ev("sel.initlist");
            level<D - 1, T>(c, g, a({2, 0, 1}), compose(at, {2, 0, 1}));
         } else {
            select(c.r, i64(at.size()), [&](auto sl, const Idx& ix, const char* name) {
               ev(str("sel.", name));
               c.note(std::string(name));
               logs(name, "->", ix.size());
               for(auto i : ix) c.note(u64(i));
               descend<D>(c, g, a, sl, at, ix);
            });
         }
      }
   } else {
      ev("depth.max");
   }
}

// The first slice of an owner: lvalue or const lvalue.
template <int D, class T, class A> void top(Case& c, Ground<T>& g, A& a, const Idx& at) {
   if(at.size() >= 3 && c.r.chance(5)) {
      ev("sel.initlist");
      logs("IndexList{1,2,0}");
      level<D, T>(c, g, a({1, 2, 0}), compose(at, {1, 2, 0}));
   } else if(c.r.chance(5)) {
      logs("view1D");
      level<D, T>(c, g, a.view1D(), at);
   } else {
      select(c.r, i64(at.size()), [&](auto sl, const Idx& ix, const char* name) {
         ev(str("sel.", name));
         c.note(std::string(name));
         logs(name, "->", ix.size());
         for(auto i : ix) c.note(u64(i));
         if(c.r.chance(20)) {
            ev("const-owner");
            level<D, T>(c, g, std::as_const(a)(sl), compose(at, ix));
         } else {
            level<D, T>(c, g, a(sl), compose(at, ix));
         }
      });
   }
   g.check("at the end");
   c.nontrivial = true;
}

template <int D, class A> void owner1(Case& c, A& a) {
   using T = bt<A>;
   Ground<T> g;
   g.m = rvec<T>(c.r, sz(a));
   fill1(a, g.m);
   g.real = [&a] { return vec(a); };
   logs("owner of ", sz(a));
   top<D, T>(c, g, a, arith(0, sz(a), 1));
   // element access of the owner itself
   reads<T>(c, g, a, arith(0, sz(a), 1));
}

template <int D, class A> void owner2(Case& c, A& a) {   // rows, columns, diagonals and views of a 2D owner
   using T = bt<A>;
   Rng& r = c.r;
   i64 nr = a.rows().val(), nc = a.cols().val();
   Ground<T> g;
   g.m = rvec<T>(r, nr * nc);
   fill1(a, g.m);
   g.real = [&a] { return vec(a); };
   int k = int(r.below(5));
   if(k == 0) {
      i64 i = r.in(0, nr - 1);
      logs("row ", i);
      level<D, T>(c, g, a.row(long(i)), arith(i * nc, nc, 1));
   } else if(k == 1) {
      i64 j = r.in(0, nc - 1);
      logs("col ", j);
      level<D, T>(c, g, a.col(last - long(nc - 1 - j)), arith(j, nr, nc));
   } else if(k == 2) {
      i64 d = r.in(-(nr - 1), nc - 1);
      Idx at;
      for(i64 i = 0; i < nr; ++i) if(i + d >= 0 && i + d < nc) at.push_back(i * nc + i + d);
      logs("diag ", d);
      level<D, T>(c, g, a.diag(long(d)), at);
   } else if(k == 3) {
      logs("view1D");
      level<D, T>(c, g, a.view1D(), arith(0, nr * nc, 1));
   } else {
      logs("attach");
      T* p = a.blas_data();
      level<D, T>(c, g, attach1D(p, long(nr * nc)), arith(0, nr * nc, 1));
   }
   ev(str("from2D.", k));
   c.nontrivial = true;
}

template <int D, class T> void attached(Case& c) {
   Rng& r = c.r;
   i64 n = rsize(r, 40), pre = r.in(0, 5), post = r.in(0, 5);
   std::vector<T> mem = rvec<T>(r, pre + n + post);
   Ground<T> g;
   g.m = mem;
   g.real = [&mem] { return mem; };
   T* p = mem.data() + pre;
   auto a = attach1D(p, long(n));
   logs("attached of ", n);
   ev("attached");
   Idx at = arith(pre, n, 1);
   level<D, T>(c, g, a, at);
   top<D, T>(c, g, a, at);
}

template <int D, class T> void overexpr(Case& c) {   // slices of an expression are read-only selections of its values
   Rng& r = c.r;
   auto v = rvec<T>(r, rsize(r, 30)), w = rvec<T>(r, i64(v.size()));
   auto a = mk1<Array1D<T>>(v), b = mk1<Array1D<T>>(w);
   Ground<T> g;
   for(size_t i = 0; i < v.size(); ++i) g.m.push_back(T(v[i] + w[i]));
   auto e = a + b;
   g.real = [&e] { return vec(e); };
   logs("expr of ", v.size());
   ev("overexpr");
   Idx at = arith(0, i64(v.size()), 1);
   select(r, i64(v.size()), [&](auto sl, const Idx& ix, const char* name) {
      logs(name, "->", ix.size());
      c.note(std::string(name));
      level<D, T>(c, g, e(sl), compose(at, ix));
   });
   c.nontrivial = true;
}

int main(int argc, char** argv) {
   return run(argc, argv, [](Case& c) {
      dispatch<6>(c, []<int K>(Case& c) {
         Rng& r = c.r;
         if constexpr(K == 0) { Array1D<int> a(long(rsize(r))); owner1<3>(c, a); }
         if constexpr(K == 1) { Array1D<double, Aligned> a(long(rsize(r))); owner1<2>(c, a); }
         if constexpr(K == 2) {
            if(r.chance(50)) { FixedArray1D<int, 13> a; owner1<2>(c, a); }
            else { FixedArray1D<float, 6, Aligned> a; owner1<1>(c, a); }
         }
         if constexpr(K == 3) { Array2D<int> a(long(r.in(1, 8)), long(r.in(1, 8))); owner2<2>(c, a); }
         if constexpr(K == 4) attached<2, double>(c);
         if constexpr(K == 5) overexpr<2, int>(c);
      });
   });
}
