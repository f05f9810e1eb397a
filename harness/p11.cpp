// P11: stored expressions follow their operands; in-place updates equal evaluation on the old contents.
// Built without sanitizers at several optimisation levels as well as with them.
#include "operands.hpp"
using namespace h;
using namespace spp;

template <class T> using V = std::vector<T>;

template <class A, class T> void put(A& a, i64 i, T x) { a.un(long(i)) = S<T>(x); }

// ---- laziness: expressions stored once, evaluated after each of several changes of their operands
template <class T, class A, class B> void lazy(Case& c, A& a, B& b, V<T> x, V<T> y) {
   Rng& r = c.r;
   i64 n = i64(x.size());
   T s = rnd<T>(r, 1, 5);
   auto q = S<T>(s);
   auto e1 = a + b;
   auto e2 = e1 * q - b;
   auto e3 = (a * a + q) * e1;
   auto e4 = generate(a, b, [q](auto u, auto v) { return v - u * q; });
   auto e5 = e2 + e2(place::reverse);
   auto e6 = a(place::reverse) + b;
   auto m = merge(a, b);
   q += One<T>;   // scalars are captured by value
   for(int step = 0; step < 4; ++step) {
      V<T> w1, w2, w3, w4, w5, w6, wm(x);
      for(i64 i = 0; i < n; ++i) {
         T u = x[size_t(i)], v = y[size_t(i)];
         w1.push_back(T(u + v));
         w2.push_back(T(T(T(u + v) * s) - v));
         w3.push_back(T(T(T(u * u) + s) * T(u + v)));
         w4.push_back(T(v - T(u * s)));
         w6.push_back(T(x[size_t(n - 1 - i)] + v));
         wm.push_back(T{});
      }
      wm = x;
      for(auto v : y) wm.push_back(v);
      for(i64 i = 0; i < n; ++i) w5.push_back(T(w2[size_t(i)] + w2[size_t(n - 1 - i)]));
      expect1(e1, w1, "stale", str("a+b at evaluation ", step));
      expect1(Array1D<T>(e2), w2, "stale", str("(a+b)*s-b at evaluation ", step));
      expect1(e3, w3, "stale", str("(a*a+s)*(a+b) at evaluation ", step));
      expect1(Array1D<T>(e4), w4, "stale", str("user function at evaluation ", step));
      expect1(e5, w5, "stale", str("e+reversed e at evaluation ", step));
      expect1(e6, w6, "stale", str("reversed a + b at evaluation ", step));
      expect1(m, wm, "stale", str("merge at evaluation ", step));
      expect1(e1, w1, "stale", str("a+b evaluated again at ", step));
      // change the operands
      int k = int(r.below(4));
      if(k == 0 && n) {
         i64 i = r.in(0, n - 1);
         x[size_t(i)] = rnd<T>(r, 0, 9);
         put(a, i, x[size_t(i)]);
      } else if(k == 1) {
         y = rvec<T>(r, n, 0, 9);
         b = mk1<Array1D<T>>(y);
      } else if(k == 2) {
         T z = rnd<T>(r, 0, 9);
         a = S<T>(z);
         for(auto& v : x) v = z;
      } else {
         a += b;
         for(i64 i = 0; i < n; ++i) {
            T& u = x[size_t(i)];
            u = T(u + y[size_t(i)]);
            if(std::abs(double(u)) > 1000.) { u = T(1); put(a, i, u); }
         }
      }
      ev("reevaluated");
      logs("change", k);
      c.note(u64(k) + 5);
   }
   c.note(u64(n));
   c.nontrivial = n > 0;
}

// ---- in-place updates. x are the old contents of a; every form reads a at the positions it writes.
template <class T, class A, class B> void inplace(Case& c, A& a, const B& b, V<T> x, const V<T>& y, int k) {
   Rng& r = c.r;
   i64 n = i64(x.size());
   T s = rnd<T>(r, 1, 5);
   auto q = S<T>(s);
   V<T> w(x);
   auto fill = [&](auto f) { for(i64 i = 0; i < n; ++i) w[size_t(i)] = f(x[size_t(i)], y[size_t(i)]); };
   switch(k) {
   case 0: fill([&](T u, T v) { return T(u + v); }); a = a + b; break;
   case 1: fill([&](T u, T v) { return T(v - u); }); a = b - a; break;
   case 2: fill([&](T u, T v) { return T(T(u * u) + T(u * v)); }); a = a * a + a * b; break;
   case 3: fill([&](T u, T) { return T(T(u * s) - u); }); a = a * q - a; break;
   case 4: fill([&](T u, T v) { return T(T(T(u + v) * T(u - v)) + T(u * T(u + s))); }); a = (a + b) * (a - b) + a * (a + q); break;
   case 5: fill([&](T u, T v) { return T(u + T(u * v)); }); a += a * b; break;
   case 6: fill([&](T u, T v) { return T(u - T(v - u)); }); a -= b - a; break;
   case 7: fill([&](T u, T) { return T(u * u); }); a *= a; break;
   case 8: fill([&](T u, T v) { return T(T(u * v) + T(u + u)); }); { auto e = a * b + (a + a); a = e; } break;
   case 9: fill([&](T u, T v) { return u > v ? u : v; }); a = generate(a, b, [](auto u, auto v) { return u > v ? u : v; }); break;
   case 10: fill([&](T u, T v) { return T(T(u + v) + u); }); a = a.view1D() + b + a; break;
   case 11: fill([&](T u, T v) { return T(v - u); }); a(place::all) = b - a; break;
   case 12: fill([&](T u, T v) { return T(T(u + v) + v); }); a(place::reverse) = a(place::reverse) + b(place::reverse) + b(place::reverse); break;
   case 13:   // every second element only
      for(i64 i = 0; i < n; i += 2) w[size_t(i)] = T(T(x[size_t(i)] * y[size_t(i)]) - x[size_t(i)]);
      a(place::even) = a(place::even) * b(place::even) - a(place::even);
      break;
   case 14:   // nested slices, the same elements by different routes
      if(n >= 4) {
         for(i64 i = 1; i < n - 1; ++i) w[size_t(i)] = T(x[size_t(i)] + T(x[size_t(i)] * s));
         a(seqN{1, long(n - 2)}) += a(seq{1, long(n - 2)})(place::all) * q;
      }
      break;
   case 15: fill([&](T u, T v) { return T(T(u * v) - u); }); { auto t = a(place::all); t = t * b - t; } break;
   case 16: fill([&](T u, T v) { return T(T(-u) + v); }); if constexpr(std::is_signed_v<T>) a = -a + b; else a = b - a; break;
   case 17: fill([&](T u, T v) { return T(T(T(T(u + v) + u) + v) + u); }); a = a + b + a + b + a; break;
   case 18:
      if constexpr(std::is_floating_point_v<T>) {
         fill([&](T u, T v) { return T(std::fabs(u) * v + u); });
         a = abs(a) * b + a;
      }
      break;
   case 19: fill([&](T u, T) { return T(T(u + u) + u); }); a = a + a + a; break;
   // an element of the array as the scalar: its old value counts throughout
   case 20: case 21: case 22: case 23:
      if(n) {
         i64 p = r.in(0, n - 1);
         T z = x[size_t(p)];
         logs("element ", p);
         if(k == 20) { fill([&](T u, T) { return T(u * z); }); if(r.chance(50)) a *= a[long(p)]; else a = a * a[long(p)]; }
         if(k == 21) { fill([&](T u, T) { return T(u + z); }); if(r.chance(50)) a += a.un(long(p)); else a = a + a.un(long(p)); }
         if(k == 22) { fill([&](T u, T) { return T(u - z); }); if(r.chance(50)) a -= a[long(p)]; else a(place::all) -= a[long(p)]; }
         if(k == 23) {
            if(r.chance(50)) {
               fill([&](T, T) { return z; });
               a = a[long(p)];
            } else if(z != T(0)) {
               fill([&](T u, T) { return T(u / z); });
               if(r.chance(50)) a /= a[long(p)]; else a = a / a[long(p)];
            }
         }
      }
      break;
   case 24:
      if constexpr(std::is_integral_v<T>) {
         if(!n) break;
         i64 p = r.in(0, n - 1);
         T z = x[size_t(p)];
         int how = int(r.below(6));
         logs("element ", p, " operation ", how);
         if(how == 0 && z != T(0)) { fill([&](T u, T) { return T(u % z); }); a %= a[long(p)]; }
         if(how == 1) { fill([&](T u, T) { return T(u & z); }); a &= a[long(p)]; }
         if(how == 2) { fill([&](T u, T) { return T(u | z); }); a |= a[long(p)]; }
         if(how == 3) { fill([&](T u, T) { return T(u ^ z); }); a ^= a[long(p)]; }
         if(how == 4) { fill([&](T u, T) { return T(u << z); }); a <<= a[long(p)]; }
         if(how == 5) { fill([&](T u, T) { return T(u >> z); }); a >>= a[long(p)]; }
      }
      break;
   }
   auto got = vec(a);
   CHECK(eq(got, w), "inplace", "form ", k, ": got ", show(got), " expected ", show(w), " from a=", show(x), " b=", show(y), " s=", show<T>(s));
   auto bb = vec(b);
   CHECK(eq(bb, y), "operand", "form ", k, ": b changed to ", show(bb));
   ev(str("inplace.", k));
   logs("form", k, " n=", n);
   c.note(u64(k) * 10000 + u64(n));
   c.nontrivial = n > 0;
}
template <class T, class A> void inplace2(Case& c, A& a) {
   Rng& r = c.r;
   i64 nr = a.rows().val(), nc = a.cols().val();
   auto x = rmat<T>(r, nr, nc, 0, 9), y = rmat<T>(r, nr, nc, 0, 9), w = x;
   fill2(a, x);
   auto b = mk2<Array2D<T>>(y);
   T s = rnd<T>(r, 1, 5);
   auto q = S<T>(s);
   int k = int(r.below(12));
   auto fill = [&](auto f) { for(size_t i = 0; i < x.d.size(); ++i) w.d[i] = f(T(x.d[i]), T(y.d[i])); };
   i64 i0 = r.in(0, nr - 1), i1 = r.in(0, nr - 1), j0 = r.in(0, nc - 1), j1 = r.in(0, nc - 1);
   switch(k) {
   case 0: fill([&](T u, T v) { return T(T(u * v) + u); }); a = a * b + a; break;
   case 1: fill([&](T u, T v) { return T(u + T(v * u)); }); a += b * a; break;
   case 2: fill([&](T u, T v) { return T(T(u + v) * s); }); a.view1D() = (a.view1D() + b.view1D()) * q; break;
   case 3: fill([&](T u, T v) { return T(v - u); }); a(place::all, place::all) = b - a; break;
   case 4:   // a row from itself and another row
      for(i64 j = 0; j < nc; ++j) w(i0, j) = T(T(x(i0, j) * s) + x(i1, j));
      a.row(long(i0)) = a.row(long(i0)) * q + a.row(long(i1));
      break;
   case 5:
      for(i64 i = 0; i < nr; ++i) w(i, j0) = T(x(i, j0) + T(x(i, j1) * s));
      a.col(long(j0)) += a.col(long(j1)) * q;
      break;
   case 6:
      for(i64 i = 0; i < std::min(nr, nc); ++i) w(i, i) = T(x(i, i) * x(i, i));
      a.diag() *= a.diag();
      break;
   case 7: {   // a block, leaving the rest
      i64 n = r.in(1, nr - i0), m = r.in(1, nc - j0);
      for(i64 i = 0; i < n; ++i)
         for(i64 j = 0; j < m; ++j) w(i0 + i, j0 + j) = T(T(x(i0 + i, j0 + j) + y(i, j)) * x(i0 + i, j0 + j));
      auto t = a.blockN(long(i0), long(j0), long(n), long(m));
      t = (t + b.blockN(0, 0, long(n), long(m))) * t;
      break;
   }
   case 8: fill([&](T u, T) { return T(T(u + u) * u); }); a = (a + a) * a; break;
   case 9:   // rows permuted on both sides
      fill([&](T u, T v) { return T(T(u + v) + u); });
      a(place::reverse, place::reverse) = a(place::reverse, place::reverse) + b(place::reverse, place::reverse) + a(place::reverse, place::reverse);
      break;
   case 10: fill([&](T u, T v) { return u < v ? v : u; }); a = generate(a, b, [](auto u, auto v) { return u < v ? v : u; }); break;
   case 11: {
      T z = x(i0, j0);
      int how = int(r.below(4));
      logs("element ", i0, ",", j0, " operation ", how);
      if(how == 0) { fill([&](T u, T) { return T(u * z); }); a *= a(long(i0), long(j0)); }
      if(how == 1) { fill([&](T u, T) { return T(u - z); }); a -= a(long(i0), long(j0)); }
      if(how == 2) { fill([&](T, T) { return z; }); a = a(long(i0), long(j0)); }
      if(how == 3 && z != T(0)) { fill([&](T u, T) { return T(u / z); }); a /= a(long(i0), long(j0)); }
      break;
   }
   }
   auto got = mat(a);
   CHECK(eq(got, w), "inplace2", "form ", k, ": got ", show(got), " expected ", show(w), " from a=", show(x), " b=", show(y), " s=", show<T>(s));
   ev(str("inplace2.", k));
   logs("2D form", k, " ", nr, "x", nc);
   c.note(u64(k) * 10000 + u64(nr * 64 + nc));
   c.nontrivial = true;
}

// ---- every kind of lazy object: single elements read before and after single writes to the operands
template <class T> struct Ops {
   Array1D<T> A, B;
   Array2D<T> M, N;
};
template <class T, class F> void follow(Case& c, const char* name, Ops<T>& o, F make) {
   Rng& r = c.r;
   const auto e = make(o);
   i64 n = sz(e);
   i64 at = n ? r.in(0, n - 1) : 0;
   auto one = [&](const auto& x, i64 i) {
      if constexpr(std::remove_cvref_t<decltype(x)>::dimension().val() == 1) return x[long(i)].val();
      else return x(long(i / x.cols().val()), long(i % x.cols().val())).val();
   };
   for(int step = 0; step < 6 && n; ++step) {
      Ops<T> now(o);   // the same expression of copies, made for this evaluation
      auto w = one(make(now), at);
      auto g = one(e, at), g2 = e.un(long(at)).val();
      CHECK(same(g, w) && same(g2, w), "stale", name, ": element ", at, " of ", n, " read in step ", step, " is ", g, " and ", g2, ", expected ", w);
      // one write: often to whatever the element depends on
      T z = rnd<T>(r, 0, 9);
      for(int k = 0; k < 3; ++k) {
         int t = int(r.below(4));
         auto& d = t == 0 ? o.A : o.B;
         auto& m = t == 2 ? o.M : o.N;
         if(t < 2) d.un(long(r.in(0, sz(d) - 1))) = S<T>(z);
         else m.un(long(r.in(0, sz(m) - 1))) = S<T>(z);
         if(r.chance(30)) break;
      }
      if(r.chance(10)) o.M = S<T>(z);
      if(r.chance(10)) o.A += S<T>(T(1));
      if(r.chance(25)) at = r.in(0, n - 1);
   }
   auto now = o;
   CHECK(eq(vec(e), vec(make(now))), "stale", name, ": all elements at the end");
   ev(str("follow.", name));
}
template <class T> void every(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(2, 9), p = r.in(2, 5);
   auto va = rvec<T>(r, n, 0, 9), vb = rvec<T>(r, n, 0, 9);
   auto vm = rmat<T>(r, p, n, 0, 9), vn = rmat<T>(r, p, n, 0, 9);
   Ops<T> o{mk1<Array1D<T>>(va), mk1<Array1D<T>>(vb), mk2<Array2D<T>>(vm), mk2<Array2D<T>>(vn)};
   auto s = S<T>(rnd<T>(r, 1, 5));
#define FOLLOW(name, ...) follow<T>(c, name, o, [&](Ops<T>& x) { return __VA_ARGS__; });
   FOLLOW("unary", generate(x.A, [s](auto z) { return z * s; }))
   FOLLOW("binary", x.A * x.B + s)
   FOLLOW("binary 2D", (x.M + x.N) * s)
   FOLLOW("comparison", generate(x.A, x.B, [](auto u, auto v) { return u < v ? One<T> : Zero<T>; }))
   FOLLOW("cast", array_cast<double>(x.A))
   FOLLOW("row_reduce", row_reduce(x.M, [](auto const& z) { return sum(z); }))
   FOLLOW("col_reduce", col_reduce(x.M, [](auto const& z) { return max(z); }))
   FOLLOW("row_reduce of expression", row_reduce(x.M + x.N, [](auto const& z) { return sum(z); }))
   FOLLOW("matvec", matvec_prod(x.M, x.A))
   FOLLOW("tensor", tensor_prod(x.A, x.B))
   FOLLOW("row_broadcast", row_broadcast(x.A))
   FOLLOW("col_broadcast", col_broadcast(x.B))
   FOLLOW("transpose", transpose(x.M))
   FOLLOW("transpose of expression", transpose(x.M + x.N))
   FOLLOW("merge", merge(x.A, x.B))
   FOLLOW("merge 3", merge(x.A, x.B, x.A))
   FOLLOW("merge scalar", merge(s, x.A))
   FOLLOW("merge scalar behind", merge(x.A, s))
   FOLLOW("merge_horizontal", merge_horizontal(x.M, x.N))
   FOLLOW("merge_vertical", merge_vertical(x.M, x.N))
   FOLLOW("exclude", exclude(x.A, 1))
   FOLLOW("slice", x.A(place::reverse))
   FOLLOW("list", x.A({1, 0, 1}))
   FOLLOW("slice of expression", (x.A + x.B)(place::even))
   FOLLOW("slice 2D", x.M(place::reverse, place::even))
   FOLLOW("row", x.M.row(1))
   FOLLOW("col", x.M.col(last))
   FOLLOW("row of expression", (x.M + x.N).row(0))
   FOLLOW("diag", x.M.diag())
   FOLLOW("view1D", x.M.view1D())
   FOLLOW("view2D", x.A.view2D(1, x.A.size()))
   if constexpr(std::is_signed_v<T>) FOLLOW("minus", -x.A)
   if constexpr(std::is_floating_point_v<T>) {
      FOLLOW("two_prod", two_prod(x.A, x.B).second)
      FOLLOW("pow", pow(x.A, S<T>(T(2))))
      FOLLOW("fast_pow_int", fast_pow_int(x.A, 3))
   }
   c.note(u64(n * 16 + p));
   c.note(c.id);
   c.nontrivial = true;
}

template <class T> void kind(Case& c) {
   Rng& r = c.r;
   if(r.chance(6)) return every<T>(c);
   int w = int(r.below(12));
   i64 n = r.chance(4) ? r.in(500, 3000) : rsize(r);
   auto x = rvec<T>(r, n, 0, 9), y = rvec<T>(r, n, 0, 9);
   if(w == 0) {
      auto a = mk1<Array1D<T>>(x), b = mk1<Array1D<T>>(y);
      lazy<T>(c, a, b, x, y);
   } else if(w == 1) {
      n = 7;
      x = rvec<T>(r, n, 0, 9), y = rvec<T>(r, n, 0, 9);
      FixedArray1D<T, 7> a, b;
      fill1(a, x);
      fill1(b, y);
      lazy<T>(c, a, b, x, y);
   } else if(w == 2) {   // operands that are slices of one array
      V<T> z;
      for(i64 i = 0; i < n; ++i) z.push_back(x[size_t(i)]), z.push_back(y[size_t(i)]);
      auto base = mk1<Array1D<T>>(z);
      auto a = base(seqN{0, long(n), 2}), b = base(seqN{n ? 1 : 0, long(n), 2});
      lazy<T>(c, a, b, x, y);
      ev("lazy.interleaved");
   } else {
      int k = int(r.below(25));
      switch(w) {
      case 3: case 4: { auto a = mk1<Array1D<T>>(x), b = mk1<Array1D<T>>(y); inplace<T>(c, a, b, x, y, k); break; }
      case 5: { auto a = mk1<Array1D<T, Aligned>>(x), b = mk1<Array1D<T, Aligned>>(y); inplace<T>(c, a, b, x, y, k); break; }
      case 6: {   // interleaved elements of one array: neighbours must keep their values
         V<T> z;
         for(i64 i = 0; i < n; ++i) z.push_back(x[size_t(i)]), z.push_back(y[size_t(i)]);
         auto base = mk1<Array1D<T>>(z);
         auto a = base(seqN{0, long(n), 2}), b = base(seqN{n ? 1 : 0, long(n), 2});
         inplace<T>(c, a, b, x, y, k);
         ev("inplace.interleaved");
         break;
      }
      case 7: {
         x = rvec<T>(r, 13, 0, 9), y = rvec<T>(r, 13, 0, 9);
         FixedArray1D<T, 13> a, b;
         fill1(a, x);
         fill1(b, y);
         inplace<T>(c, a, b, x, y, k);
         ev("inplace.fixed");
         break;
      }
      case 8: {
         x = rvec<T>(r, 64, 0, 9), y = rvec<T>(r, 64, 0, 9);
         FixedArray1D<T, 64, Aligned> a;
         fill1(a, x);
         auto b = mk1<Array1D<T>>(y);
         inplace<T>(c, a, b, x, y, k);
         ev("inplace.fixed");
         break;
      }
      case 9: { Array2D<T> a(1L * r.in(1, 9), 1L * r.in(1, 40)); inplace2<T>(c, a); break; }
      case 10: { FixedArray2D<T, 5, 8> a; inplace2<T>(c, a); break; }
      case 11: {   // a block of a larger matrix
         Array2D<T> base(1L * r.in(3, 12), 1L * r.in(3, 12));
         base = S<T>(T(99));
         auto a = base.block(1, 1, last - 1, last - 1);
         inplace2<T>(c, a);
         for(i64 i = 0; i < base.cols().val(); ++i) CHECK(base(0, long(i)).val() == T(99) && base(last, long(i)).val() == T(99), "outside", "frame of the block changed");
         for(i64 i = 0; i < base.rows().val(); ++i) CHECK(base(long(i), 0).val() == T(99) && base(long(i), last).val() == T(99), "outside", "frame of the block changed");
         ev("inplace.block");
         break;
      }
      }
   }
}

int main(int argc, char** argv) {
   return run(argc, argv, [](Case& c) {
      dispatch<4>(c, []<int K>(Case& c) {
         if constexpr(K == 0) kind<int>(c);
         if constexpr(K == 1) kind<double>(c);
         if constexpr(K == 2) kind<float>(c);
         if constexpr(K == 3) kind<long>(c);
      });
   });
}
