// WHAT=1 (P07), 2 (P08), 3 (P12), 4 (P02): objects with more elements than fit in 32 bits, up to 2^63-1.
// Nothing of that size is stored: expressions compute their elements, and attached memory is a sparse mapping.
#include "hostile.hpp"
#include <map>
#include <sys/mman.h>
using namespace h;
using namespace spp;

#ifndef WHAT
#define WHAT 1
#endif

// What an element is: a key (its place in the ground), and the value of a key.
struct Ground {
   std::function<i64(i64)> value;
   int* raw = nullptr;            // sparse storage, when it is one
   std::map<i64, int> stored;
};
using Key1 = std::function<i64(i64)>;
using Key2 = std::function<i64(i64, i64)>;

// A place in [0, n): the ends, powers of two and their neighbours, anywhere.
i64 place_in(Rng& r, i64 n) {
   int k = int(r.below(10));
   i64 x;
   switch(k) {
   case 0: return 0;
   case 1: return n - 1;
   case 2: x = (i64(1) << 31) + r.in(-2, 2); break;
   case 3: x = (i64(1) << 32) + r.in(-2, 2); break;
   case 4: x = (i64(1) << r.in(33, 62)) + r.in(-2, 2); break;
   case 5: x = r.in(0, 10); break;
   case 6: x = n - 1 - r.in(0, 10); break;
   default: x = r.in(0, n - 1);
   }
   return x >= 0 && x < n ? x : r.in(0, n - 1);
}
i64 big(Rng& r, int lo = 31, int hi = 62) {
   int k = int(r.in(lo, hi));
   return r.chance(50) ? (i64(1) << k) + r.in(-3, 3) : r.in(i64(1) << (k - 1), i64(1) << k);
}

template <class F> i64 val(F f) { return i64(f().val()); }

template <class A> constexpr bool writable = requires(A& a) { a.un(0L) = a.un(0L); };

template <class A> void check1(Case& c, Ground& g, A& a, i64 n, const Key1& key, const char* what) {
   Rng& r = c.r;
   CHECK(a.size().val() == n && sz(std::as_const(a)) == n && bool(a.empty()) == (n == 0), "huge.size", what, ": size ", a.size().val(), " expected ", n);
   ev("huge1");
   if(n == 0) return;
   CHECK(a.size_m1().val() == n - 1, "huge.size", what, ": size_m1");
   auto is = [&](i64 k, i64 got, const char* how) {
      i64 want = g.value(key(k));
      CHECK(got == want, "huge.element", what, ": element ", k, " of ", n, " by ", how, " is ", got, " expected ", want);
   };
   for(int t = 0; t < 4; ++t) {
      i64 k = place_in(r, n);
      is(k, val([&] { return a[long(k)]; }), "[]");
      is(k, val([&] { return std::as_const(a).un(long(k)); }), "un");
      is(k, val([&] { return a.at(Strict<long>{long(k)}); }), "at");
      is(k, val([&] { return a[last - long(n - 1 - k)]; }), "last");
      is(k, val([&] { return *(a.begin() + long(k)); }), "begin+k");
      is(k, val([&] { return *(std::as_const(a).end() - long(n - k)); }), "end-k");
      is(k, val([&] { return a.begin()[long(k)]; }), "it[]");
      is(k, val([&] { return *(a.crbegin() + long(n - 1 - k)); }), "crbegin+k");
   }
   CHECK(a.end() - a.begin() == n && a.cend() - a.cbegin() == n && a.begin() - a.end() == -n, "huge.iterators", what, ": distance");
   {
      i64 k = place_in(r, n), l = place_in(r, n);
      auto i = a.begin() + long(k), j = a.begin() + long(l);
      CHECK((i < j) == (k < l) && (i == j) == (k == l) && j - i == l - k, "huge.iterators", what, ": order of ", k, " and ", l);
      i += long(l - k);
      CHECK(i == j, "huge.iterators", what, ": += ", l - k);
   }
   for(i64 bad : {n == MAXL ? MINL : n, i64(-1), MINL, n <= (i64(1) << 62) ? n + (i64(1) << 32) : i64(-2)}) {
      CHECK(throws([&] { (void)a.at(long(bad)); }) && throws([&] { (void)a[long(bad)]; }), "huge.range", what, ": index ", bad, " of ", n, " accepted");
   }
   if constexpr(writable<A>) {
      if(g.raw) {
         for(int t = 0; t < 3; ++t) {
            i64 k = place_in(r, n);
            int x = int(r.in(-1000, 1000));
            switch(r.below(3)) {
            case 0: a[long(k)] = Strict<int>{x}; break;
            case 1: a.un(long(k)) = Strict<int>{x}; break;
            default: *(a.begin() + long(k)) = Strict<int>{x};
            }
            g.stored[key(k)] = x;
            CHECK(g.raw[key(k)] == x, "huge.write", what, ": writing element ", k, " of ", n, " did not change place ", key(k));
            ev("huge.write");
         }
         for(auto& [k, x] : g.stored) CHECK(g.raw[k] == x, "huge.write", what, ": place ", k, " is ", g.raw[k], " expected ", x);
      }
   }
}

// Linear selections and index lists of an extent n: f(selection, count, place -> place, name).
template <int Which, class F> void lin(Rng& r, i64 n, F f) {
   auto affine = [](i64 s, i64 st) { return [=](i64 k) { return s + k * st; }; };
   if constexpr(Which == 0) {
      i64 s = place_in(r, n);
      i64 most, st = r.pick({i64(1), i64(1), i64(2), i64(-1), i64(-3), i64(1) << 20, i64(1) << 33, -(i64(1) << 32), i64(0)});
      most = st == 0 ? big(r) : st > 0 ? (n - 1 - s) / st + 1 : s / -st + 1;
      i64 cnt = r.pick({most, most, most, most / 2, i64(0)});
      f(seqN{long(s), long(cnt), long(st)}, cnt, affine(s, st), str("seqN(", s, ",", cnt, ",", st, ")"));
   } else if constexpr(Which == 1) {
      i64 a = place_in(r, n), b = place_in(r, n);
      i64 st = r.pick({i64(1), i64(2), i64(7), (i64(1) << 31) + 1});
      if(a > b) st = -st;
      f(seq{First{long(a)}, Endmost{long(b)}, Stride{long(st)}}, (b - a) / st + 1, affine(a, st), str("seq(", a, ",", b, ",", st, ")"));
   } else if constexpr(Which == 2) {
      f(place::all, n, affine(0, 1), "all");
   } else if constexpr(Which == 3) {
      f(place::even, n / 2 + n % 2, affine(0, 2), "even");
   } else if constexpr(Which == 4) {
      f(place::odd, n / 2, affine(1, 2), "odd");
   } else if constexpr(Which == 5) {
      f(place::reverse, n, affine(n - 1, -1), "reverse");
   } else if constexpr(Which == 6) {
      i64 s = r.pick({i64(1), i64(2), i64(3), (i64(1) << 32) + 1, MAXL, n, n - 1 > 0 ? n - 1 : 1});
      f(place::skipN{long(s)}, (n - 1) / s + 1, affine(0, s), str("skipN(", s, ")"));
   } else if constexpr(Which == 7) {
      i64 k = r.chance(80) ? place_in(r, n) + 1 : 0;
      f(place::firstN{long(k)}, k, affine(0, 1), str("firstN(", k, ")"));
   } else if constexpr(Which == 8) {
      i64 k = r.chance(80) ? place_in(r, n) + 1 : 0;
      f(place::lastN{long(k)}, k, affine(n - k, 1), str("lastN(", k, ")"));
   } else {
      Idx v;
      i64 cnt = r.in(0, 6);
      for(i64 i = 0; i < cnt; ++i) v.push_back(place_in(r, n));
      f(implicit(v), cnt, [v](i64 k) { return v[size_t(k)]; }, str("list", show(v)));
   }
}
template <class F> void any_lin(Rng& r, i64 n, F f) {
   switch(r.below(10)) {
   case 0: return lin<0>(r, n, f);
   case 1: return lin<1>(r, n, f);
   case 2: return lin<2>(r, n, f);
   case 3: return lin<3>(r, n, f);
   case 4: return lin<4>(r, n, f);
   case 5: return lin<5>(r, n, f);
   case 6: return lin<6>(r, n, f);
   case 7: return lin<7>(r, n, f);
   case 8: return lin<8>(r, n, f);
   default: return lin<9>(r, n, f);
   }
}

template <int D, class A> void descend1(Case& c, Ground& g, A& a, i64 n, const Key1& key) {
   if(n == 0) return;
   any_lin(c.r, n, [&](auto sl, i64 m, auto map, const std::string& text) {
      logs(text);
      ev("huge." + text.substr(0, text.find_first_of("([")));
      Key1 k2 = [&key, map](i64 k) { return key(map(k)); };
      auto next = [&](auto&& s, const char* what) {
         check1(c, g, s, m, k2, what);
         if constexpr(D > 1) descend1<D - 1>(c, g, s, m, k2);
      };
      if(c.r.chance(40)) {
         auto s = std::as_const(a)(sl);
         next(s, "const slice");
      } else {
         auto s = a(sl);
         next(s, "slice");
      }
   });
}

template <class A> void check2(Case& c, Ground& g, A& a, i64 nr, i64 nc, const Key2& key, const char* what) {
   Rng& r = c.r;
   CHECK(a.rows().val() == nr && a.cols().val() == nc && a.size().val() == nr * nc, "huge2.shape", what, ": ", a.rows().val(), "x", a.cols().val(), " of ",
         a.size().val(), " expected ", nr, "x", nc);
   ev("huge2");
   if(nr == 0) return;
   i64 n = nr * nc;
   auto is = [&](i64 i, i64 j, i64 got, const char* how) {
      i64 want = g.value(key(i, j));
      CHECK(got == want, "huge2.element", what, ": element ", i, ",", j, " of ", nr, "x", nc, " by ", how, " is ", got, " expected ", want);
   };
   for(int t = 0; t < 4; ++t) {
      i64 i = place_in(r, nr), j = place_in(r, nc);
      if(t >= 2) {
         i64 k = place_in(r, n);
         i = k / nc;
         j = k % nc;
      }
      is(i, j, val([&] { return a(long(i), long(j)); }), "()");
      is(i, j, val([&] { return a.un(long(i), long(j)); }), "un(i,j)");
      is(i, j, val([&] { return std::as_const(a).un(long(i * nc + j)); }), "un(k)");
      is(i, j, val([&] { return a.at(last - long(nr - 1 - i), long(j)); }), "at");
      is(i, j, val([&] { return *(a.begin() + long(i * nc + j)); }), "begin+k");
      is(i, j, val([&] { return a.view1D()[long(i * nc + j)]; }), "view1D");
      auto row = a.row(long(i));
      auto col = a.col(last - long(nc - 1 - j));
      CHECK(row.size().val() == nc && col.size().val() == nr, "huge2.shape", what, ": row or column size ", row.size().val(), " ", col.size().val());
      is(i, j, val([&] { return row[long(j)]; }), "row");
      is(i, j, val([&] { return col[long(i)]; }), "col");
      i64 d = j - i, len = d >= 0 ? std::min(nr, nc - d) : std::min(nr + d, nc);
      auto diag = a.diag(long(d));
      CHECK(diag.size().val() == len, "huge2.shape", what, ": diagonal ", d, " of ", nr, "x", nc, " has ", diag.size().val(), " expected ", len);
      is(i, j, val([&] { return diag[long(std::min(i, j))]; }), "diag");
      i64 q = place_in(r, len);
      is(q + (d < 0 ? -d : 0), q + (d > 0 ? d : 0), val([&] { return diag[long(q)]; }), "diag");
   }
   CHECK(a.end() - a.begin() == n, "huge2.iterators", what, ": distance");
   auto bad = [&](i64 i, i64 j) {
      CHECK(throws([&] { (void)a.at(long(i), long(j)); }) && throws([&] { (void)a(long(i), long(j)); }), "huge2.range", what, ": ", i, ",", j, " of ", nr, "x", nc, " accepted");
   };
   bad(nr, 0);
   bad(0, nc);
   bad(i64(1) << 32 > nr ? i64(1) << 32 : nr, 0);
   bad(-(i64(1) << 32), 0);
   bad(0, -1);
   if constexpr(writable<A>) {
      if(g.raw) {
         for(int t = 0; t < 3; ++t) {
            i64 i = place_in(r, nr), j = place_in(r, nc);
            int x = int(r.in(-1000, 1000));
            switch(r.below(5)) {
            case 0: a(long(i), long(j)) = Strict<int>{x}; break;
            case 1: a.un(long(i * nc + j)) = Strict<int>{x}; break;
            case 2: a.row(long(i))[long(j)] = Strict<int>{x}; break;
            case 3: a.col(long(j))[long(i)] = Strict<int>{x}; break;
            default: a.view1D()[long(i * nc + j)] = Strict<int>{x};
            }
            g.stored[key(i, j)] = x;
            CHECK(g.raw[key(i, j)] == x, "huge2.write", what, ": writing element ", i, ",", j, " of ", nr, "x", nc, " did not change place ", key(i, j));
            ev("huge.write");
         }
         for(auto& [k, x] : g.stored) CHECK(g.raw[k] == x, "huge2.write", what, ": place ", k, " is ", g.raw[k], " expected ", x);
      }
   }
}

template <int D, class A> void descend2(Case& c, Ground& g, A& a, i64 nr, i64 nc, const Key2& key) {
   Rng& r = c.r;
   if(nr == 0) return;
   auto next = [&](auto&& s, i64 mr, i64 mc, Key2 k2, const std::string& text) {
      logs(text);
      if(mr == 0 || mc == 0) mr = mc = 0;
      check2(c, g, s, mr, mc, k2, "selection");
      if constexpr(D > 1) descend2<D - 1>(c, g, s, mr, mc, k2);
   };
   auto fits = [](i64 x, i64 y) { return y == 0 || i128(x) * y <= MAXL; };
   int op = int(r.below(7));
   ev("huge2.op" + std::to_string(op));
   if(op == 0) {
      lin<0>(r, nr, [&](auto sl, i64 m, auto f, const std::string& t) {
         if(!fits(m, nc)) return;
         auto s = a.rows(sl);
         next(s, m, nc, [=, &key](i64 i, i64 j) { return key(f(i), j); }, "rows " + t);
      });
   } else if(op == 1) {
      lin<9>(r, nc, [&](auto sl, i64 m, auto f, const std::string& t) {
         auto s = a.cols(sl);
         next(s, nr, m, [=, &key](i64 i, i64 j) { return key(i, f(j)); }, "cols " + t);
      });
   } else if(op == 2) {
      lin<0>(r, nr, [&](auto s1, i64 m1, auto f1, const std::string& t1) {
         lin<1>(r, nc, [&](auto s2, i64 m2, auto f2, const std::string& t2) {
            if(!fits(m1, m2)) return;
            auto s = std::as_const(a)(s1, s2);
            next(s, m1, m2, [=, &key](i64 i, i64 j) { return key(f1(i), f2(j)); }, t1 + "," + t2);
         });
      });
   } else if(op == 3) {
      lin<6>(r, nr, [&](auto s1, i64 m1, auto f1, const std::string& t1) {
         lin<5>(r, nc, [&](auto s2, i64 m2, auto f2, const std::string& t2) {
            auto s = a(s1, s2);
            next(s, m1, m2, [=, &key](i64 i, i64 j) { return key(f1(i), f2(j)); }, t1 + "," + t2);
         });
      });
   } else if(op == 4) {
      lin<9>(r, nr, [&](auto s1, i64 m1, auto f1, const std::string& t1) {
         lin<8>(r, nc, [&](auto s2, i64 m2, auto f2, const std::string& t2) {
            auto s = a(s1, s2);
            next(s, m1, m2, [=, &key](i64 i, i64 j) { return key(f1(i), f2(j)); }, t1 + "," + t2);
         });
      });
   } else if(op == 5) {
      i64 i0 = place_in(r, nr), i1 = i0 + place_in(r, nr - i0), j0 = place_in(r, nc), j1 = j0 + place_in(r, nc - j0);
      auto s = a.block(long(i0), long(j0), long(i1), long(j1));
      next(s, i1 - i0 + 1, j1 - j0 + 1, [=, &key](i64 i, i64 j) { return key(i0 + i, j0 + j); }, str("block(", i0, ",", j0, ",", i1, ",", j1, ")"));
   } else {
      lin<3>(r, nr, [&](auto s1, i64 m1, auto f1, const std::string& t1) {
         lin<4>(r, nc, [&](auto s2, i64 m2, auto f2, const std::string& t2) {
            auto s = a(s1, s2);
            next(s, m1, m2, [=, &key](i64 i, i64 j) { return key(f1(i), f2(j)); }, t1 + "," + t2);
         });
      });
   }
}

// A sparse mapping of n ints.
struct Sparse {
   i64 n;
   int* p;
   Sparse(i64 k) : n{k} {
      void* q = mmap(nullptr, size_t(n) * sizeof(int), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      p = q == MAP_FAILED ? nullptr : static_cast<int*>(q);
      if(!p) ev("no address space");
   }
   Sparse(const Sparse&) = delete;
   ~Sparse() { if(p) munmap(p, size_t(n) * sizeof(int)); }
};
void over(Ground& g, Sparse& s) {
   g.raw = s.p;
   g.value = [&g](i64 k) { auto f = g.stored.find(k); return f == g.stored.end() ? i64(0) : i64(f->second); };
}
i64 sparse_size(Rng& r) { return r.pick({(i64(1) << 31) + 5, (i64(1) << 32) + 7, i64(1) << 33, r.in(i64(1) << 31, i64(1) << 34)}); }
// A shape of about 2^b elements.
std::pair<i64, i64> shape(Rng& r, int b) {
   int k = int(r.in(0, b));
   if(r.chance(30)) k = r.pick({0, b / 2, b});
   i64 nr = std::max<i64>(1, (i64(1) << k) - r.in(0, 3)), nc = std::max<i64>(1, (i64(1) << (b - k)) - r.in(0, 3));
   return {nr, nc};
}

#if WHAT == 1
void whole1(Case& c) {
   Rng& r = c.r;
   Ground g;
   int kind = int(r.below(4));
   logs("kind ", kind);
   Key1 id = [](i64 k) { return k; };
   if(kind == 0) {
      i64 n = r.chance(15) ? MAXL : big(r);
      g.value = id;
      auto a = sequence<long>(Size{long(n)});
      check1(c, g, a, n, id, "sequence");
      descend1<2>(c, g, a, n, id);
   } else if(kind == 1) {
      i64 n = big(r, 31, 60);
      auto s = sequence<long>(Size{long(n)}, Start{long(5)}, Incr{long(3)});
      auto a = s + s;
      g.value = [](i64 k) { return 10 + 6 * k; };
      check1(c, g, a, n, id, "expression");
      descend1<2>(c, g, a, n, id);
   } else if(kind == 2) {
      Sparse m(sparse_size(r));
      if(!m.p) return;
      over(g, m);
      auto a = attach1D(m.p, long(m.n));
      check1(c, g, a, m.n, id, "attached");
      descend1<2>(c, g, a, m.n, id);
      ev("sparse1");
   } else {
      Sparse m(sparse_size(r));
      if(!m.p) return;
      over(g, m);
      const int* q = m.p;
      auto a = attach1D(q, long(m.n));
      m.p[m.n - 1] = 7, g.stored[m.n - 1] = 7;
      check1(c, g, a, m.n, id, "attached const");
      descend1<1>(c, g, a, m.n, id);
   }
   c.nontrivial = true;
}

#elif WHAT == 2
void whole2(Case& c) {
   Rng& r = c.r;
   Ground g;
   int kind = int(r.below(6));
   logs("kind ", kind);
   ev("huge2.kind" + std::to_string(kind));
   if(kind == 0) {
      auto [nr, nc] = shape(r, int(r.in(31, 62)));
      logs(nr, "x", nc);
      g.value = [](i64 k) { return k; };
      Key2 key = [nc](i64 i, i64 j) { return i * nc + j; };
      auto s = sequence<long>(Size{long(nr * nc)});
      auto a = s.view2D(long(nr), long(nc));
      check2(c, g, a, nr, nc, key, "view of a sequence");
      descend2<1>(c, g, a, nr, nc, key);
   } else if(kind == 1 || kind == 2) {
      i64 n = r.in(66000, 90000);
      Array1D<long> v(long{n});
      for(i64 i = 0; i < n; ++i) v.un(long(i)) = Strict<long>{long(i * 7 + 1)};
      g.value = [](i64 k) { return k * 7 + 1; };
      if(kind == 1) {
         Key2 key = [](i64, i64 j) { return j; };
         auto a = row_broadcast(v);
         check2(c, g, a, n, n, key, "row_broadcast");
         descend2<1>(c, g, a, n, n, key);
      } else {
         Key2 key = [](i64 i, i64) { return i; };
         auto a = col_broadcast(v);
         check2(c, g, a, n, n, key, "col_broadcast");
         descend2<1>(c, g, a, n, n, key);
      }
   } else if(kind == 3) {
      auto [nr, nc] = shape(r, int(r.in(31, 62)));
      logs(nr, "x", nc);
      auto s = sequence<long>(Size{long(nr * nc)});
      auto v = s.view2D(long(nr), long(nc));
      auto a = transpose(v);
      g.value = [](i64 k) { return k; };
      Key2 key = [nc](i64 i, i64 j) { return j * nc + i; };
      check2(c, g, a, nc, nr, key, "transpose");
      descend2<1>(c, g, a, nc, nr, key);
   } else {
      auto [nr, nc] = shape(r, int(r.in(31, 34)));
      logs(nr, "x", nc);
      Sparse m(nr * nc);
      if(!m.p) return;
      over(g, m);
      Key2 key = [nc](i64 i, i64 j) { return i * nc + j; };
      if(kind == 4) {
         auto a = attach2D(m.p, long(nr), long(nc));
         check2(c, g, a, nr, nc, key, "attached");
         descend2<2>(c, g, a, nr, nc, key);
      } else {
         auto t = attach1D(m.p, long(nr * nc));
         auto a = t.view2D(long(nr), long(nc));
         check2(c, g, a, nr, nc, key, "view of attached");
         descend2<1>(c, g, a, nr, nc, key);
      }
      ev("sparse2");
   }
   c.nontrivial = true;
}

#elif WHAT == 3
void structural(Case& c) {
   Rng& r = c.r;
   Ground g;
   g.value = [](i64 k) { return k; };
   Key1 id = [](i64 k) { return k; };
   int op = int(r.below(12));
   logs("op ", op);
   ev("huge.structural" + std::to_string(op));
   c.nontrivial = true;
   auto from = [](i64 n, i64 start) { return sequence<long>(Size{long(n)}, Start{long(start)}, Incr{1L}); };
   if(op == 0) {
      i64 n = big(r, 31, 61), m = r.chance(50) ? big(r, 31, 61) : r.in(0, 5), k = r.in(0, 5);
      auto a = from(n, 0), b = from(m, n), d = from(k, n + m);
      auto s = merge(a, b, d);
      check1(c, g, s, n + m + k, id, "merge");
      auto t = merge(d, a);
      check1(c, g, t, k + n, [=](i64 i) { return i < k ? n + m + i : i - k; }, "merge");
   } else if(op == 1) {
      i64 n = big(r);
      auto a = from(n, 0);
      Strict<long> x{-1L}, y{-2L};
      auto s = merge(a, x, y);
      check1(c, g, s, n + 2, [=](i64 i) { return i < n ? i : n - 1 - i; }, "merge(a,x,y)");
      auto t = merge(x, y, a);
      check1(c, g, t, n + 2, [=](i64 i) { return i < 2 ? -1 - i : i - 2; }, "merge(x,y,a)");
   } else if(op == 2) {
      i64 n = big(r), pos = place_in(r, n), cnt = 1 + place_in(r, n - pos);
      auto a = from(n, 0);
      auto s = exclude(a, long(pos), long(cnt));
      check1(c, g, s, n - cnt, [=](i64 i) { return i < pos ? i : i + cnt; }, "exclude");
      auto t = exclude(a, last - long(n - 1 - pos));
      check1(c, g, t, n - 1, [=](i64 i) { return i < pos ? i : i + 1; }, "exclude last-k");
   } else if(op == 3) {
      i64 n = big(r, 31, 50);
      auto a = linspace<double>(Size{long(n)}, Start{0.0}, End{double(n - 1)});   // the increment is exactly 1
      check1(c, g, a, n, id, "linspace");
      auto b = linspace<double>(Size{long(n)}, Start{1.0}, End{1.0 + 4 * double(n - 1)});
      g.value = [](i64 k) { return 1 + 4 * k; };
      check1(c, g, b, n, id, "linspace");
   } else if(op == 4) {
      i64 n = big(r), k = place_in(r, n);
      auto a = e_unit<int>(Index{long(k)}, Size{long(n)});
      g.value = [=](i64 i) { return i64(i == k); };
      check1(c, g, a, n, id, "e_unit");
      CHECK(a[long(k)].val() == 1, "huge.element", "e_unit(", k, ",", n, ")");
   } else if(op == 5) {
      i64 n = r.in(i64(1) << 20, 3037000499);
      auto a = identity<int>(long(n));
      g.value = [](i64 k) { return k; };
      check2(c, g, a, n, n, [](i64 i, i64 j) { return i64(i == j); }, "identity");
   } else if(op == 6) {
      auto [nr, nc] = shape(r, int(r.in(31, 60)));
      auto [xr, xc] = shape(r, int(r.in(0, 1)));
      i64 nc2 = r.chance(50) ? nc : r.in(1, 5);
      (void)xr; (void)xc;
      auto s = from(nr * nc, 0), t = from(nr * nc2, nr * nc);
      auto a = s.view2D(long(nr), long(nc)), b = t.view2D(long(nr), long(nc2));
      auto m = merge_horizontal(a, b);
      check2(c, g, m, nr, nc + nc2, [=](i64 i, i64 j) { return j < nc ? i * nc + j : nr * nc + i * nc2 + j - nc; }, "merge_horizontal");
   } else if(op == 7) {
      auto [nr, nc] = shape(r, int(r.in(31, 60)));
      i64 nr2 = r.chance(50) ? nr : r.in(1, 5);
      if(i128(nr2) * nc > (i64(1) << 60)) nr2 = 1;
      auto s = from(nr * nc, 0), t = from(nr2 * nc, nr * nc);
      auto a = s.view2D(long(nr), long(nc)), b = t.view2D(long(nr2), long(nc));
      auto m = merge_vertical(a, b);
      check2(c, g, m, nr + nr2, nc, [=](i64 i, i64 j) { return i * nc + j; }, "merge_vertical");
   } else if(op == 8) {
      i64 n = big(r);
      auto a = const1D(Size{long(n)}, Value{9L});
      g.value = [](i64) { return i64(9); };
      check1(c, g, a, n, id, "const1D");
      auto [nr, nc] = shape(r, int(r.in(31, 62)));
      auto b = const2D(Rows{long(nr)}, Cols{long(nc)}, Value{9});
      check2(c, g, b, nr, nc, [](i64, i64) { return i64(0); }, "const2D");
      g.value = id;
      auto e = irange(a);
      check1(c, g, e, n, id, "irange");
      auto f = irange_m1(a);
      check1(c, g, f, n - 1, id, "irange_m1");
      auto p = irange_row(b), q = irange_col_m1(b);
      check1(c, g, p, nr, id, "irange_row");
      check1(c, g, q, nc - 1, id, "irange_col_m1");
   } else if(op == 9) {
      i64 n = big(r, 31, 58);
      auto s = from(3 * n, 0);
      auto a = s.view2D(3L, long(n));
      auto sums = col_reduce(a, [](auto col) { return col[0] + col[1] * Strict<long>{0L} + col[2]; });
      g.value = [n](i64 k) { return 2 * n + 2 * k; };
      check1(c, g, sums, n, id, "col_reduce");
      auto t = s.view2D(long(n), 3L);
      auto rows = row_reduce(t, [](auto row) { return row[2] - row[0] + row[1]; });
      g.value = [](i64 k) { return 3 * k + 3; };
      check1(c, g, rows, n, id, "row_reduce");
   } else if(op == 10) {
      i64 n = r.in(i64(1) << 16, i64(1) << 31), m = r.in(i64(1) << 16, (i64(1) << 31) - 1);
      auto x = from(n, 1), y = from(m, 2);
      auto a = tensor_prod(x, y);
      check2(c, g, a, n, m, [](i64 i, i64 j) { return (i + 1) * (j + 2); }, "tensor_prod");
      auto b = row_broadcast(x);
      check2(c, g, b, n, n, [](i64, i64 j) { return j + 1; }, "row_broadcast");
      auto d = col_broadcast(x);
      check2(c, g, d, n, n, [](i64 i, i64) { return i + 1; }, "col_broadcast");
   } else {
      i64 n = big(r, 31, 60);
      auto s = from(4 * n, 0);
      auto a = s.view2D(long(n), 4L);
      auto x = sequence<long>(Size{4L}, Start{1L}, Incr{0L});
      auto p = matvec_prod(a, x);
      Ground w;
      w.value = [](i64 k) { return 16 * k + 6; };
      if(n < (i64(1) << 58)) check1(c, w, p, n, id, "matvec_prod");
   }
}

#else
// Shapes whose number of elements is representable or just not.
void limits(Case& c) {
   Rng& r = c.r;
   c.nontrivial = true;
   int b = int(r.in(1, 62));
   i64 nr = i64(1) << b, nc = MAXL / nr;
   int k = int(r.below(4));
   if(k == 0) nr += r.in(-2, 2);
   if(k == 1) nc += r.in(0, 2);
   if(k == 2) nr = big(r, 20, 45), nc = big(r, 20, 45);
   if(nr < 1 || nc < 1) nr = nc = 1;
   bool ok = i128(nr) * nc <= MAXL;
   int op = int(r.below(9));
   ev(std::string(ok ? "ok" : "bad") + " huge.op" + std::to_string(op));
   logs("op ", op, " ", nr, "x", nc);
   auto expected = [&](bool want, auto f, const char* what) {
      bool t = throws(f);
      CHECK(t == !want, want ? "huge.valid-rejected" : "huge.invalid-accepted", what, " ", nr, "x", nc, want ? " rejected" : " accepted");
   };
   if(op == 0) expected(ok, [&] { auto a = const2D(Rows{long(nr)}, Cols{long(nc)}, Value{1}); (void)a.size(); }, "const2D");
   if(op == 1) {
      auto one = const2D(1, 1, 1_si);
      expected(ok, [&] { auto a = one(seqN{0, long(nr), 0}, seqN{0, long(nc), 0}); (void)a.size(); }, "selection");
      expected(ok, [&] { auto a = std::as_const(one).rows(seqN{0, long(nr), 0}); auto b = a.cols(seqN{0, long(nc), 0}); (void)b.size(); }, "rows.cols");
   }
   if(op == 2) {
      Array2D<int> one(1, 1);
      expected(ok, [&] { auto a = one(seqN{0, long(nr), 0}, seqN{0, long(nc), 0}); (void)a.size(); }, "selection of an array");
   }
   if(op == 3) expected(i128(nr) * nr <= MAXL, [&] { auto a = identity<int>(long(nr)); (void)a.size(); }, "identity rows");
   if(op == 4) {
      auto x = const1D(Size{long(nr)}, Value{1}), y = const1D(Size{long(nc)}, Value{2});
      expected(ok, [&] { auto a = tensor_prod(x, y); (void)a.size(); }, "tensor_prod");
      expected(i128(nr) * nr <= MAXL, [&] { auto a = row_broadcast(x); (void)a.size(); }, "row_broadcast rows");
      expected(i128(nc) * nc <= MAXL, [&] { auto a = col_broadcast(y); (void)a.size(); }, "col_broadcast cols");
   }
   if(op == 5 && ok) {
      auto x = const1D(Size{long(nr * nc)}, Value{1});
      i64 dr = nr + r.in(-1, 1), dc = nc + r.in(-1, 1);
      bool good = dr > 0 && dc > 0 && i128(dr) * dc == i128(nr) * nc;
      bool t = throws([&] { auto a = x.view2D(long(dr), long(dc)); (void)a.size(); });
      CHECK(t == !good, good ? "huge.valid-rejected" : "huge.invalid-accepted", "view2D(", dr, ",", dc, ") of ", nr * nc, good ? " rejected" : " accepted");
   }
   if(op == 6 && ok && nr < MAXL / 2) {
      auto x = const2D(Rows{long(nr)}, Cols{long(nc)}, Value{1});
      expected(i128(nr) * 2 * nc <= MAXL, [&] { auto a = merge_vertical(x, x); (void)a.size(); }, "merge_vertical of two");
   }
   if(op == 7 && ok && nc < MAXL / 2) {
      auto x = const2D(Rows{long(nr)}, Cols{long(nc)}, Value{1});
      expected(i128(nr) * 2 * nc <= MAXL, [&] { auto a = merge_horizontal(x, x); (void)a.size(); }, "merge_horizontal of two");
   }
   if(op == 8) {
      i64 n = big(r, 31, 59);
      auto a = sequence<long>(Size{long(n)});
      auto e = [&](bool want, auto f, const std::string& what) {
         bool t = throws(f);
         CHECK(t == !want, want ? "huge.valid-rejected" : "huge.invalid-accepted", what, " of ", n, want ? " rejected" : " accepted");
      };
      i64 i = near(r, n);
      e(inside(i, n), [&] { (void)a[long(i)]; }, str("[", i, "]"));
      e(inside(i, n), [&] { (void)a.at(long(i)); }, str("at ", i));
      auto one = [&](auto make, bool good, i64, const std::string& text) {
         e(good, [&] { auto s = a(make()); (void)s.size(); }, text);
      };
      switch(r.below(5)) {
      case 0: selection<0>(r, n, one); break;
      case 1: selection<1>(r, n, one); break;
      case 2: selection<2>(r, n, one); break;
      case 3: selection<3>(r, n, one); break;
      default: selection<4>(r, n, one);
      }
   }
}
#endif

int main(int argc, char** argv) {
   return run(argc, argv, [](Case& c) {
#if WHAT == 1
      whole1(c);
#elif WHAT == 2
      whole2(c);
#elif WHAT == 3
      structural(c);
#else
      limits(c);
#endif
   });
}
