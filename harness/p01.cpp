// P01: long histories of accepted and rejected calls on a small population of arrays, of all kinds, with the slices, views,
// iterators and expressions made of them. The oracles are the sanitizers and the leak check; apart from them every object
// has to be readable, writable and coherent after every call, whether it was accepted or rejected.
#include "hostile.hpp"
#include <algorithm>
#include <memory>
#include <numeric>
#include <sstream>
using namespace h;
using namespace spp;

template <class T> constexpr bool NUM = !std::is_same_v<T, bool>;
template <class T> constexpr bool FL = !std::is_integral_v<T>;
template <class T> constexpr bool INTEGRAL = std::is_integral_v<T> && NUM<T>;

u64 sum_of = 0;
template <class T> void take(T x) {
   if constexpr(std::is_same_v<T, bool>) sum_of += x ? 1 : 2;
   else sum_of += x < T(50) ? 1 : 3;
}
template <class T> void take(Strict<T> x) { take(x.val()); }
// A valid selection that repeats one element can be of any size (in 2D even one that is not representable).
template <class E> bool endless(const E& e) {
   if constexpr(E::dimension().val() == 1) {
      if(sz(e) <= 2000) return false;
      take(e.un(0L)), take(e.un(long(sz(e) - 1)));
   } else {
      i64 p = e.rows().val(), q = e.cols().val();
      if(i128(p) * q <= 2000) return false;
      take(e.un(0L, 0L)), take(e.un(long(p - 1), long(q - 1)));
   }
   ev("enormous selection");
   return true;
}
template <class E> void read_all(const E& e) {
   if(endless(e)) return;
   if constexpr(E::dimension().val() == 1) {
      for(i64 i = 0; i < sz(e); ++i) take(e.un(long(i)));
   } else {
      for(i64 i = 0; i < e.rows().val(); ++i)
         for(i64 j = 0; j < e.cols().val(); ++j) take(e.un(long(i), long(j)));
      for(i64 i = 0; i < sz(e); ++i) take(e.un(long(i)));
   }
}

long accepted = 0, rejected = 0;
// A call that may be accepted or rejected.
template <class F> bool maybe(const char* name, F f) {
   try {
      f();
      ++accepted;
      ev(str("accepted ", name));
      return true;
   } catch(const StrictException&) {
      ++rejected;
      ev(str("rejected ", name));
      return false;
   } catch(const std::bad_alloc&) {
      ev(str("no memory ", name));
      return false;
   }
}
template <class T> T small(Rng& r) {
   if constexpr(std::is_same_v<T, bool>) return r.chance(50);
   else if constexpr(std::is_unsigned_v<T>) return T(r.in(0, 9));
   else return T(r.in(-9, 9));
}
template <class T, class A> void tame(A&& a) {
   if constexpr(NUM<T>)
      for(i64 i = 0; i < sz(a); ++i) {
         T x = a.un(long(i)).val();
         bool fine = x <= T(99);
         if constexpr(std::is_signed_v<T> || FL<T>) fine = fine && x >= T(-99);
         if(!fine) a.un(long(i)) = S<T>(T(i % 9));
      }
}
// Sizes that can be allocated, or whose allocation is refused before it is made (which the sanitizer of clang ends the process for).
#ifdef __clang__
constexpr bool overflowing = false;
#else
constexpr bool overflowing = true;
#endif
template <class T> i64 extent(Rng& r, i64 n) {
   switch(r.below(10)) {
   case 0: return -r.in(1, 3);
   case 1: return 0;
   case 2: return !overflowing || sizeof(T) == 1 || r.chance(50) ? MINL : MAXL - r.in(0, 3);
   case 3: return n;
   case 4: return n + r.in(1, 30);
   case 5: return n / 2;
   default: return r.in(0, 9);
   }
}
i64 place_in(Rng& r, i64 n) { return r.chance(70) ? (n > 0 ? r.in(0, n - 1) : 0) : near(r, n); }

template <int D, class T, class X, class W> void act1(Rng& r, X& x, W& w);
template <int D, class T, class X, class W> void act2(Rng& r, X& x, W& w);

template <int D, class T, class X, class W> void act1(Rng& r, X& x, W& w) {
   const i64 n = sz(x);
   auto v = S<T>(small<T>(r));
   auto& o = w.other1(r);
   int k = int(r.below(22));
   switch(k) {
   case 0: {
      i64 i = place_in(r, n);
      index_forms(r, i, n, [&](auto q) {
         maybe("x[i]", [&] { take(x[q]); });
         maybe("x[i] const", [&] { take(std::as_const(x)[q]); });
         maybe("x[i]=", [&] { x[q] = v; });
         maybe("at", [&] { take(x.at(q)), x.at(q) = v; });
      });
      break;
   }
   case 1: maybe("x=y", [&] { x = o; }); break;
   case 2: maybe("x=v", [&] { x = v; }); break;
   case 3: maybe("x={}", [&] { x = {v, v, v}; }); break;
   case 4:
      if constexpr(NUM<T>) {
         maybe("x+=y", [&] { x += o; });
         maybe("x-=x", [&] { x -= x; });
         maybe("x/=y", [&] { x /= o; });
         maybe("x*=v", [&] { x *= v; });
      }
      break;
   case 5: {
      for(auto&& y : x) take(y);
      for(auto it = x.rbegin(); it != x.rend(); ++it) *it = v;
      for(auto it = x.cbegin(); it < x.cend(); it += 1) take(*it);
      i64 i = place_in(r, n);
      maybe("it[k]", [&] { take(x.begin()[long(i)]), x.begin()[long(i)] = v; });
      if(i >= -n - 3 && i <= n + 3) {
         maybe("*(it+k)", [&] { take(*(x.begin() + i)), *(x.begin() + i) = v; });
         maybe("*(cend-k)", [&] { take(*(x.cend() - i)); });
         maybe("*(rbegin+k)", [&] { take(*(x.rbegin() + i)); });
         maybe("->", [&] { take((x.begin() + i)->val()); });
      }
      break;
   }
   case 6: {
      auto [p, q] = shape_of(r, n);
      maybe("view2D", [&] {
         auto y = x.view2D(long(p), long(q));
         if(endless(y)) return;
         read_all(y);
         if constexpr(D > 0) act2<D - 1, T>(r, y, w);
      });
      break;
   }
   case 7:
      maybe("view1D", [&] {
         auto y = x.view1D();
         read_all(y);
         auto z = std::as_const(x).view1D();
         read_all(z);
      });
      break;
   case 8:
      if constexpr(NUM<T>) {
         maybe("x+y", [&] { read_all(x + o); });
         maybe("(x*x-v).eval", [&] {
            auto e = (x * x - v).eval();
            read_all(e);
         });
         maybe("o=x+o", [&] { o = x + o; });
         maybe("x=o*x", [&] { x = o * x; });
         maybe("dot", [&] { take(dot_prod(x, o)); });
      } else {
         maybe("x&&y", [&] { read_all(x && o); });
         maybe("x=o||x", [&] { x = o || x; });
      }
      break;
   case 9:
      if constexpr(NUM<T>) {
         maybe("reduce", [&] { take(sum(x)), take(spp::max(x, v)), take(spp::min(x, v)), take(dot_prod(x, x, v)); });
         maybe("min_index", [&] {
            auto [i, y] = min_index(x);
            take(y);
            CHECK(n == 0 || (i.val() >= 0 && i.val() < n), "index", "min_index gives ", i.val(), " of ", n);
         });
         if constexpr(FL<T>) maybe("norms", [&] { take(norm2_scaled(x, v)), take(mean(x)), take(stable_sum(x)), take(norm_inf(x)), take(stable_dot_prod(x, o)); });
      }
      maybe("predicates", [&] { take(spp::any_of(x, v)), take(spp::all_of(x, v)), take(x == o), take(x != x); });
      break;
   case 10: {
      std::ostringstream os;
      os << x;
      CHECK(!os.str().empty() || n == 0, "print", "nothing printed for ", n, " elements");
      ev("printed");
      break;
   }
   case 11:
      if constexpr(NUM<T>) {
         maybe("sort", [&] { r.chance(50) ? sort_increasing(x) : sort_decreasing(x); });
         std::stable_sort(x.begin(), x.end(), [](auto p, auto q) { return p.val() < q.val(); });
         std::rotate(x.begin(), x.begin() + n / 2, x.end());
      }
      std::reverse(x.begin(), x.end());
      maybe("shuffle", [&] { spp::shuffle(x); });
      break;
   case 12:
      if constexpr(NUM<T>) maybe("random", [&] { r.chance(50) ? spp::random(x, S<T>(T(1)), S<T>(T(9))) : semi_random(x, S<T>(T(1)), S<T>(T(9))); });
      else maybe("random", [&] { r.chance(50) ? spp::random(x) : semi_random(x); });
      break;
   case 13:
      maybe("merge", [&] { read_all(merge(x, o)), read_all(merge(v, x)), read_all(merge(x, v)), read_all(merge(x, o)); });
      maybe("o=merge", [&] { o.resize_and_assign(merge(x(place::even), o)); });
      break;
   case 14: {
      i64 p = place_in(r, n), c = r.chance(60) ? r.in(1, 3) : near(r, n);
      maybe("exclude", [&] { read_all(exclude(x, long(p), long(c))); });
      maybe("exclude.last", [&] { read_all(exclude(x, last)); });
      break;
   }
   case 15: {
      i64 p = place_in(r, sz(o));
      maybe("o.insert(x)", [&] { o.insert(long(p), x); });
      maybe("o.replace(x)", [&] { o.resize_and_assign(x); });
      break;
   }
   case 16:
      maybe("copy out", [&] {
         typename W::A1 c(x), d(x.begin(), x.end());
         c = d;
         d = x;
         read_all(c), read_all(d), read_all(x.eval());
         c.insert_back(x);
         c.resize_and_assign(c(place::reverse));
         read_all(c);
      });
      break;
   case 17:
      maybe("x=y(list)", [&] { x = o(implicit(random_list(r, sz(o)))); });
      maybe("x(list)=y", [&] { x(implicit(random_list(r, n))) = o; });
      break;
   default:
      // Selections of the object, acted upon in turn.
      if constexpr(D > 0) {
         auto go = [&](auto mk, bool, i64, std::string text) {
            logs(text);
            if(r.chance(30)) {
               maybe("slice const", [&] {
                  auto s = std::as_const(x)(mk());
                  read_all(s);
                  i64 i = place_in(r, sz(s));
                  take(s[long(i)]);
               });
            } else {
               maybe("slice", [&] {
                  auto s = x(mk());
                  if(endless(s)) return;
                  read_all(s);
                  for(int q = 0; q < 2; ++q) act1<D - 1, T>(r, s, w);
                  read_all(s);
               });
            }
         };
         few_selection(r, n, go);
      } else {
         any_selection(r, n, [&](auto mk, bool, i64, std::string text) {
            logs(text);
            maybe("slice.any", [&] {
               auto s = x(mk());
               if(endless(s)) return;
               read_all(s);
               s = v;
               if(sz(s) > 0) take(s[last]);
               take(s[long(place_in(r, sz(s)))]);
            });
         });
      }
   }
   tame<T>(x);
   tame<T>(o);
}

template <int D, class T, class X, class W> void act2(Rng& r, X& x, W& w) {
   const i64 nr = x.rows().val(), nc = x.cols().val(), n = nr * nc;
   auto v = S<T>(small<T>(r));
   auto& o = w.other2(r);
   int k = int(r.below(25));
   i64 i = place_in(r, nr), j = place_in(r, nc);
   switch(k) {
   case 0: case 1:
      index_forms(r, i, nr, [&](auto q) {
         maybe("x(i,j)", [&] { take(x(q, long(j))); });
         maybe("x(i,j) const", [&] { take(std::as_const(x)(q, long(j))); });
         maybe("x(i,j)=", [&] { x(q, long(j)) = v; });
         maybe("2D.at", [&] { take(x.at(q, long(j))), x.at(q, long(j)) = v; });
         maybe("x(i,last)", [&] { take(x(q, last)); });
      });
      break;
   case 2: maybe("2D.x=y", [&] { x = o; }); break;
   case 3: maybe("2D.x=v", [&] { x = v; }); break;
   case 4: maybe("2D.x={}", [&] { x = {{v, v, v, v}, {v, v, v, v}, {v, v, v, v}}; }); break;
   case 5:
      if constexpr(NUM<T>) {
         maybe("2D.x+=y", [&] { x += o; });
         maybe("2D.x-=x", [&] { x -= x; });
         maybe("2D.x*=v", [&] { x *= v; });
         maybe("2D.x/=y", [&] { x /= o; });
      }
      break;
   case 6: case 7: case 8:
      if constexpr(D > 0) {
         int form = int(r.below(4));
         auto go = [&](auto s) {
            read_all(s);
            act1<D - 1, T>(r, s, w);
            read_all(s);
         };
         if(form == 0) maybe("row", [&] { go(x.row(long(i))); });
         if(form == 1) maybe("col", [&] { go(x.col(long(j))); });
         if(form == 2) maybe("diag", [&] { go(x.diag(long(r.chance(70) ? r.in(-nr, nc) : near(r, nc)))); });
         if(form == 3) maybe("2D.view1D", [&] { go(x.view1D()); });
      } else {
         maybe("row/col", [&] { read_all(x.row(long(i))), read_all(std::as_const(x).col(long(j))), x.row(last) = v, x.col(last - long(j)) = v; });
         maybe("diag", [&] { read_all(x.diag(long(near(r, nc)))); });
      }
      break;
   case 9: case 10: {
      i64 i2 = place_in(r, nr), j2 = place_in(r, nc);
      auto go = [&](auto s) {
         if(endless(s)) return;
         read_all(s);
         if constexpr(D > 0) act2<D - 1, T>(r, s, w);
         else s = v;
         read_all(s);
      };
      if(r.chance(50)) maybe("block", [&] { go(x.block(long(i), long(j), long(i2), long(j2))); });
      else maybe("blockN", [&] { go(x.blockN(long(i), long(j), long(i2), long(j2))); });
      maybe("block const", [&] { read_all(std::as_const(x).block(long(i), long(j), long(i2), long(j2))); });
      break;
   }
   case 11: case 12: case 13: {
      int form = int(r.below(3));
      auto go = [&](auto s) {
         if(endless(s)) return;
         read_all(s);
         if constexpr(D > 0) act2<D - 1, T>(r, s, w);
         else s = v;
         read_all(s);
      };
      if(form == 0) few_selection(r, nr, [&](auto mk, bool, i64, std::string text) {
         logs("rows ", text);
         maybe("rows()", [&] { go(x.rows(mk())); });
      });
      if(form == 1) few_selection(r, nc, [&](auto mk, bool, i64, std::string text) {
         logs("cols ", text);
         maybe("cols()", [&] { go(x.cols(mk())); });
      });
      if(form == 2) {
         auto li = random_list(r, nr), lj = random_list(r, nc);
         if(r.chance(50)) maybe("(list,list)", [&] { go(x(implicit(li), implicit(lj))); });
         else maybe("(seqN,list)", [&] { go(x(seqN{long(i), long(r.chance(50) ? 2 : near(r, nr))}, implicit(lj))); });
      }
      break;
   }
   case 14: {
      auto [p, q] = shape_of(r, n);
      maybe("2D.view2D", [&] {
         auto y = x.view2D(long(p), long(q));
         if(endless(y)) return;
         read_all(y);
         y = v;
      });
      break;
   }
   case 15:
      for(auto&& y : x) take(y);
      for(auto it = x.rbegin(); it != x.rend(); ++it) *it = v;
      {
         i64 q = place_in(r, n);
         maybe("2D.it[k]", [&] { take(x.begin()[long(q)]), x.begin()[long(q)] = v; });
      }
      maybe("lines", [&] {
         RowIt ri(x);
         for(auto it = ri.begin(); it != ri.end(); ++it) read_all(*it);
         if(i >= -3 && i < nr + 3) read_all(*(ri.begin() + i));
         ColIt ci(x);
         for(auto it = ci.rbegin(); it != ci.rend(); ++it) read_all(*it);
         if(j >= -3 && j < nc + 3) read_all(ci.begin()[j]);
      });
      break;
   case 16:
      if constexpr(NUM<T>) {
         maybe("2D.x+y", [&] { read_all(x + o); });
         maybe("2D.x=o*x", [&] { x = o * x; });
         maybe("2D.o=x-o", [&] { o = x - o; });
         maybe("matvec", [&] { read_all(matvec_prod(x, w.a[0])); });
         maybe("reduce lines", [&] { read_all(row_reduce(x, [](auto y) { return sum(y, Strict<T>{}); })); });
      } else maybe("2D.x||y", [&] { read_all(x || o); });
      break;
   case 17:
      if constexpr(NUM<T>) {
         maybe("2D.reduce", [&] { take(sum(x)), take(spp::max(x, v)); });
         maybe("2D.min_index", [&] {
            auto [p, q, y] = min_index(x);
            take(y);
            CHECK(n == 0 || (p.val() >= 0 && p.val() < nr && q.val() >= 0 && q.val() < nc), "index", "min_index gives ", p.val(), ",", q.val());
         });
      }
      maybe("2D.predicates", [&] { take(spp::any_of(x, v)), take(x == o), take(x != x); });
      break;
   case 18: {
      std::ostringstream os;
      os << x;
      ev("2D.printed");
      break;
   }
   case 19:
      if constexpr(NUM<T>) maybe("2D.random", [&] { spp::random(x, S<T>(T(1)), S<T>(T(9))), semi_random(x), sort_increasing(x); });
      maybe("2D.shuffle", [&] { spp::shuffle(x); });
      break;
   case 20:
      maybe("merge_horizontal", [&] { read_all(merge_horizontal(x, o)); });
      maybe("merge_vertical", [&] { o.resize_and_assign(merge_vertical(o, x)); });
      maybe("transpose", [&] { o.resize_and_assign(transpose(x)); });
      break;
   case 21: {
      i64 p = place_in(r, o.rows().val());
      maybe("o.insert_rows(x)", [&] { o.insert_rows(long(p), x); });
      maybe("o.insert_cols(x)", [&] { o.insert_cols(long(p), x); });
      maybe("o.replace(x)", [&] { o.resize_and_assign(x); });
      break;
   }
   case 22: {
      auto& l = w.other1(r);
      maybe("x.row=l", [&] { x.row(long(i)) = l; });
      maybe("l=x.col", [&] { l = x.col(long(j)); });
      maybe("l.replace(x.col)", [&] { l.resize_and_assign(x.col(long(j))); });
      maybe("l.insert(x.view1D)", [&] { if(sz(l) < 60) l.insert(long(place_in(r, sz(l))), x.view1D()); });
      break;
   }
   case 23:
      maybe("2D.copy out", [&] {
         typename W::A2 c(x), d(x);
         c = d;
         d = x;
         read_all(c), read_all(d), read_all(x.eval());
         if(n) c.insert_rows(1, x), c.insert_cols(0, c(place::all, place::even));
         read_all(c);
      });
      break;
   case 24:
      maybe("2D.x=y(list)", [&] { x = o(implicit(random_list(r, o.rows().val())), place::all); });
      maybe("2D.x(list)=y", [&] { x(place::all, implicit(random_list(r, nc))) = o; });
      break;
   }
   tame<T>(x);
   tame<T>(o);
}

// Editing operations of owners.
template <class T, class A, class W> void edit1(Rng& r, A& a, W& w) {
   const i64 n = sz(a);
   auto v = S<T>(small<T>(r));
   auto& o = w.a[r.below(3)];
   i64 pos = r.chance(75) ? r.in(0, n) : near(r, n);
   i64 cnt = r.chance(60) ? r.in(1, 3) : near(r, n);
   switch(r.below(17)) {
   case 0: {
      i64 e = extent<T>(r, n);
      bool keep = r.chance(50);
      maybe("resize", [&] { a.resize(long(e), keep); });
      break;
   }
   case 1: maybe("insert(v)", [&] { a.insert(long(pos), v); }); break;
   case 2: maybe("insert(array)", [&] { a.insert(long(pos), o); }); break;
   case 3: maybe("insert(self)", [&] { a.insert(long(pos), a), a.insert_front(a(place::even)), a.insert_back(a(place::reverse)); }); break;
   case 4: maybe("remove", [&] { a.remove(long(pos), long(cnt)); }); break;
   case 5: maybe("remove(last-k)", [&] { a.remove(last - long(pos)); }); break;
   case 6: maybe("remove front/back", [&] { r.chance(50) ? a.remove_front(long(cnt)) : a.remove_back(long(cnt)); }); break;
   case 7: {
      auto l = rising_list(r, n);
      maybe("remove(list)", [&] { a.remove(implicit(l)); });
      break;
   }
   case 8: maybe("replace(self slice)", [&] { a.resize_and_assign(a(implicit(random_list(r, n)))); }); break;
   case 9: maybe("replace(expr)", [&] { a.resize_and_assign(merge(o, a)); }); break;
   case 10: maybe("replace(temporary)", [&] { a.resize_and_assign(A(o)); }); break;
   case 11: {   // moved-from objects
      maybe("move", [&] {
         A b(std::move(a));
         read_all(a);
         CHECK(sz(a) == 0, "moved", "moved-from array has ", sz(a), " elements");
         maybe("moved-from[0]", [&] { take(a[0]); });
         a.resize(3);
         a = v;
         a.resize(sz(b));
         if(r.chance(50)) a = std::move(b);
         else a = b;
      });
      break;
   }
   case 12: a.swap(o), a.swap(a); ev("swap"); break;
   case 13:
      maybe("self", [&] {
         A& b = a;
         a = b;
         a = std::move(b);
         a = a(place::all);
         a.resize_and_assign(b);
      });
      break;
   case 14: {
      maybe("vector of arrays", [&] {
         std::vector<A> all;
         for(int q = 0; q < 4; ++q) all.push_back(a), all.emplace_back(o);
         all.resize(3);
         for(auto& b : all) read_all(b);
         a.swap(all[2]);
      });
      break;
   }
   case 15:
      maybe("construct", [&] {
         A b(long(extent<T>(r, n)), v);
         read_all(b);
      });
      maybe("construct(range)", [&] {
         i64 p = r.in(0, n), q = r.in(0, n);
         A b(a.begin() + p, a.begin() + q);
         read_all(b);
      });
      break;
   case 16: {
      std::string text;
      for(i64 q = r.in(0, 6); q > 0; --q) text += r.pick({std::string("1 "), std::string("2\n"), std::string("x"), std::string("-"), std::string("1.5 "), std::string("99999999999999999999 "), std::string(" ")});
      std::istringstream is(text);
      logs("text '", text, "'");
      maybe("read", [&] { is >> a; });
      break;
   }
   }
   if(sz(a) > 60) a.remove_back(long(sz(a) - 40));
   if(sz(o) > 60) o.remove_back(long(sz(o) - 40));
   tame<T>(a);
   tame<T>(o);
}
template <class T, class A, class W> void edit2(Rng& r, A& a, W& w) {
   const i64 nr = a.rows().val(), nc = a.cols().val();
   auto v = S<T>(small<T>(r));
   auto& o = w.m[r.below(2)];
   auto& l = w.a[r.below(3)];
   bool rows = r.chance(50);
   i64 lim = rows ? nr : nc;
   i64 pos = r.chance(75) ? r.in(0, lim) : near(r, lim);
   i64 cnt = r.chance(60) ? r.in(1, 3) : near(r, lim);
   switch(r.below(17)) {
   case 0: case 1: {
      i64 p = extent<T>(r, nr), q = extent<T>(r, nc);
      bool keep = r.chance(50);
      maybe("2D.resize", [&] { a.resize(long(p), long(q), keep); });
      break;
   }
   case 2: maybe("insert_lines(array)", [&] { rows ? a.insert_rows(long(pos), o) : a.insert_cols(long(pos), o); }); break;
   case 3: maybe("insert_lines(self)", [&] { rows ? a.insert_rows(long(pos), a(place::even, place::all)) : a.insert_cols(long(pos), a(place::all, place::reverse)); }); break;
   case 4: maybe("insert_line", [&] { rows ? a.insert_row(long(pos), l) : a.insert_col(long(pos), l); }); break;
   case 5: maybe("insert_line(self)", [&] { rows ? a.insert_row(long(pos), a.row(last)) : a.insert_col(long(pos), a.col(0)(place::reverse)); }); break;
   case 6: maybe("remove_lines", [&] { rows ? a.remove_rows(long(pos), long(cnt)) : a.remove_cols(long(pos), long(cnt)); }); break;
   case 7: maybe("remove_line", [&] { rows ? a.remove_row(long(pos)) : a.remove_col(last - long(pos)); }); break;
   case 8: {
      auto q = rising_list(r, lim);
      maybe("remove_lines(list)", [&] { rows ? a.remove_rows(implicit(q)) : a.remove_cols(implicit(q)); });
      break;
   }
   case 9: maybe("2D.replace(self slice)", [&] { a.resize_and_assign(a(implicit(random_list(r, nr)), place::reverse)); }); break;
   case 10: maybe("2D.replace(expr)", [&] { a.resize_and_assign(transpose(a)); }); break;
   case 11: maybe("2D.replace(temporary)", [&] { a.resize_and_assign(A(o)); }); break;
   case 12:
      maybe("2D.move", [&] {
         A b(std::move(a));
         read_all(a);
         CHECK(sz(a) == 0 && a.rows().val() == 0 && a.cols().val() == 0, "moved", "moved-from matrix is not empty");
         maybe("2D.moved-from(0,0)", [&] { take(a(0, 0)); });
         maybe("2D.moved-from.row", [&] { read_all(a.row(0)); });
         a.resize(2, 2);
         a = v;
         a.resize(b.rows(), b.cols());
         if(r.chance(50)) a = std::move(b);
         else a = b;
      });
      break;
   case 13: a.swap(o), a.swap(a); ev("2D.swap"); break;
   case 14:
      maybe("2D.self", [&] {
         A& b = a;
         a = b;
         a = std::move(b);
         a.resize_and_assign(b);
      });
      break;
   case 15:
      maybe("2D.construct", [&] {
         A b(long(extent<T>(r, nr)), long(extent<T>(r, nc)), v);
         read_all(b);
      });
      break;
   case 16: {
      std::string text;
      for(i64 q = r.in(0, 8); q > 0; --q) text += r.pick({std::string("1 "), std::string("2\n"), std::string("x"), std::string("\n"), std::string("1 1\n"), std::string("99999999999999999999 ")});
      std::istringstream is(text);
      logs("text '", text, "'");
      maybe("2D.read", [&] { is >> a; });
      break;
   }
   }
   auto limit = [](A& b) {
      if(b.rows().val() > 12) b.remove_rows(10, b.rows() - 10_sl);
      if(b.cols().val() > 12) b.remove_cols(10, b.cols() - 10_sl);
   };
   limit(a), limit(o);
   tame<T>(a);
   tame<T>(o);
}

template <class A> void coherent(const A& a, const char* what) {
   using T = bt<A>;
   if constexpr(A::dimension().val() == 2) {
      i64 p = a.rows().val(), q = a.cols().val();
      CHECK(p >= 0 && q >= 0 && (p == 0) == (q == 0) && sz(a) == p * q, "coherent", what, ": ", p, "x", q, " and ", sz(a), " elements");
   } else CHECK(sz(a) >= 0, "coherent", what, ": ", sz(a), " elements");
   CHECK(a.end() - a.begin() == sz(a) && bool(a.empty()) == (sz(a) == 0), "coherent", what, ": range of ", a.end() - a.begin(), " and ", sz(a), " elements");
   if constexpr(std::is_same_v<T, bool>) {
      for(i64 i = 0; i < sz(a); ++i) {
         unsigned char byte;
         auto x = a.un(long(i));
         std::memcpy(&byte, &x, 1);
         CHECK(byte <= 1, "coherent", what, ": a bool holds ", int(byte));
      }
   }
   read_all(a);
}

template <class T, AlignmentFlag AF> struct World {
   using A1 = Array1D<T, AF>;
   using A2 = Array2D<T, AF>;
   A1 a[3];
   A2 m[2];
   std::unique_ptr<FixedArray1D<T, 7, AF>> f = std::make_unique<FixedArray1D<T, 7, AF>>();
   std::unique_ptr<FixedArray2D<T, 3, 4, AF>> g = std::make_unique<FixedArray2D<T, 3, 4, AF>>();
   std::unique_ptr<T[]> p;   // attached memory, of exactly the size
   i64 np = 0;
   const void* busy = nullptr;   // the array acted upon: it is not resized while slices of it are alive
   A1& other1(Rng& r) {
      auto k = r.below(3);
      return &a[k] == busy ? a[(k + 1) % 3] : a[k];
   }
   A2& other2(Rng& r) {
      auto k = r.below(2);
      return &m[k] == busy ? m[1 - k] : m[k];
   }
};

// Which objects are acted upon apart from the editing: 0 dynamic 1D, 1 dynamic 2D, 2 fixed 1D and attached 2D, 3 fixed 2D and attached 1D.
template <class T, AlignmentFlag AF, int Who> void history(Case& c) {
   Rng& r = c.r;
   World<T, AF> w;
   for(auto& x : w.a) x = mk1<Array1D<T, AF>>(std::vector<T>{}), x.resize(long(r.in(0, 9)));
   for(auto& x : w.m) {
      i64 p = r.in(0, 5), q = p ? r.in(1, 5) : 0;
      x.resize(long(p), long(q));
   }
   i64 pr = r.in(0, 4), pc = pr ? r.in(1, 4) : 0;
   w.np = pr * pc;
   w.p.reset(new T[size_t(w.np)]());
   int steps = int(r.in(3, 40));
   accepted = rejected = 0;
   for(int s = 0; s < steps; ++s) {
      int k = int(r.below(10));
      auto st = r.next();
      Rng q(st);
      c.note(u64(k) * 1000003 + st % 1000003);
      logs("|", k);
      switch(k) {
      case 0: case 1: edit1<T>(q, w.a[q.below(3)], w); break;
      case 2: case 3: edit2<T>(q, w.m[q.below(2)], w); break;
      case 8: case 9:
         if constexpr(Who == 2) {
            T* p = w.p.get();
            auto x = attach2D(p, long(pr), long(pc));
            act2<0, T>(q, x, w);
            break;
         } else if constexpr(Who == 3) {
            T* p = w.p.get();
            auto x = attach1D(p, long(w.np));
            act1<0, T>(q, x, w);
            break;
         }
         [[fallthrough]];
      default:
         if constexpr(Who == 0) {
            auto& x = w.a[q.below(3)];
            w.busy = &x;
            act1<1, T>(q, x, w);
         } else if constexpr(Who == 1) {
            auto& x = w.m[q.below(2)];
            w.busy = &x;
            act2<1, T>(q, x, w);
         }
         else if constexpr(Who == 2) act1<1, T>(q, *w.f, w);
         else act2<1, T>(q, *w.g, w);
      }
      w.busy = nullptr;
      for(auto& x : w.a) coherent(x, "array");
      for(auto& x : w.m) coherent(x, "matrix");
      coherent(*w.f, "fixed array"), coherent(*w.g, "fixed matrix");
   }
   if(accepted && rejected) c.nontrivial = true;
   // Everything is still usable.
   auto x1 = S<T>(T(1)), x0 = S<T>(T(0));
   for(auto& x : w.a) {
      x.resize(3);
      x = x1;
      x.insert(1, x0);
      x.insert_back(x(place::even));
      x.remove(0);
      CHECK(eq(vec(x), std::vector<T>{T(0), T(1), T(1), T(1), T(1)}), "usable", "array gives ", show(vec(x)));
   }
   for(auto& x : w.m) {
      x.resize(2, 2);
      x = x1;
      x.row(1) = x0;
      x.insert_col(1, x.col(0));
      x.remove_row(0);
      CHECK(x.rows().val() == 1 && x.cols().val() == 3 && bool(spp::all_of(x, x0)), "usable", "matrix");
   }
   *w.f = x1, *w.g = x1;
   CHECK(bool(spp::all_of(*w.f, x1)) && bool(spp::all_of(*w.g, x1)), "usable", "fixed arrays");
}

int main(int argc, char** argv) {
   return h::run(argc, argv, [](Case& c) {
      dispatch<10>(c, []<int K>(Case& cc) {
         if constexpr(K == 0) history<int, Unaligned, 0>(cc);
         else if constexpr(K == 1) history<double, Aligned, 1>(cc);
         else if constexpr(K == 2) history<unsigned long, Aligned, 2>(cc);
         else if constexpr(K == 3) history<float, Unaligned, 3>(cc);
         else if constexpr(K == 4) history<bool, Unaligned, 1>(cc);
         else if constexpr(K == 5) history<long double, Aligned, 0>(cc);
         else if constexpr(K == 6) history<int, Unaligned, 1>(cc);
         else if constexpr(K == 7) history<double, Aligned, 2>(cc);
         else if constexpr(K == 8) history<bool, Aligned, 3>(cc);
         else history<long, Unaligned, 3>(cc);
      });
   });
}
