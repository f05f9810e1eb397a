// P18: predicates, searches, range queries, equality and for_each equal their quantified definition.
#include "operands.hpp"
using namespace h;
using namespace spp;

template <class T> constexpr bool FL = std::is_floating_point_v<T> || (!std::is_integral_v<T>);
template <class T> T special(Rng& r) {
   using L = std::numeric_limits<T>;
   if constexpr(std::is_same_v<T, bool>) return r.chance(50);
   else if constexpr(std::is_floating_point_v<T>) return r.pick({T(0), -T(0), L::quiet_NaN(), L::infinity(), -L::infinity(), L::denorm_min(), -L::denorm_min(), L::max(), T(1), T(-1)});
   else return r.pick({T(0), T(1), L::max(), L::min(), T(L::min() + 1)});
}
// Mostly one value with a few exceptions, so that "all", "any" and "none" change sides at single elements.
template <class T> std::vector<T> values(Rng& r, i64 n) {
   std::vector<T> v;
   T base = r.chance(60) ? r.pick({T(0), T(1), T(3), special<T>(r)}) : T(0);
   if constexpr(std::is_signed_v<T> && !std::is_same_v<T, bool>)
      if(r.chance(30)) base = T(-2);
   int mode = int(r.below(4));
   for(i64 i = 0; i < n; ++i) {
      T x = base;
      if(mode == 1) x = rnd<T>(r, -4, 4);
      if(mode == 2) x = special<T>(r);
      v.push_back(x);
   }
   if(mode == 0 && n && r.chance(60)) v[size_t(r.pick({i64(0), n - 1, r.in(0, n - 1)}))] = r.chance(50) ? special<T>(r) : rnd<T>(r, -4, 4);
   return v;
}

inline void isb(StrictBool got, bool want, const char* f, const std::string& a) {
   CHECK(got.val() == want, str("value ", f), f, a, " = ", got.val(), " expected ", want);
   ev(str(f, want ? " true" : " false"));
}

template <class A, class T> void preds(Rng& r, const A& a, const std::vector<T>& v, const std::string& s) {
   bool e = v.empty();
   bool db = r.chance(50);
   auto D = Strict<bool>{db};
   bool give = r.chance(50);
   auto all = [&](auto f) { for(T x : v) if(!f(x)) return false; return true; };
   auto any = [&](auto f) { for(T x : v) if(f(x)) return true; return false; };
   T x = !e && r.chance(70) ? v[size_t(r.below(v.size()))] : rnd<T>(r, -4, 4);
   std::string sx = s + str(" x=", show(x), " default=", give ? (db ? "true" : "false") : "none");
   auto eqx = [&](T y) { return y == x; };
   auto X = S<T>(x);
   auto want = [&](bool w, bool dd) { return e ? (give ? db : dd) : w; };
   if(give) {
      isb(spp::any_of(a, X, D), want(any(eqx), false), "any_of value", sx);
      isb(spp::all_of(a, X, D), want(all(eqx), false), "all_of value", sx);
      isb(spp::none_of(a, X, D), want(!any(eqx), false), "none_of value", sx);
      if constexpr(!std::is_same_v<T, bool>) {
      isb(spp::any_of(a, Value<T>{x}, D), want(any(eqx), false), "any_of Value", sx);
      isb(spp::all_of(a, Value<T>{x}, D), want(all(eqx), false), "all_of Value", sx);
      isb(spp::none_of(a, Value<T>{x}, D), want(!any(eqx), false), "none_of Value", sx);
      }
   } else {
      isb(spp::any_of(a, X), want(any(eqx), false), "any_of value", sx);
      isb(spp::all_of(a, X), want(all(eqx), false), "all_of value", sx);
      isb(spp::none_of(a, X), want(!any(eqx), false), "none_of value", sx);
      if constexpr(!std::is_same_v<T, bool>) {
      isb(spp::any_of(a, Value<T>{x}), want(any(eqx), false), "any_of Value", sx);
      isb(spp::all_of(a, Value<T>{x}), want(all(eqx), false), "all_of Value", sx);
      isb(spp::none_of(a, Value<T>{x}), want(!any(eqx), false), "none_of Value", sx);
      }
   }
   // The callable is consulted once per element, in order, up to the deciding one.
   auto counted = [&](auto call, bool stop, bool w, const char* f) {
      std::vector<T> seen;
      auto g = [&](Strict<T> y) { seen.push_back(y.val()); return Strict<bool>{y.val() != x}; };
      StrictBool b = call(g);
      isb(b, w, f, sx);
      size_t want_n = v.size();
      for(size_t i = 0; i < v.size(); ++i)
         if((v[i] != x) == stop) { want_n = i + 1; break; }
      CHECK(seen.size() >= want_n && seen.size() <= v.size(), str("visits ", f), f, sx, " consulted ", seen.size(), " elements, deciding one is number ", want_n);
      for(size_t i = 0; i < seen.size(); ++i) CHECK(same<T>(seen[i], v[i]), str("visits ", f), f, sx, " element ", i, " seen as ", show(seen[i]));
   };
   auto ne = [&](T y) { return y != x; };
   counted([&](auto g) { return give ? spp::any_of(a, g, D) : spp::any_of(a, g); }, true, want(any(ne), false), "any_of f");
   counted([&](auto g) { return give ? spp::all_of(a, g, D) : spp::all_of(a, g); }, false, want(all(ne), false), "all_of f");
   counted([&](auto g) { return give ? spp::none_of(a, g, D) : spp::none_of(a, g); }, true, want(!any(ne), false), "none_of f");

   if constexpr(!std::is_same_v<T, bool>) {
      auto both = [&](auto f, const char* name, bool w) { isb(give ? f(D) : f(false_sb), want(w, false), name, sx); };
      both([&](auto d) { return has_zero(a, d); }, "has_zero", any([](T y) { return y == T(0); }));
      both([&](auto d) { return all_zeros(a, d); }, "all_zeros", all([](T y) { return y == T(0); }));
      both([&](auto d) { return all_pos(a, d); }, "all_pos", all([](T y) { return y > T(0); }));
      both([&](auto d) { return all_neg(a, d); }, "all_neg", all([](T y) { return y < T(0); }));
      both([&](auto d) { return all_non_pos(a, d); }, "all_non_pos", all([](T y) { return y <= T(0); }));
      both([&](auto d) { return all_non_neg(a, d); }, "all_non_neg", all([](T y) { return y >= T(0); }));
      if(!give) {   // the documented defaults
         isb(has_zero(a), want(any([](T y) { return y == T(0); }), false), "has_zero", s);
         isb(all_zeros(a), want(all([](T y) { return y == T(0); }), false), "all_zeros", s);
         isb(all_pos(a), want(all([](T y) { return y > T(0); }), false), "all_pos", s);
         isb(all_neg(a), want(all([](T y) { return y < T(0); }), false), "all_neg", s);
         isb(all_non_pos(a), want(all([](T y) { return y <= T(0); }), false), "all_non_pos", s);
         isb(all_non_neg(a), want(all([](T y) { return y >= T(0); }), false), "all_non_neg", s);
      }
   }
   if constexpr(std::is_floating_point_v<T>) {
      bool fin = all([](T y) { return std::isfinite(y); }), inf = any([](T y) { return std::isinf(y); }), nan = any([](T y) { return std::isnan(y); });
      isb(give ? all_finite(a, D) : all_finite(a), want(fin, true), "all_finite", sx);
      isb(give ? has_inf(a, D) : has_inf(a), want(inf, false), "has_inf", sx);
      isb(give ? has_nan(a, D) : has_nan(a), want(nan, false), "has_nan", sx);
   }
   // Visiting every element once, in order.
   std::vector<T> seen;
   for_each(a, [&](const Strict<T>& y) { seen.push_back(y.val()); });
   CHECK(eq(seen, v), "for_each", "for_each", s, " visited ", show(seen));
   ev("for_each");
}

template <class T> void one(Case& c) {
   Rng& r = c.r;
   i64 n = r.chance(10) ? 7 : rsize(r, 30);
   auto v = values<T>(r, n);
   c.note(str("1D n=", n, n ? show(v[0]) : ""));
   c.nontrivial = n > 0;
   std::string s = str("(", show(v), ")");
   any1<T>(r, v, all1{}, [&](auto& a) {
      preds(r, a, v, s);
      if constexpr(!std::is_same_v<T, bool>) {
         // Range queries: the elements, in order.
         T lo = n && r.chance(60) ? v[size_t(r.below(u64(n)))] : rnd<T>(r, -4, 4), hi = n && r.chance(60) ? v[size_t(r.below(u64(n)))] : rnd<T>(r, -4, 4);
         if(!(lo <= hi)) std::swap(lo, hi);
         if(lo <= hi) {
            std::vector<T> op, cl, cd;
            for(T x : v) {
               if(x > lo && x < hi) op.push_back(x);
               if(x >= lo && x <= hi) cl.push_back(x);
               if(x == lo || x == hi) cd.push_back(x);
            }
            std::string q = s + str(" [", show(lo), ",", show(hi), "]");
            expect1(in_open_range(a, S<T>(lo), S<T>(hi)), op, "in_open_range", "in_open_range" + q);
            expect1(in_open_range(a, Low<T>{lo}, High<T>{hi}), op, "in_open_range", "in_open_range Low High" + q);
            expect1(in_closed_range(a, S<T>(lo), S<T>(hi)), cl, "in_closed_range", "in_closed_range" + q);
            expect1(in_closed_range(a, Low<T>{lo}, High<T>{hi}), cl, "in_closed_range", "in_closed_range Low High" + q);
            expect1(in_cond_range(a, [&](Strict<T> x) { return Strict<bool>{x.val() == lo || x.val() == hi}; }), cd, "in_cond_range", "in_cond_range" + q);
            ev("ranges");
         }
      }
   });
}
template <class T> void two(Case& c) {
   Rng& r = c.r;
   i64 nr = rsize(r, 10), nc = nr ? r.in(1, 10) : 0;
   if(r.chance(12)) nr = 3, nc = 4;
   Mat<T> m(nr, nc);
   m.d = values<T>(r, nr * nc);
   c.note(str("2D ", nr, "x", nc, m.d.empty() ? "" : show(m.d[0])));
   c.nontrivial = nr > 0;
   any2<T>(r, m, all2{}, [&](auto& a) { preds(r, a, m.d, str("(", show(m), ")")); });
}
// Two operands: equality, the two-operand predicates, comparison with lists.
template <class T> void pairs(Case& c) {
   Rng& r = c.r;
   c.nontrivial = true;
   if(r.chance(60)) {
      i64 n = r.chance(15) ? 7 : rsize(r, 20);
      auto v = values<T>(r, n), w = r.chance(70) ? v : values<T>(r, n);
      bool same_n = true;
      if(n && r.chance(40)) w[size_t(r.pick({i64(0), n - 1, r.in(0, n - 1)}))] = r.chance(50) ? special<T>(r) : rnd<T>(r, -4, 4);
      if(r.chance(10)) { w.push_back(T(1)); same_n = false; }
      c.note(str("pair n=", n, " ", same_n));
      bool e = same_n;
      for(size_t i = 0; e && i < v.size(); ++i) e = v[i] == w[i];
      std::string s = str("(", show(v), ",", show(w), ")");
      pair1<T>(r, v, w, pairs1{}, [&](auto& a, auto& b) {
         isb(a == b, e, "operator==", s);
         isb(a != b, !e, "operator!=", s);
         isb(equal(a, b), e, "equal", s);
         isb(b == a, e, "operator==", s);
         if(!same_n) return;
         bool an = false, al = true;
         for(size_t i = 0; i < v.size(); ++i) {
            bool x = v[i] <= w[i];
            an = an || x, al = al && x;
         }
         bool d = r.chance(50);
         auto f = [](Strict<T> x, Strict<T> y) { return x <= y; };
         isb(spp::any_of(a, b, f, Strict<bool>{d}), n ? an : d, "any_of 2", s);
         isb(spp::all_of(a, b, f, Strict<bool>{d}), n ? al : d, "all_of 2", s);
         isb(spp::none_of(a, b, f, Strict<bool>{d}), n ? !an : d, "none_of 2", s);
         isb(spp::any_of(a, b, f), n ? an : false, "any_of 2", s);
         isb(spp::all_of(a, b, f), n ? al : false, "all_of 2", s);
         isb(spp::none_of(a, b, f), n ? !an : false, "none_of 2", s);
      });
      if(n >= 3) {
         auto a = mk1<Array1D<T>>(std::vector<T>(v.begin(), v.begin() + 3));
         bool want = v[0] == w[0] && v[1] == w[1] && v[2] == w[2];
         isb(equal(a, {S<T>(w[0]), S<T>(w[1]), S<T>(w[2])}), want, "equal list", s);
         isb(equal({S<T>(w[0]), S<T>(w[1]), S<T>(w[2])}, a), want, "equal list", s);
         isb(equal(a, {S<T>(v[0]), S<T>(v[1])}), false, "equal list", s);
      }
   } else {
      i64 nr = rsize(r, 8), nc = nr ? r.in(1, 8) : 0;
      if(r.chance(15)) nr = 3, nc = 4;
      Mat<T> m(nr, nc), w(nr, nc);
      m.d = values<T>(r, nr * nc);
      w.d = m.d;
      bool shape = true;
      if(nr && r.chance(50)) w.d[r.below(w.d.size())] = special<T>(r);
      if(nr && nr != nc && r.chance(10)) { std::swap(w.r, w.c); shape = false; }
      c.note(str("pair2 ", nr, "x", nc, " ", shape));
      bool e = shape;
      for(size_t i = 0; e && i < m.d.size(); ++i) e = m.d[i] == w.d[i];
      std::string s = str("(", show(m), ",", show(w), ")");
      pair2<T>(r, m, w, pairs2{}, [&](auto& a, auto& b) {
         isb(a == b, e, "2D operator==", s);
         isb(a != b, !e, "2D operator!=", s);
         isb(equal(a, b), e, "2D equal", s);
         if(!shape) return;
         bool an = false, al = true, d = r.chance(50);
         for(size_t i = 0; i < m.d.size(); ++i) {
            bool x = m.d[i] < w.d[i];
            an = an || x, al = al && x;
         }
         auto f = [](Strict<T> x, Strict<T> y) { return x < y; };
         isb(spp::any_of(a, b, f, Strict<bool>{d}), nr ? an : d, "2D any_of 2", s);
         isb(spp::all_of(a, b, f, Strict<bool>{d}), nr ? al : d, "2D all_of 2", s);
         isb(spp::none_of(a, b, f, Strict<bool>{d}), nr ? !an : d, "2D none_of 2", s);
      });
      if(nr >= 2 && nc >= 2) {
         Array2D<T> a(2L, 2L);
         for(i64 i = 0; i < 2; ++i) for(i64 j = 0; j < 2; ++j) a.un(long(i), long(j)) = S<T>(m(i, j));
         auto W = [&](i64 i, i64 j) { return S<T>(w.d[size_t(i * nc + j)]); };
         bool want = m(0, 0) == W(0, 0).val() && m(0, 1) == W(0, 1).val() && m(1, 0) == W(1, 0).val() && m(1, 1) == W(1, 1).val();
         isb(equal(a, {{W(0, 0), W(0, 1)}, {W(1, 0), W(1, 1)}}), want, "2D equal list", s);
         isb(equal({{W(0, 0), W(0, 1)}, {W(1, 0), W(1, 1)}}, a), want, "2D equal list", s);
         isb(equal(a, {{W(0, 0), W(0, 1), W(1, 0), W(1, 1)}}), false, "2D equal list", s);
      }
   }
}
// Writing through range queries and for_each.
template <class T> void writes(Case& c) {
   Rng& r = c.r;
   i64 n = rsize(r, 25);
   auto v = values<T>(r, n);
   c.note(str("writes n=", n));
   c.nontrivial = n > 0;
   auto a = mk1<Array1D<T>>(v);
   T lo = rnd<T>(r, -4, 4), hi = rnd<T>(r, -4, 4), x = rnd<T>(r, 5, 9);
   if(lo > hi) std::swap(lo, hi);
   int k = int(r.below(5));
   auto m = v;
   if(k == 0) { in_closed_range(a, S<T>(lo), S<T>(hi)) = S<T>(x); for(auto& y : m) if(y >= lo && y <= hi) y = x; }
   if(k == 1) { in_open_range(a, S<T>(lo), S<T>(hi)) = S<T>(x); for(auto& y : m) if(y > lo && y < hi) y = x; }
   if(k == 2) {
      in_cond_range(a(place::odd), [&](Strict<T> y) { return Strict<bool>{y.val() > lo}; }) = S<T>(x);
      for(size_t i = 1; i < m.size(); i += 2) if(m[i] > lo) m[i] = x;
   }
   if(k == 3) { for_each(a, [&](Strict<T>& y) { y = S<T>(x); }); for(auto& y : m) y = x; }
   if(k == 4) {
      T t = T(1);
      for_each(a(place::reverse), [&](Strict<T>& y) { y = S<T>(t), t = T(t + T(1)); });
      T u = T(1);
      for(size_t i = m.size(); i-- > 0;) m[i] = u, u = T(u + T(1));
   }
   expect1(a, m, "writes", str("write ", k, " lo=", show(lo), " hi=", show(hi), " on ", show(v)));
   ev(str("write.", k));
}

using types = std::tuple<int, long, unsigned, unsigned long, float, double, long double, bool>;
constexpr int NT = 8;

int main(int argc, char** argv) {
   return h::run(argc, argv, [](Case& c) {
      dispatch<4 * NT>(c, []<int K>(Case& c) {
         using T = std::tuple_element_t<K % NT, types>;
         if constexpr(K / NT == 0) one<T>(c);
         else if constexpr(K / NT == 1) two<T>(c);
         else if constexpr(K / NT == 2) pairs<T>(c);
         else if constexpr(!std::is_same_v<T, bool>) writes<T>(c);
         else one<T>(c);
      });
   });
}
