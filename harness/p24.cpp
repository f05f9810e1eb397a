// P24: absolute and relative errors and the within-tolerance predicates, against their definitions in 113-bit arithmetic.
#include "operands.hpp"
#include <optional>
using namespace h;
using namespace spp;
using W = __float128;

template <class T> constexpr int mantissa() {
   if constexpr(std::is_same_v<T, float>) return 24;
   else if constexpr(std::is_same_v<T, double>) return 53;
   else if constexpr(std::is_same_v<T, long double>) return 64;
   else return 113;
}
template <class T> T eps() {
   T e = 1;
   for(int i = 1; i < mantissa<T>(); ++i) e /= 2;
   return e;
}
inline W ab(W x) { return x < 0 ? -x : x; }
inline bool pow2(W x) {
   if(x <= 0) return false;
   while(x >= 2) x /= 2;
   while(x < 1) x *= 2;
   return x == 1;
}

// 1 holds, 0 does not, -1 too close to the limit to tell without assuming how it is rounded.
template <class T> int tol_abs(T x, T y, T tol) {
   W d = ab(W(x) - W(y)), s = ab(W(T(x - y))), e = W(eps<T>()) * 4;
   if(W(x) - W(y) == W(T(x - y))) return s <= tol;
   if(d <= W(tol) * (1 - e)) return 1;
   if(d >= W(tol) * (1 + e)) return 0;
   return -1;
}
template <class T> int tol_rel(T x, T y, T tol, T nz) {
   W m = std::max(ab(x), ab(y)), d = ab(W(x) - W(y)), e = W(eps<T>()) * 4;
   if(m <= W(nz)) return 1;
   W q = d / m;
   if(W(x) - W(y) == W(T(x - y)) && pow2(m)) return q <= W(tol);
   if(q <= W(tol) * (1 - e)) return 1;
   if(q >= W(tol) * (1 + e)) return 0;
   if(tol == 0) return d == 0;
   return -1;
}
template <class T> bool close(T got, W want) {
   return ab(W(got) - want) <= want * W(eps<T>()) * 4;
}

template <class T> T base_value(Rng& r) {
   switch(r.below(7)) {
      case 0: return T(0);
      case 1: return T(r.pick({1., 2., 4., 0.5, -1., -2., 1024., 0.125}));
      case 2: return rnd<T>(r, -20, 20);
      case 3: {   // about as small as the default near-zero threshold
         T x = eps<T>() * T(r.pick({1., 50., 99., 100., 101., 200., 1000.}));
         return r.chance(50) ? x : -x;
      }
      default: {
         T x = T(r.unit()) + T(r.unit()) * T(0x1p-53) + T(0.001);
         int k = int(r.in(-30, 30));
         for(int i = 0; i < k; ++i) x *= 2;
         for(int i = 0; i > k; --i) x /= 2;
         return r.chance(50) ? x : -x;
      }
   }
}
template <class T> T near(Rng& r, T x) {
   switch(r.below(9)) {
      case 0: return x;
      case 1: return T(0);
      case 2: return -x;
      case 3: return base_value<T>(r);
      case 4: return x * (T(1) + eps<T>() * T(r.in(-130, 130)));
      case 5: return x + T(r.pick({0.25, 0.5, 1., 2., -1., -0.5}));
      case 6: return x * T(r.pick({0.5, 2., 0.75, 1.25, 1.5}));
      case 7: return x + eps<T>() * T(r.in(-130, 130));
      default: return x * (T(1) + T(r.unit() - 0.5) * T(0.01));
   }
}
template <class T> T tolerance(Rng& r, W actual) {
   switch(r.below(8)) {
      case 0: return T(0);
      case 1: return eps<T>() * 100;
      case 2: return T(r.pick({0.25, 0.5, 1., 2., 0.01}));
      case 3: return T(actual);
      case 4: return T(actual) * (T(1) - eps<T>() * T(r.in(5, 12)));
      case 5: return T(actual) * (T(1) + eps<T>() * T(r.in(5, 12)));
      case 6: return T(actual) / 2;
      default: return T(actual) * 3;
   }
}
template <class X> bool bit(const X& got, int want, const char* key, const std::string& what) {
   if(want >= 0) CHECK(bool(got) == bool(want), key, what, " = ", bool(got), " instead of ", want);
   ev(std::string(key) + (want < 0 ? " near" : want ? " holds" : " fails"));
   return bool(got);
}

// The scales at the ends of the range: where tolerance times magnitude, or the difference, is not a normal number.
template <class T> T extreme_scale(Rng& r) {
   T one = 1;
   int k = int(r.below(4));
   if(k == 0) {   // the smallest subnormal
      T x = one;
      while(x / 2 > 0) x /= 2;
      return x;
   }
   if(k == 1) {   // around the smallest normal number
      T x = one;
      while(x * (one + eps<T>()) / 2 > x / 2) x /= 2;
      return x;
   }
   T x = one;   // 64 * x is the largest power of two, or well below
   while(x * 128 * 2 - x * 128 * 2 == 0) x *= 2;
   return k == 2 ? x : x / 1024;
}
template <class T> std::pair<T, T> extreme_pair(Rng& r) {
   T sc = extreme_scale<T>(r);
   i64 a = r.in(0, 64), b = r.chance(30) ? a + r.in(-1, 1) : r.in(0, 64);
   if(b < 0) b = 0;
   T x = sc * T(a), y = sc * T(b);
   int sign = int(r.below(6));
   if(sign == 0 || sign == 2) x = -x;
   if(sign == 1 || sign == 2) y = -y;
   ev("extreme scale");
   return {x, y};
}

template <class T> void scalars(Case& c) {
   Rng& r = c.r;
   const T D = eps<T>() * 100;
   for(int k = 0; k < 12; ++k) {
      T x = base_value<T>(r), y = near<T>(r, x);
      if(r.chance(15)) std::tie(x, y) = extreme_pair<T>(r);
      W d = ab(W(x) - W(y)), m = std::max(ab(x), ab(y));
      T ta = tolerance<T>(r, d), tr = tolerance<T>(r, m != 0 ? d / m : 0), nz = r.chance(50) ? T(0) : r.chance(40) ? T(m) : tolerance<T>(r, m);
      auto s = str("(", show<T>(x), ", ", show<T>(y), ", tol ", show<T>(ta), " / ", show<T>(tr), ", near zero ", show<T>(nz), ")");
      logs(s);
      c.note(s);
      auto X = S<T>(x), Y = S<T>(y);
      bool b1 = bit(within_tol_abs(X, Y, S<T>(ta)), tol_abs(x, y, ta), "within_tol_abs", s);
      bool b2 = bit(within_tol_abs(Y, X, S<T>(ta)), tol_abs(x, y, ta), "within_tol_abs", s);
      CHECK(b1 == b2, "within_tol_abs symmetry", s);
      b1 = bit(within_tol_rel(X, Y, S<T>(tr), S<T>(nz)), tol_rel(x, y, tr, nz), "within_tol_rel", s);
      b2 = bit(within_tol_rel(Y, X, S<T>(tr), S<T>(nz)), tol_rel(x, y, tr, nz), "within_tol_rel", s);
      CHECK(b1 == b2, "within_tol_rel symmetry", s);
      bit(within_tol_rel(X, Y, S<T>(tr)), tol_rel(x, y, tr, D), "within_tol_rel", s);
      bit(within_tol_rel(X, Y), tol_rel(x, y, D, D), "within_tol_rel", s);
      bit(within_tol_abs(X, Y), tol_abs(x, y, D), "within_tol_abs", s);
      auto e = abs_error(X, Y);
      CHECK(close<T>(e.val(), d), "abs_error", s, " = ", show<T>(e.val()));
      CHECK(same(e.val(), abs_error(Y, X).val()), "abs_error symmetry", s);
      auto q = rel_error(X, Y);
      bool none = x == 0 || y == 0;
      CHECK(q.has_value() == !none, "rel_error", s, q ? " given although a value is zero" : " absent although no value is zero");
      if(q) CHECK(close<T>(q->val(), d / ab(y)), "rel_error", s, " = ", show<T>(q->val()));
      ev(none ? "rel_error none" : "rel_error");
      if(r.chance(15)) {
         auto neg = S<T>(-r.pick({T(1), eps<T>(), T(100)}));
         CHECK(throws([&] { within_tol_abs(X, Y, neg); }), "negative tolerance", "within_tol_abs accepts a negative tolerance");
         CHECK(throws([&] { within_tol_rel(X, Y, neg, S<T>(nz)); }), "negative tolerance", "within_tol_rel accepts a negative tolerance");
         CHECK(throws([&] { within_tol_rel(X, Y, S<T>(tr), neg); }), "negative tolerance", "within_tol_rel accepts a negative near-zero threshold");
         ev("negative tolerance");
      }
   }
   c.nontrivial = true;
}

template <class T> struct Pairs {
   std::vector<T> v, w;
   W d = 0, q = 0, rel = 0;   // largest absolute error, largest relative difference, largest relative error
   bool zero = false;
   W m = 0;
};
// Mostly agreeing elements, with the deviation anywhere.
template <class T> Pairs<T> make_pairs(Rng& r, i64 n) {
   Pairs<T> p;
   bool nonzero = r.chance(70);
   i64 at = n ? r.pick({i64(0), n - 1, r.in(0, n - 1)}) : 0;
   int kind = int(r.below(4));   // 0 equal but one, 1 all deviate, 2 tiny deviations and one larger, 3 equal
   for(i64 i = 0; i < n; ++i) {
      T x = base_value<T>(r);
      if(nonzero && x == 0) x = 3;
      T y = x;
      if(kind == 1 || ((kind == 0 || kind == 2) && i == at)) y = near<T>(r, x);
      else if(kind == 2) y = x * (T(1) + eps<T>());
      if(nonzero && y == 0) y = 5;
      if(r.chance(50) && kind == 1) std::swap(x, y);
      p.v.push_back(x);
      p.w.push_back(y);
   }
   if(!nonzero && n && r.chance(50)) (r.chance(50) ? p.v : p.w)[size_t(at)] = 0;
   for(size_t i = 0; i < p.v.size(); ++i) {
      W x = p.v[i], y = p.w[i], d = ab(x - y), m = std::max(ab(x), ab(y));
      p.d = std::max(p.d, d);
      p.m = std::max(p.m, m);
      if(m != 0) p.q = std::max(p.q, d / m);
      if(y != 0) p.rel = std::max(p.rel, d / ab(y));
      if(x == 0 || y == 0) p.zero = true;
   }
   return p;
}
template <class T> int all_abs(const Pairs<T>& p, T tol, bool empty) {
   if(p.v.empty()) return empty;
   int b = 1;
   for(size_t i = 0; i < p.v.size(); ++i) {
      int k = tol_abs(p.v[i], p.w[i], tol);
      if(k == 0) return 0;
      if(k < 0) b = -1;
   }
   return b;
}
template <class T> int all_rel(const Pairs<T>& p, T tol, T nz, bool empty) {
   if(p.v.empty()) return empty;
   int b = 1;
   for(size_t i = 0; i < p.v.size(); ++i) {
      int k = tol_rel(p.v[i], p.w[i], tol, nz);
      if(k == 0) return 0;
      if(k < 0) b = -1;
   }
   return b;
}

template <class T, class A, class B> void measure(Rng& r, A& a, B& b, const Pairs<T>& p, const std::string& s0) {
   const T D = eps<T>() * 100;
   T ta = tolerance<T>(r, p.d), tr = tolerance<T>(r, p.q), nz = r.chance(60) ? T(0) : r.chance(40) ? T(p.m) : tolerance<T>(r, p.m);
   bool ed = r.chance(50);
   auto E = Strict<bool>{ed};
   auto s = str(s0, " tol ", show<T>(ta), " / ", show<T>(tr), ", near zero ", show<T>(nz));
   bool b1 = bit(within_tol_abs(a, b, S<T>(ta), E), all_abs(p, ta, ed), "array within_tol_abs", s);
   bool b2 = bit(within_tol_abs(b, a, S<T>(ta), E), all_abs(p, ta, ed), "array within_tol_abs", s);
   CHECK(b1 == b2, "array within_tol_abs symmetry", s);
   b1 = bit(within_tol_rel(a, b, S<T>(tr), S<T>(nz), E), all_rel(p, tr, nz, ed), "array within_tol_rel", s);
   b2 = bit(within_tol_rel(b, a, S<T>(tr), S<T>(nz), E), all_rel(p, tr, nz, ed), "array within_tol_rel", s);
   CHECK(b1 == b2, "array within_tol_rel symmetry", s);
   bit(within_tol_abs(a, b), all_abs(p, D, false), "array within_tol_abs", s);
   bit(within_tol_abs(a, b, S<T>(ta)), all_abs(p, ta, false), "array within_tol_abs", s);
   bit(within_tol_rel(a, b), all_rel(p, D, D, false), "array within_tol_rel", s);
   bit(within_tol_rel(a, b, S<T>(tr)), all_rel(p, tr, D, false), "array within_tol_rel", s);
   bit(within_tol_rel(a, b, S<T>(tr), S<T>(nz)), all_rel(p, tr, nz, false), "array within_tol_rel", s);
   T dflt = rnd<T>(r, -5, 5);
   auto e = max_abs_error(a, b, S<T>(dflt));
   auto q = max_rel_error(a, b, S<T>(dflt));
   if(p.v.empty()) {
      CHECK(e.val() == dflt, "max_abs_error empty", "max_abs_error of empty arrays gives ", show<T>(e.val()), " instead of the default");
      CHECK(q.has_value() && q->val() == dflt, "max_rel_error empty", "max_rel_error of empty arrays does not give the default");
      CHECK(max_abs_error(a, b).val() == T(1), "max_abs_error empty", "max_abs_error of empty arrays does not give one");
      ev("empty");
   } else {
      CHECK(close<T>(e.val(), p.d), "max_abs_error", s, " = ", show<T>(e.val()), " instead of ", show<T>(T(p.d)));
      CHECK(same(e.val(), max_abs_error(a, b).val()), "max_abs_error", s, " differs with a default for empty arrays");
      CHECK(same(e.val(), max_abs_error(b, a).val()), "max_abs_error symmetry", s);
      CHECK(q.has_value() == !p.zero, "max_rel_error", s, q ? " given although an element is zero" : " absent although no element is zero");
      if(q) CHECK(close<T>(q->val(), p.rel), "max_rel_error", s, " = ", show<T>(q->val()), " instead of ", show<T>(T(p.rel)));
      ev(p.zero ? "max_rel_error none" : "max_rel_error");
   }
   if(r.chance(20) && !p.v.empty()) {
      auto neg = S<T>(-eps<T>());
      CHECK(throws([&] { within_tol_abs(a, b, neg); }), "negative tolerance", "within_tol_abs accepts a negative tolerance");
      CHECK(throws([&] { within_tol_rel(a, b, neg, S<T>(T(0))); }), "negative tolerance", "within_tol_rel accepts a negative tolerance");
      ev("negative tolerance");
   }
}
template <class A, class B> void unequal(const A& a, const B& b, const std::string& s) {
   CHECK(throws([&] { within_tol_abs(a, b); }), "mismatch", "within_tol_abs accepts ", s);
   CHECK(throws([&] { within_tol_rel(a, b); }), "mismatch", "within_tol_rel accepts ", s);
   CHECK(throws([&] { max_abs_error(a, b); }), "mismatch", "max_abs_error accepts ", s);
   CHECK(throws([&] { max_rel_error(a, b); }), "mismatch", "max_rel_error accepts ", s);
   CHECK(throws([&] { max_rel_error(b, a); }), "mismatch", "max_rel_error accepts ", s);
   CHECK(throws([&] { within_tol_abs(b, a); }), "mismatch", "within_tol_abs accepts ", s);
   ev("mismatch");
}

template <class T> void one(Case& c) {
   Rng& r = c.r;
   i64 n = r.chance(8) ? 7 : r.chance(5) ? r.in(50, 300) : rsize(r, 12);
   auto p = make_pairs<T>(r, n);
   auto s = str("1D ", show(p.v), show(p.w));
   logs(s);
   c.note(s);
   c.nontrivial = n > 0;
   pair1<T>(r, p.v, p.w, pairs1{}, [&](auto& a, auto& b) { measure<T>(r, a, b, p, s); });
   if(n >= 3) {
      Pairs<T> q;
      q.v.assign(p.v.begin(), p.v.begin() + 3), q.w.assign(p.w.begin(), p.w.begin() + 3);
      auto a = mk1<Array1D<T>>(p.v);
      auto h = a(place::firstN(3));
      T tol = tolerance<T>(r, ab(W(q.v[2]) - W(q.w[2])));
      const T D = eps<T>() * 100;
      auto W0 = S<T>(q.w[0]), W1 = S<T>(q.w[1]), W2 = S<T>(q.w[2]), t = S<T>(tol), z = S<T>(T(0));
      bit(within_tol_abs(h, {W0, W1, W2}, t), all_abs(q, tol, false), "list within_tol_abs", s);
      bit(within_tol_abs({W0, W1, W2}, h, t), all_abs(q, tol, false), "list within_tol_abs", s);
      bit(within_tol_rel(h, {W0, W1, W2}, t, z), all_rel(q, tol, T(0), false), "list within_tol_rel", s);
      bit(within_tol_rel({W0, W1, W2}, h, t, z), all_rel(q, tol, T(0), false), "list within_tol_rel", s);
      bit(within_tol_rel(h, {W0, W1, W2}), all_rel(q, D, D, false), "list within_tol_rel", s);
      bit(within_tol_abs({W0, W1, W2}, h), all_abs(q, D, false), "list within_tol_abs", s);
      CHECK(throws([&] { within_tol_abs(h, {W0, W1}); }), "mismatch", "within_tol_abs accepts a shorter list");
      CHECK(throws([&] { within_tol_rel({W0, W1, W2, W2}, h); }), "mismatch", "within_tol_rel accepts a longer list");
   }
   if(r.chance(25)) {
      auto w = p.w;
      if(n && r.chance(50)) w.pop_back();
      else w.push_back(T(1));
      pair1<T>(r, p.v, w, pairs1{}, [&](auto& a, auto& b) { unequal(a, b, str("sizes ", n, " and ", w.size())); });
   }
}
template <class T> void two(Case& c) {
   Rng& r = c.r;
   i64 nr = r.chance(10) ? 0 : r.in(1, 6), nc = nr ? r.in(1, 6) : 0;
   if(r.chance(10)) nr = 3, nc = 4;
   auto p = make_pairs<T>(r, nr * nc);
   Mat<T> v(nr, nc), w(nr, nc);
   v.d = p.v, w.d = p.w;
   auto s = str("2D ", show(v), show(w));
   logs(s);
   c.note(s);
   c.nontrivial = nr > 0;
   pair2<T>(r, v, w, pairs2{}, [&](auto& a, auto& b) { measure<T>(r, a, b, p, s); });
   if(nr >= 2 && nc >= 2) {
      Pairs<T> q;
      q.v = {v(0, 0), v(0, 1), v(1, 0), v(1, 1)};
      q.w = {w(0, 0), w(0, 1), w(1, 0), w(1, 1)};
      auto A = mk2<Array2D<T>>(v);
      auto a = A.block(0, 0, 1, 1);
      T tol = tolerance<T>(r, ab(W(q.v[3]) - W(q.w[3])));
      auto w0 = S<T>(q.w[0]), w1 = S<T>(q.w[1]), w2 = S<T>(q.w[2]), w3 = S<T>(q.w[3]), t = S<T>(tol), z = S<T>(T(0));
      bit(within_tol_abs(a, {{w0, w1}, {w2, w3}}, t), all_abs(q, tol, false), "2D list within_tol_abs", s);
      bit(within_tol_abs({{w0, w1}, {w2, w3}}, a, t), all_abs(q, tol, false), "2D list within_tol_abs", s);
      bit(within_tol_rel(a, {{w0, w1}, {w2, w3}}, t, z), all_rel(q, tol, T(0), false), "2D list within_tol_rel", s);
      bit(within_tol_rel({{w0, w1}, {w2, w3}}, a, t, z), all_rel(q, tol, T(0), false), "2D list within_tol_rel", s);
   }
   if(nr && r.chance(25)) {
      Mat<T> x(nr + (r.chance(50) ? 1 : 0), nc);
      if(x.r == nr) x = Mat<T>(nr, nc + 1);
      if(nr != nc && r.chance(50)) x = Mat<T>(nc, nr);   // as many elements in another shape
      for(auto& y : x.d) y = T(1);
      pair2<T>(r, v, x, pairs2{}, [&](auto& a, auto& b) { unequal(a, b, str("shapes ", nr, "x", nc, " and ", x.r, "x", x.c)); });
   }
}

#ifdef STRICT_QUAD_PRECISION
using Types = std::tuple<float, double, long double, float128>;
#else
using Types = std::tuple<float, double, long double>;
#endif
constexpr int NT = std::tuple_size_v<Types>;

int main(int argc, char** argv) {
   return h::run(argc, argv, [](Case& c) {
      dispatch<3 * NT>(c, []<int K>(Case& c) {
         using T = std::tuple_element_t<K / 3, Types>;
         if constexpr(K % 3 == 0) scalars<T>(c);
         else if constexpr(K % 3 == 1) one<T>(c);
         else two<T>(c);
      });
   });
}
