// P10: expressions against the same computation on built-in scalars, element by element.
#include "operands.hpp"
using namespace h;
using namespace spp;

template <class T> using V = std::vector<T>;

// Values including extremes; the oracle decides which are usable for an operation.
template <class T> T value(Rng& r) {
   if constexpr(std::is_same_v<T, bool>) return r.chance(50);
   else if constexpr(std::is_integral_v<T>) {
      int k = int(r.below(10));
      if(k == 0) return std::numeric_limits<T>::max();
      if(k == 1) return std::numeric_limits<T>::min();
      if(k == 2) return T(r.next());
      return rnd<T>(r, -20, 20);
   } else {
      int k = int(r.below(40));
      using L = std::numeric_limits<T>;
      if(k == 0) return L::infinity();
      if(k == 1) return -L::infinity();
      if(k == 2) return L::quiet_NaN();
      if(k == 3) return T(-0.0);
      if(k == 4) return T(0);
      if(k == 5) return L::max();
      if(k == 6) return L::denorm_min();
      if(k == 7) return T(std::ldexp(r.unit() - 0.5, int(r.in(-60, 60))));
      return T(r.unit() * 40. - 20.);
   }
}

// Built-in results, and whether the operation is defined.
enum Op { Add, Sub, Mul, Div, Mod, Shl, Shr, And, Or, Xor, LAnd, LOr, NOPS };
const char* opname[] = {"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "&&", "||"};
template <class T> bool defined(Op o, T x, T y) {
   if constexpr(std::is_same_v<T, bool> || !std::is_integral_v<T>) return true;
   else {
      T z;
      if(o == Add) return std::is_unsigned_v<T> || !__builtin_add_overflow(x, y, &z);
      if(o == Sub) return std::is_unsigned_v<T> || !__builtin_sub_overflow(x, y, &z);
      if(o == Mul) return std::is_unsigned_v<T> || !__builtin_mul_overflow(x, y, &z);
      if(o == Div || o == Mod) return y != 0 && !(std::is_signed_v<T> && y == T(-1) && x == std::numeric_limits<T>::min());
      if(o == Shl || o == Shr) return !(std::is_signed_v<T> && (x < 0 || y < 0)) && y < T(sizeof(T) * 8) && (o == Shr || std::is_unsigned_v<T> || x <= (std::numeric_limits<T>::max() >> y));
      return true;
   }
}
template <class T> T ref(Op o, T x, T y) {
   if constexpr(std::is_same_v<T, bool>) return o == LAnd ? x && y : o == LOr ? x || y : x != y;
   else if constexpr(std::is_integral_v<T>) {
      switch(o) {
      case Add: return x + y;
      case Sub: return x - y;
      case Mul: return x * y;
      case Div: return x / y;
      case Mod: return x % y;
      case Shl: return x << y;
      case Shr: return x >> y;
      case And: return x & y;
      case Or: return x | y;
      case Xor: return x ^ y;
      default: std::abort();
      }
   } else {
      switch(o) {
      case Add: return x + y;
      case Sub: return x - y;
      case Mul: return x * y;
      case Div: return x / y;
      default: std::abort();
      }
   }
}
template <class T> Op pickop(Rng& r) {
   if constexpr(std::is_same_v<T, bool>) return r.pick({LAnd, LOr, Xor});
   else if constexpr(std::is_integral_v<T>) return Op(r.in(Add, Xor));
   else return Op(r.in(Add, Div));
}
// Applies operator o of the library to any two operands.
template <class T, class A, class B, class F> void apply(Op o, const A& a, const B& b, F f) {
   if constexpr(std::is_same_v<T, bool>) {
      if(o == LAnd) f(a && b);
      else if(o == LOr) f(a || b);
      else f(a ^ b);
   } else {
      switch(o) {
      case Add: f(a + b); return;
      case Sub: f(a - b); return;
      case Mul: f(a * b); return;
      case Div: f(a / b); return;
      default: break;
      }
      if constexpr(std::is_integral_v<T>) {
         switch(o) {
         case Mod: f(a % b); return;
         case Shl: f(a << b); return;
         case Shr: f(a >> b); return;
         case And: f(a & b); return;
         case Or: f(a | b); return;
         case Xor: f(a ^ b); return;
         default: break;
         }
      }
      std::abort();
   }
}

template <class E, class T> void chk(const E& e, const V<T>& want, const std::string& what) {
   static_assert(std::is_same_v<bt<E>, T>);
   auto got = vec(e);
   CHECK(eq(got, want), "value", what, ": got ", show(got), " expected ", show(want));
   Array1D<T> a(e);
   auto q = vec(a);
   CHECK(eq(q, want), "evaluated", what, ": evaluated to ", show(q), " expected ", show(want));
}
template <class E, class T> void chk(const E& e, const Mat<T>& want, const std::string& what) {
   static_assert(std::is_same_v<bt<E>, T>);
   auto got = mat(e);
   CHECK(eq(got, want), "value", what, ": got ", show(got), " expected ", show(want));
   auto lin = vec(e);
   CHECK(eq(lin, want.d), "value", what, ": linear ", show(lin), " expected ", show(want.d));
   Array2D<T> a(e);
   auto q = mat(a);
   CHECK(eq(q, want), "evaluated", what, ": evaluated to ", show(q), " expected ", show(want));
}
template <class T> Mat<T> like(const Mat<T>& m, V<T> d) {
   Mat<T> x = m;
   x.d = std::move(d);
   return x;
}
template <class T> V<T> values(Rng& r, i64 n) {
   V<T> v;
   for(i64 i = 0; i < n; ++i) v.push_back(value<T>(r));
   return v;
}
template <class T> V<T> binary(Rng& r, Op o, V<T>& x, V<T>& y) {
   V<T> z;
   for(size_t i = 0; i < x.size(); ++i) {
      int t = 0;
      while(!defined<T>(o, x[i], y[i])) {
         if(++t > 5) {
            x[i] = T(1);
            y[i] = T(2);
            break;
         }
         x[i] = value<T>(r);
         y[i] = T(std::is_integral_v<T> && (o == Shl || o == Shr) ? T(r.below(12)) : value<T>(r));
      }
      z.push_back(ref<T>(o, x[i], y[i]));
   }
   return z;
}

template <class T> void binary1(Case& c) {
   Rng& r = c.r;
   i64 n = r.chance(10) ? 7 : rsize(r);
   auto x = values<T>(r, n), y = values<T>(r, n);
   Op o = pickop<T>(r);
   auto z = binary<T>(r, o, x, y);
   logs("1D ", opname[o], " of ", n);
   pair1<T>(r, x, y, pairs1{}, [&](auto& a, auto& b) { apply<T>(o, a, b, [&](auto e) { chk(e, z, opname[o]); }); });
   c.note(u64(o) * 1000 + u64(n));
   for(auto q : z) c.note(show<T>(q));
   ev(str("op ", opname[o]));
   c.nontrivial = n > 0;
}
template <class T> void binary2(Case& c) {
   Rng& r = c.r;
   i64 nr = r.in(1, 7), nc = r.in(1, 7);
   if(r.chance(10)) nr = 3, nc = 4;
   Mat<T> x(nr, nc), y(nr, nc);
   x.d = values<T>(r, nr * nc);
   y.d = values<T>(r, nr * nc);
   Op o = pickop<T>(r);
   auto z = like(x, binary<T>(r, o, x.d, y.d));
   logs("2D ", opname[o], " of ", nr, "x", nc);
   pair2<T>(r, x, y, pairs2{}, [&](auto& a, auto& b) { apply<T>(o, a, b, [&](auto e) { chk(e, z, opname[o]); }); });
   c.note(u64(o) * 1000 + u64(nr * 10 + nc));
   for(auto q : z.d) c.note(show<T>(q));
   ev(str("2D.op ", opname[o]));
   c.nontrivial = true;
}
template <class T> void scalar(Case& c) {   // scalar on the left or on the right
   Rng& r = c.r;
   i64 n = rsize(r);
   bool left = r.chance(50);
   Op o = pickop<T>(r);
   T s = value<T>(r);
   if(std::is_integral_v<T> && !std::is_same_v<T, bool>) {
      if(o == Shl || o == Shr || o == Mul) s = T(r.below(12));
      if((o == Div || o == Mod) && s == T(0)) s = T(3);
   }
   V<T> x;
   for(i64 i = 0; i < n; ++i) {
      T v = value<T>(r);
      for(int t = 0; !(left ? defined<T>(o, s, v) : defined<T>(o, v, s)); ++t) v = t > 20 ? T(1) : value<T>(r);
      x.push_back(v);
      if(!(left ? defined<T>(o, s, v) : defined<T>(o, v, s))) std::abort();
   }
   V<T> z;
   for(auto v : x) z.push_back(left ? ref<T>(o, s, v) : ref<T>(o, v, s));
   logs(left ? "scalar " : "array ", opname[o], " n=", n, " s=", show<T>(s));
   any1<T>(r, x, kinds<0, 2, 4, 7>{}, [&](auto& a) {
      if(left) apply<T>(o, S<T>(s), a, [&](auto e) { chk(e, z, opname[o]); });
      else apply<T>(o, a, S<T>(s), [&](auto e) { chk(e, z, opname[o]); });
   });
   i64 p = n ? r.in(1, n) : 0;
   while(n && n % p) --p;
   Mat<T> X(p, n ? n / p : 0);
   X.d = x;
   auto Z = like(X, z);
   any2<T>(r, X, kinds<0, 2, 6>{}, [&](auto& a) {
      if(left) apply<T>(o, S<T>(s), a, [&](auto e) { chk(e, Z, opname[o]); });
      else apply<T>(o, a, S<T>(s), [&](auto e) { chk(e, Z, opname[o]); });
   });
   c.note(u64(o) * 1000 + u64(n) * 2 + left);
   for(auto q : z) c.note(show<T>(q));
   ev(str(left ? "scalar-left " : "scalar-right ", opname[o]));
   c.nontrivial = n > 0;
}

template <class T> void compound(Case& c) {
   Rng& r = c.r;
   if constexpr(!std::is_same_v<T, bool>) {
      i64 n = rsize(r);
      auto x = values<T>(r, n), y = values<T>(r, n);
      Op o = pickop<T>(r);
      auto z = binary<T>(r, o, x, y);
      auto go = [&](auto& a, const auto& b) {
         switch(o) {
         case Add: a += b; return;
         case Sub: a -= b; return;
         case Mul: a *= b; return;
         case Div: a /= b; return;
         default: break;
         }
         if constexpr(std::is_integral_v<T>) {
            switch(o) {
            case Mod: a %= b; return;
            case Shl: a <<= b; return;
            case Shr: a >>= b; return;
            case And: a &= b; return;
            case Or: a |= b; return;
            case Xor: a ^= b; return;
            default: break;
            }
         }
         std::abort();
      };
      int k = int(r.below(4));
      logs("compound ", opname[o], "= kind ", k, " n=", n);
      if(k == 0) {
         pair1<T>(r, x, y, kinds<0x00, 0x27, 0x44, 0x52, 0x10, 0x80, 0x36, 0x99>{}, [&](auto& a, auto& b) {
            go(a, b);
            chk(a, z, str(opname[o], "="));
            auto w = vec(b);
            CHECK(eq(w, y), "operand", "right operand of ", opname[o], "= changed to ", show(w));
         });
      } else if(k == 1 && n) {
         i64 p = r.in(1, n);
         while(n % p) --p;
         Mat<T> X(p, n / p), Y(p, n / p);
         X.d = x;
         Y.d = y;
         auto Z = like(X, z);
         pair2<T>(r, X, Y, kinds<0x00, 0x26, 0x33, 0x41, 0x15, 0x72>{}, [&](auto& a, auto& b) {
            go(a, b);
            chk(a, Z, str(opname[o], "="));
         });
      } else {
         T s = n ? y[0] : T(1);
         V<T> z2;
         for(auto& v : x) {
            for(int t = 0; !defined<T>(o, v, s); ++t) v = t > 20 ? T(0) : value<T>(r);
            z2.push_back(ref<T>(o, v, s));
         }
         any1<T>(r, x, kinds<0, 2, 4, 5, 9>{}, [&](auto& a) {
            go(a, S<T>(s));
            chk(a, z2, str(opname[o], "= scalar"));
         });
      }
      c.note(u64(o) * 1000 + u64(n) * 4 + u64(k));
      for(auto q : z) c.note(show<T>(q));
      ev(str("compound ", opname[o]));
      c.nontrivial = n > 0;
   }
}

// Elementwise functions: reference computed with the standard library on built-in values.
template <class T> void unary(Case& c) {
   Rng& r = c.r;
   i64 n = rsize(r);
   auto x = values<T>(r, n);
   V<T> z(x.size());
   int k = 0;
   auto fill = [&](auto f) { for(size_t i = 0; i < x.size(); ++i) z[i] = f(x[i]); };
   auto go = [&](auto op, const char* name) {
      logs(name, " of ", n);
      ev(str("fn ", name));
      c.note(std::string(name));
      any1<T>(r, x, kinds<0, 2, 4, 7>{}, [&](auto& a) {
         auto e = op(a);
         chk(e, z, name);
      });
      i64 p = n ? r.in(1, n) : 0;
      while(n && n % p) --p;
      Mat<T> X(p, n ? n / p : 0);
      X.d = x;
      auto Z = like(X, z);
      any2<T>(r, X, kinds<0, 3, 6>{}, [&](auto& a) {
         auto e = op(a);
         chk(e, Z, name);
      });
   };
   if constexpr(std::is_same_v<T, bool>) {
      fill([](T v) { return !v; });
      go([](auto& a) { return !a; }, "!");
   } else if constexpr(std::is_integral_v<T>) {
      k = int(r.below(4));
      for(auto& v : x) if(std::is_signed_v<T> && v == std::numeric_limits<T>::min()) v = T(7);
      if(k == 0) { fill([](T v) { return v; }); go([](auto& a) { return +a; }, "unary+"); }
      if constexpr(std::is_signed_v<T>) {
         if(k == 1) { fill([](T v) { return -v; }); go([](auto& a) { return -a; }, "unary-"); }
         if(k == 2) { fill([](T v) { return v < 0 ? -v : v; }); go([](auto& a) { return abs(a); }, "abs"); }
      } else {
         if(k == 1 || k == 2) { fill([](T v) { return v; }); go([](auto& a) { return +a; }, "unary+"); }
      }
      if(k == 3) { fill([](T v) { return T(~v); }); go([](auto& a) { return ~a; }, "~"); }
   } else {
      k = int(r.below(16));
      switch(k) {
      case 0: fill([](T v) { return v; }); go([](auto& a) { return +a; }, "unary+"); break;
      case 1: fill([](T v) { return -v; }); go([](auto& a) { return -a; }, "unary-"); break;
      case 2:
         for(auto& v : x) if(v == T(0)) v = T(1);
         fill([](T v) { return std::fabs(v); });
         go([](auto& a) { return abs(a); }, "abs");
         break;
      case 3: fill([](T v) { return std::exp(v); }); go([](auto& a) { return exp(a); }, "exp"); break;
      case 4: fill([](T v) { return std::log(v); }); go([](auto& a) { return log(a); }, "log"); break;
      case 5: fill([](T v) { return std::log2(v); }); go([](auto& a) { return log2(a); }, "log2"); break;
      case 6: fill([](T v) { return std::log10(v); }); go([](auto& a) { return log10(a); }, "log10"); break;
      case 7: fill([](T v) { return std::sqrt(v); }); go([](auto& a) { return sqrt(a); }, "sqrt"); break;
      case 8: fill([](T v) { return std::cbrt(v); }); go([](auto& a) { return cbrt(a); }, "cbrt"); break;
      case 9: fill([](T v) { return std::sin(v); }); go([](auto& a) { return sin(a); }, "sin"); break;
      case 10: fill([](T v) { return std::cos(v); }); go([](auto& a) { return cos(a); }, "cos"); break;
      case 11: fill([](T v) { return std::tan(v); }); go([](auto& a) { return tan(a); }, "tan"); break;
      case 12: {
         T p = T(r.in(-8, 8)) / T(2);
         fill([p](T v) { return std::pow(v, p); });
         go([p](auto& a) { return pow(a, S<T>(p)); }, "pow");
         break;
      }
      case 13: {
         int p = int(r.in(-5, 9));
         fill([p](T v) { return std::pow(v, T(p)); });
         go([p](auto& a) { return pow_int(a, p); }, "pow_int");
         break;
      }
      case 14: {   // small integer base: every order of multiplication is exact
         int p = int(r.in(0, 8));
         for(auto& v : x) v = T(r.in(-7, 7));
         fill([p](T v) {
            T q = 1;
            for(int i = 0; i < p; ++i) q *= v;
            return q;
         });
         go([p](auto& a) { return fast_pow_int(a, p); }, "fast_pow_int");
         break;
      }
      case 15:
         fill([](T v) { return T(1) / v; });
         go([](auto& a) { return inv(a); }, "inv");
         break;
      }
   }
   for(auto q : z) c.note(show<T>(q));
   c.nontrivial = n > 0;
}

// User functions, conversions and pairs.
template <class T> void misc(Case& c) {
   Rng& r = c.r;
   i64 n = rsize(r);
   auto x = rvec<T>(r, n), y = rvec<T>(r, n);
   int k = int(r.below(5));
   logs("misc", k, " of ", n);
   ev(str("misc.", k));
   c.note(u64(k) + 50);
   if(k == 0) {   // conversion there and back
      any1<T>(r, x, kinds<0, 4, 7>{}, [&](auto& a) {
         V<double> d;
         V<long> l;
         for(auto v : x) d.push_back(double(v)), l.push_back(long(v));
         if constexpr(!std::is_same_v<T, bool>) {
            chk(array_cast<double>(a), d, "array_cast<double>");
            chk(array_cast<long>(a), l, "array_cast<long>");
            chk(array_cast<T>(array_cast<double>(a)), x, "array_cast there and back");
            chk(array_cast<int>(array_cast<double>(a) * 2._sd), [&] { V<int> q; for(auto v : d) q.push_back(int(v * 2.)); return q; }(), "array_cast of an expression");
         } else {
            chk(array_cast<double>(a), d, "array_cast<double>");
         }
      });
   } else if(k == 1) {   // a user function changing the type
      any1<T>(r, x, kinds<0, 2, 4, 7>{}, [&](auto& a) {
         auto e = generate(a, [](auto v) { return strict_cast<double>(v) + 0.5_sd; });
         V<double> d;
         for(auto v : x) d.push_back(double(v) + 0.5);
         chk(e, d, "generate with another result type");
         V<bool> b;
         for(auto v : x) b.push_back(v > T(0));
         chk(generate(a, [](auto v) { return v > Zero<T>; }), b, "generate of a predicate");
      });
   } else if(k == 2) {   // a user function of two arrays of different element types
      V<double> w;
      for(auto v : y) w.push_back(double(v) * 0.25);
      any1<T>(r, x, kinds<0, 3, 7>{}, [&](auto& a) {
         any1<double>(r, w, kinds<0, 4, 8>{}, [&](auto& b) {
            auto e = generate(a, b, [](auto p, auto q) { return strict_cast<double>(p) - q; });
            V<double> z;
            for(size_t i = 0; i < w.size(); ++i) z.push_back(double(x[i]) - w[i]);
            chk(e, z, "generate of two arrays");
         });
      });
   } else if(k == 3) {   // sizes must agree
      auto w = rvec<T>(r, n + r.in(1, 2));
      pair1<T>(r, x, w, kinds<0x00, 0x24, 0x47, 0x72>{}, [&](auto& a, auto& b) {
         bool e;
         if constexpr(std::is_same_v<T, bool>) e = throws([&] { (void)(a && b); }) && throws([&] { (void)(b || a); });
         else {
            e = throws([&] { (void)(a + b); }) && throws([&] { (void)(b * a); });
            if constexpr(requires { a += b; }) {
               e = e && throws([&] { a += b; });
               chk(a, x, "operand after a rejected +=");
            }
         }
         CHECK(e, "mismatch", "operands of different sizes accepted");
      });
      if(n) {
         Mat<T> A(n, 2), B(2, n);
         A.d = rvec<T>(r, 2 * n);
         B.d = rvec<T>(r, 2 * n);
         if(n != 2) {
            pair2<T>(r, A, B, kinds<0x00, 0x26, 0x34>{}, [&](auto& a, auto& b) {
               bool e;
               if constexpr(std::is_same_v<T, bool>) e = throws([&] { (void)(a && b); });
               else e = throws([&] { (void)(a - b); });
               CHECK(e, "mismatch", "operands of transposed shapes accepted");
            });
         }
      }
   } else {
      if constexpr(std::is_floating_point_v<T>) {
         pair1<T>(r, x, y, kinds<0x00, 0x24, 0x37, 0x44>{}, [&](auto& a, auto& b) {
            auto [p, q] = two_prod(a, b);
            V<T> P, Q;
            for(size_t i = 0; i < x.size(); ++i) P.push_back(x[i] * y[i]), Q.push_back(T(std::fma(x[i], y[i], -P.back())));
            chk(p, P, "two_prod first");
            auto got = vec(q);
            for(size_t i = 0; i < Q.size(); ++i) CHECK(got[i] == Q[i], "value", "two_prod second ", i, ": ", show(got[i]), " expected ", show(Q[i]));
         });
      }
   }
   for(auto v : x) c.note(show<T>(v));
   c.nontrivial = n > 0;
}

// Deep compositions of three operands of different kinds; small values, so that every step is defined.
template <class T> void deep(Case& c) {
   Rng& r = c.r;
   i64 n = rsize(r, 40);
   auto x = rvec<T>(r, n, -9, 9), y = rvec<T>(r, n, 1, 9), z = rvec<T>(r, n, 1, 5);
   T s = rnd<T>(r, 1, 7);
   auto go1 = [&](auto& a, auto& b, auto& d) {
      V<T> w(x.size());
      auto fill = [&](auto f) { for(size_t i = 0; i < x.size(); ++i) w[i] = f(T(x[i]), T(y[i]), T(z[i])); };
      int k = int(r.below(10));
      logs("deep", k, " of ", n, " s=", show<T>(s));
      ev(str("deep.", k));
      c.note(u64(k));
      Strict<T> q = S<T>(s);
      if constexpr(std::is_same_v<T, bool>) {
         switch(k % 4) {
         case 0: fill([&](T u, T v, T t) { return (u && v) || (!t && u) || s; }); chk((a && b) || (!d && a) || q, w, "deep"); break;
         case 1: fill([&](T u, T v, T t) { return bool((u ^ v) ^ (t || s)); }); chk((a ^ b) ^ (d || q), w, "deep"); break;
         case 2: fill([&](T u, T v, T t) { return !(u && !(v || t)); }); chk(!(a && !(b || d)), w, "deep"); break;
         case 3: fill([&](T u, T v, T t) { return bool(s ^ (!u || (v && (t || u)))); }); chk(q ^ (!a || (b && (d || a))), w, "deep"); break;
         }
      } else {
         switch(k) {
         case 0: fill([&](T u, T v, T t) { return T(T(u + v) * t - s); }); chk((a + b) * d - q, w, "(a+b)*d-s"); break;
         case 1: fill([&](T u, T v, T t) { return T(u + T(T(v * t) / T(v + t))); }); chk(a + (b * d) / (b + d), w, "a+(b*d)/(b+d)"); break;
         case 2: fill([&](T u, T v, T t) { return T(T(s - T(u * v)) + T(s * T(t - v))); }); chk((q - a * b) + q * (d - b), w, "(s-a*b)+s*(d-b)"); break;
         case 3: fill([&](T u, T v, T t) { return T(T(T(u * u) + T(v * v)) * T(t * t)); }); chk((a * a + b * b) * (d * d), w, "(aa+bb)*(dd)"); break;
         case 4:
            if constexpr(std::is_integral_v<T>) {
               fill([&](T u, T v, T t) { return T((T(v << t) & T(v | t)) ^ T(u % v)); });
               chk(((b << d) & (b | d)) ^ (a % b), w, "((b<<d)&(b|d))^(a%b)");
            } else {
               fill([&](T u, T v, T t) { return std::sqrt(T(T(u * u) + std::exp(T(v / T(-s - t))))); });
               chk(sqrt(a * a + exp(b / (-q - d))), w, "sqrt(aa+exp(b/(-s-d)))");
            }
            break;
         case 5:
            if constexpr(std::is_unsigned_v<T>) {
               fill([&](T u, T v, T t) { return T(~T(u - v) >> T(t)); });
               chk(~(a - b) >> d, w, "~(a-b)>>d");
            } else {
               fill([&](T u, T v, T t) { return T(-T(-u - T(-v)) * T(-t)); });
               chk(-(-a - (-b)) * (-d), w, "-(-a-(-b))*(-d)");
            }
            break;
         case 6: {   // a named subexpression used twice
            fill([&](T u, T v, T t) { T e = T(u + v); return T(T(e * t) + T(e * e)); });
            auto e = a + b;
            chk(e * d + e * e, w, "e*d+e*e");
            break;
         }
         case 7: {   // slices of expressions
            auto e = (a + b) * d;
            V<T> full;
            for(size_t i = 0; i < x.size(); ++i) full.push_back(T(T(x[i] + y[i]) * z[i]));
            w.assign(full.rbegin(), full.rend());
            for(size_t i = 0; i < w.size(); ++i) w[i] = T(w[i] - s);
            chk(e(place::reverse) - q, w, "((a+b)*d)(reverse)-s");
            break;
         }
         case 8: {   // the same operand three times
            fill([&](T u, T, T) { return T(T(u * u) * u + s); });
            chk(a * a * a + q, w, "a*a*a+s");
            break;
         }
         case 9: {
            fill([&](T u, T v, T t) { return T(T(T(T(u + s) * s) - T(v / t)) + T(s / v)); });
            chk((a + q) * q - b / d + q / b, w, "(a+s)*s-b/d+s/b");
            break;
         }
         }
      }
   };
   int t = int(r.below(4));
   if(t == 0) hold1<0, T>(r, x, [&](auto& a) { hold1<2, T>(r, y, [&](auto& b) { hold1<4, T>(r, z, [&](auto& d) { go1(a, b, d); }); }); });
   if(t == 1) hold1<7, T>(r, x, [&](auto& a) { hold1<5, T>(r, y, [&](auto& b) { hold1<6, T>(r, z, [&](auto& d) { go1(a, b, d); }); }); });
   if(t == 2) hold1<3, T>(r, x, [&](auto& a) { hold1<1, T>(r, y, [&](auto& b) { hold1<8, T>(r, z, [&](auto& d) { go1(a, b, d); }); }); });
   if(t == 3) hold1<4, T>(r, x, [&](auto& a) { hold1<4, T>(r, y, [&](auto& b) { hold1<0, T>(r, z, [&](auto& d) { go1(a, b, d); }); }); });
   c.note(u64(t) * 1000 + u64(n));
   c.note(show<T>(x));
   c.nontrivial = n > 0;
}

template <class T> void kind(Case& c) {
   switch(c.r.below(9)) {
   case 0: case 1: binary1<T>(c); break;
   case 2: case 3: binary2<T>(c); break;
   case 4: scalar<T>(c); break;
   case 5: compound<T>(c); break;
   case 6: unary<T>(c); break;
   case 7: misc<T>(c); break;
   case 8: deep<T>(c); break;
   }
}

int main(int argc, char** argv) {
   return run(argc, argv, [](Case& c) {
      dispatch<8>(c, []<int K>(Case& c) {
         if constexpr(K == 0) kind<int>(c);
         if constexpr(K == 1) kind<long>(c);
         if constexpr(K == 2) kind<unsigned>(c);
         if constexpr(K == 3) kind<unsigned long>(c);
         if constexpr(K == 4) kind<float>(c);
         if constexpr(K == 5) kind<double>(c);
         if constexpr(K == 6) kind<long double>(c);
         if constexpr(K == 7) kind<bool>(c);
      });
   });
}
