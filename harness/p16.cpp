// P16: scalar mathematical functions against exact integer, standard-function and wide-precision oracles.
#include "common.hpp"
using namespace h;
using namespace spp;
#ifdef STRICT_QUAD_PRECISION
using Wide = float128;
#endif

template <class T> T fval(Rng& r) {
   using L = std::numeric_limits<T>;
   switch(r.below(8)) {
   case 0: return T(r.in(-8, 8)) / T(4);
   case 1: return r.pick({T(0), -T(0), L::infinity(), -L::infinity(), L::quiet_NaN(), L::max(), L::lowest(), L::min(), L::denorm_min(), T(1) + L::epsilon(), T(1) - L::epsilon() / 2});
   case 2: return std::ldexp(T(r.next()), int(r.in(L::min_exponent - 64, L::max_exponent)));
   case 3: return std::ldexp(T(r.in(-1000000, 1000000)), int(r.in(-60, 60)));
   case 4: return T(r.unit()) * T(r.chance(50) ? 1 : -1);
   case 5: return T(r.in(-1000, 1000)) + r.pick({T(0), T(0.5), T(0.25), T(-0.5)});   // halves for the rounding functions
   case 6: return T(r.in(-1000000, 1000000)) / T(3);
   default: return T(r.in(-3000, 3000)) / T(100);
   }
}
template <class T> T ival(Rng& r) {
   constexpr T mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min();
   switch(r.below(4)) {
   case 0: return T(r.in(std::is_signed_v<T> ? -6 : 0, 6));
   case 1: return r.pick({mx, mn, T(mx - 1), T(mn + 1), T(mx / 2), T(0), T(1)});
   case 2: return T(r.next());
   default: return T(T(r.next()) >> r.below(sizeof(T) * 8 - 1));
   }
}
template <class T> void is(Strict<T> got, T want, const char* f, const std::string& args) {
   CHECK(same_bits<T>(got.val(), want), str("value ", f), f, "(", args, ") = ", show(got.val()), " expected ", show(want));
   ev(f);
}
template <class T> void isn(Strict<T> got, T want, const char* f, const std::string& args) {   // sign of zero not compared
   CHECK(same<T>(got.val(), want), str("value ", f), f, "(", args, ") = ", show(got.val()), " expected ", show(want));
   ev(f);
}
void isb(StrictBool got, bool want, const char* f, const std::string& args) {
   CHECK(got.val() == want, str("value ", f), f, "(", args, ") = ", got.val(), " expected ", want);
   ev(f);
}
template <class F> void mustreport(F f, const char* name, const std::string& args) {
   CHECK(throws(f), str("no-report ", name), name, "(", args, ") outside its domain not reported");
   ev(str("reported ", name));
}

// Exact power in 128 bits; false if it does not fit T.
template <class T> bool exact_pow(T x, T p, T& out) {
   __int128 v = 1;
   if(x == 0 || x == 1) {
      out = p == 0 ? T(1) : x;
      return true;
   }
   if constexpr(std::is_signed_v<T>)
      if(x == -1) {
         out = p % 2 ? T(-1) : T(1);
         return true;
      }
   for(T i = 0; i < p; ++i) {
      if(__builtin_mul_overflow(v, __int128(x), &v)) return false;
      if(v > __int128(std::numeric_limits<T>::max()) || v < __int128(std::numeric_limits<T>::min())) return false;
   }
   out = T(v);
   return true;
}

template <class T> void common(Rng& r, T x, T y, T z) {
   std::string s = show(x), sy = s + "," + show(y);
   Strict<T> a{x}, b{y}, d{z};
   constexpr bool fl = std::is_floating_point_v<T>;
   isn<T>(signs(a), T(x > 0 ? 1 : x < 0 ? -1 : 0), "signs", s);
   if(!(std::is_integral_v<T> && std::is_signed_v<T> && x == std::numeric_limits<T>::min())) {
      isn<T>(abss(a), T(x < 0 ? T(-x) : x), "abss", s);
   }
   if(x == x && y == y) {
      isn<T>(mins(a, b), y < x ? y : x, "mins", sy);
      isn<T>(maxs(a, b), y > x ? y : x, "maxs", sy);
   }
   std::string s3 = sy + "," + show(z);
   bool nan = x != x || y != y || z != z;
   if(nan || y > z) {
      mustreport([&] { (void)clamps(a, b, d); }, "clamps", s3);
      mustreport([&] { (void)clamps(a, Low{b}, High{d}); }, "clamps", s3);
   } else {
      isn<T>(clamps(a, b, d), x < y ? y : x > z ? z : x, "clamps", s3);
      isn<T>(clamps(a, Low{b}, High{d}), x < y ? y : x > z ? z : x, "clamps", s3);
   }
   if(!(y <= z)) {
      mustreport([&] { (void)in_open(a, b, d); }, "in_open", s3);
      mustreport([&] { (void)in_closed(a, b, d); }, "in_closed", s3);
      mustreport([&] { (void)in_open(Value{a}, Low{b}, High{d}); }, "in_open", s3);
      mustreport([&] { (void)in_closed(Value{a}, Low{b}, High{d}); }, "in_closed", s3);
   } else {
      isb(in_open(a, b, d), x > y && x < z, "in_open", s3);
      isb(in_closed(a, b, d), x >= y && x <= z, "in_closed", s3);
      isb(in_open(Value{a}, Low{b}, High{d}), x > y && x < z, "in_open named", s3);
      isb(in_closed(Value{a}, Low{b}, High{d}), x >= y && x <= z, "in_closed named", s3);
   }
   if constexpr(fl || std::is_unsigned_v<T>) {
      volatile T v = x, v2 = v * v, v3 = v2 * v;
      is<T>(squares(a), v2, "squares", s);
      is<T>(cubes(a), v3, "cubes", s);
   } else {
      __int128 v = x;
      auto in = [](__int128 q) { return q <= std::numeric_limits<T>::max() && q >= std::numeric_limits<T>::min(); };
      if(in(v * v)) is<T>(squares(a), T(v * v), "squares", s);
      if(in(v * v) && in(v * v * v)) is<T>(cubes(a), T(v * v * v), "cubes", s);
   }
}

template <class T> void integers(Case& c) {
   Rng& r = c.r;
   T x = ival<T>(r), y = ival<T>(r), z = ival<T>(r);
   if(r.chance(15)) y = x;
   if(r.chance(15)) z = x;
   if(r.chance(50) && y > z) std::swap(y, z);
   logs(typeid(T).name(), " ", x, " ", y, " ", z);
   c.note(str(typeid(T).name(), x, ",", y, ",", z));
   common<T>(r, x, y, z);
   T base = T(r.in(std::is_signed_v<T> ? -12 : 0, 12)), p = T(r.in(std::is_signed_v<T> ? -2 : 0, 70));
   if(r.chance(20)) base = ival<T>(r), p = T(r.in(0, 3));
   if(r.chance(30)) base = T(r.pick({2, 3})), p = T(r.in(0, 63));
   if constexpr(std::is_signed_v<T>)
      if(r.chance(30)) base = T(-2);
   std::string s = str(base, ",", p);
   if(p < 0) {
      mustreport([&] { (void)pows(Strict<T>{base}, Strict<T>{p}); }, "pows", s);
   } else {
      T w;
      if(exact_pow<T>(base, p, w)) is<T>(pows(Strict<T>{base}, Strict<T>{p}), w, "pows", s);
   }
   c.nontrivial = true;
}

#define EL(f, g)                                                                                   \
   {                                                                                               \
      volatile T v = x;                                                                            \
      is<T>(f(a), T(g(T(v))), #f, s);                                                              \
   }
template <class T> void floats(Case& c) {
   Rng& r = c.r;
   T x = fval<T>(r), y = fval<T>(r), z = fval<T>(r);
   if(r.chance(15)) y = x;
   if(r.chance(15)) z = x;
   if(r.chance(50) && y > z) std::swap(y, z);
   std::string s = show(x);
   logs(typeid(T).name(), " ", s, " ", show(y), " ", show(z));
   c.note(str(typeid(T).name(), s, show(y), show(z)));
   common<T>(r, x, y, z);
   Strict<T> a{x}, b{y}, d{z};
   EL(exps, std::exp) EL(logs, std::log) EL(log2s, std::log2) EL(log10s, std::log10) EL(sqrts, std::sqrt) EL(cbrts, std::cbrt)
   EL(sins, std::sin) EL(coss, std::cos) EL(tans, std::tan) EL(floors, std::floor) EL(ceils, std::ceil)
   isb(isinfs(a), std::isinf(x), "isinfs", s);
   isb(isnans(a), std::isnan(x), "isnans", s);
   isb(isfinites(a), std::isfinite(x), "isfinites", s);
   {
      volatile T v = x, o = 1, w = o / v;
      is<T>(invs(a), w, "invs", s);
   }
   {
      volatile T v = x, u = y, q = z;
      is<T>(pows(a, b), T(std::pow(T(v), T(u))), "pows", s + "," + show(y));
      is<T>(fmas(a, b, d), T(std::fma(T(v), T(u), T(q))), "fmas", s + "," + show(y) + "," + show(z));
   }
   i64 p = r.in(-40, 40);
   if(r.chance(20)) p = r.in(-2000, 2000);
   ImplicitInt ip{long(p)};
   is<T>(pows_int(a, ip), T(std::pow(x, T(p))), "pows_int", s + "," + std::to_string(p));
   is<T>(exps_int<T>(ip), T(std::exp(T(p))), "exps_int", std::to_string(p));
   // repeated multiplication: p-1 multiplications and possibly one inversion
   T fb = r.chance(70) ? T(r.in(-3000, 3000)) / T(1000) : x;
   T got = fast_pows_int(Strict<T>{fb}, ip).val();
   std::string fs = show(fb) + "," + std::to_string(p);
   if(p == 0) {
      is<T>(Strict<T>{got}, T(1), "fast_pows_int 0", fs);
   } else if(fb != fb) {
      CHECK(got != got, "value fast_pows_int", "fast_pows_int(", fs, ") is not NaN");
   } else {
      long double w = std::pow((long double)fb, (long double)p);
      long double up = std::pow((long double)std::abs(fb), (long double)std::abs(p));   // before inversion
      bool sgn = std::signbit(fb) && (p % 2);
      if(std::isfinite(w) && w != 0 && up < (long double)std::numeric_limits<T>::max() / 4 && up > (long double)std::numeric_limits<T>::min() * 4
         && std::abs(w) > (long double)std::numeric_limits<T>::min() * 4 && std::abs(w) < (long double)std::numeric_limits<T>::max() / 4) {
         long double tol = (long double)(2 * std::abs(p) + 2) * std::numeric_limits<T>::epsilon();
         if constexpr(sizeof(T) == 16) tol += 8 * std::abs(p) * (long double)std::numeric_limits<T>::epsilon();
         CHECK(std::abs((long double)got - w) <= tol * std::abs(w), "value fast_pows_int", "fast_pows_int(", fs, ") = ", show(got), " expected about ", show(w));
         ev("fast_pows_int");
      } else if(fb == 0 || std::isinf(fb)) {
         T e = std::pow(fb, T(p));
         CHECK(same_bits<T>(got, e), "value fast_pows_int", "fast_pows_int(", fs, ") = ", show(got), " expected ", show(e));
         ev("fast_pows_int special");
      } else {
         CHECK(got == got && (got == 0 || std::signbit(got) == sgn), "value fast_pows_int", "fast_pows_int(", fs, ") = ", show(got), " has the wrong sign");
      }
   }
   c.nontrivial = true;
}

#ifdef STRICT_QUAD_PRECISION
std::string qshow(float128 x) {
   char b[80];
   quadmath_snprintf(b, sizeof b, "%.36Qg", x);
   return b;
}
bool qsame(float128 a, float128 b) { return (a != a && b != b) || a == b; }
void quads(Case& c) {
   Rng& r = c.r;
   auto val = [&]() -> float128 {
      switch(r.below(4)) {
      case 0: return float128(r.in(-8, 8)) / 4;
      case 1: return float128(r.in(-1000000, 1000000)) / 3;
      case 2: return r.pick({float128(0), float128(1) / 0.0Q, -float128(1) / 0.0Q, nanq(""), FLT128_MAX, FLT128_MIN});
      default: return float128(r.in(-3000, 3000)) / 100;
      }
   };
   float128 x = val(), y = val(), z = val();
   Strict128 a{x}, b{y}, d{z};
   logs("quad ", qshow(x), " ", qshow(y));
   c.note(qshow(x) + qshow(y));
#define QF(f, g) CHECK(qsame(f(a).val(), g(x)), "quad " #f, qshow(x), ": ", qshow(f(a).val()), " expected ", qshow(g(x)));
   QF(exps, expq) QF(logs, logq) QF(log2s, log2q) QF(log10s, log10q) QF(sqrts, sqrtq) QF(cbrts, cbrtq) QF(sins, sinq) QF(coss, cosq) QF(tans, tanq) QF(floors, floorq) QF(ceils, ceilq) QF(abss, fabsq)
   CHECK(isinfs(a).val() == (isinfq(x) != 0) && isnans(a).val() == (isnanq(x) != 0) && isfinites(a).val() == (finiteq(x) != 0), "quad classify", qshow(x));
   CHECK(qsame(pows(a, b).val(), powq(x, y)) && qsame(fmas(a, b, d).val(), fmaq(x, y, z)) && qsame(invs(a).val(), 1 / x), "quad pow", qshow(x), " ", qshow(y));
   CHECK(qsame(squares(a).val(), x * x) && qsame(cubes(a).val(), x * x * x) && signs(a).val() == (x > 0 ? 1 : x < 0 ? -1 : 0), "quad powers", qshow(x));
   if(x == x && y == y) CHECK(mins(a, b).val() == (x < y ? x : y) && maxs(a, b).val() == (x > y ? x : y), "quad minmax", qshow(x));
   long p = long(r.in(-30, 30));
   CHECK(qsame(pows_int(a, p).val(), powq(x, float128(p))) && qsame(exps_int<float128>(p).val(), expq(float128(p))), "quad pows_int", qshow(x));
   float128 fb = float128(r.in(-3000, 3000)) / 1000, w = powq(fb, p);
   if(finiteq(w) && fb != 0) CHECK(fabsq(fast_pows_int(Strict128{fb}, p).val() - w) <= fabsq(w) * float128(2 * std::labs(p) + 4) * FLT128_EPSILON, "quad fast_pows_int", qshow(fb), " ", p);
   ev("quads");
   c.nontrivial = true;
}
#endif

void combinatorial(Case& c) {
   Rng& r = c.r;
   long n = long(r.in(-2, 20));
   if(n < 0) mustreport([&] { (void)factorial(n); }, "factorial", std::to_string(n));
   else {
      long w = 1;
      for(long i = 2; i <= n; ++i) w *= i;
      is<long>(factorial(n), w, "factorial", std::to_string(n));
      is<long>(factorial(Strict<int>{int(n)}), w, "factorial", std::to_string(n));
   }
   long N = long(r.chance(90) ? r.in(-1, 66) : r.in(0, 4000000)), K = long(N <= 66 ? r.in(-1, std::max(N, 0L) + 1) : r.pick({i64(0), i64(1), i64(2)}));
   std::string s = str(N, ",", K);
   if(K < 0 || N < K) mustreport([&] { (void)binom_coeff(N, K); }, "binom_coeff", s);
   else {
      unsigned __int128 w = 1;
      for(long i = 1; i <= K; ++i) w = w * (unsigned __int128)(N - K + i) / (unsigned __int128)i;
      if(w <= (unsigned __int128)std::numeric_limits<long>::max()) {
         is<long>(binom_coeff(N, K), long(w), "binom_coeff", s);
         if(N <= 66 && w > (unsigned __int128)std::numeric_limits<long>::max() / 40) ev("binom_coeff large");
         if(N <= 66) is<long>(binom_coeff(N, N - K), long(w), "binom_coeff", s + " mirrored");
      }
   }
   logs("factorial ", n, " binom ", s);
   c.note(str(n, "!", s));
   c.nontrivial = true;
}

int main(int argc, char** argv) {
   return run(argc, argv, [](Case& c) {
      dispatch<9>(c, []<int K>(Case& c) {
         for(int i = 0; i < 8; ++i) {
            if constexpr(K == 0) integers<int>(c);
            if constexpr(K == 1) integers<long>(c);
            if constexpr(K == 2) integers<unsigned>(c);
            if constexpr(K == 3) integers<unsigned long>(c);
            if constexpr(K == 4) floats<float>(c);
            if constexpr(K == 5) floats<double>(c);
            if constexpr(K == 6) floats<long double>(c);
            if constexpr(K == 7) combinatorial(c);
#ifdef STRICT_QUAD_PRECISION
            if constexpr(K == 8) quads(c);
#else
            if constexpr(K == 8) floats<double>(c);
#endif
         }
      });
   });
}
