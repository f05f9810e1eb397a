// P14: scalar wrapper arithmetic against the built-in operations, bit for bit.
#include "common.hpp"
using namespace h;
using namespace spp;

template <class T> T value(Rng& r) {
   if constexpr(std::is_same_v<T, bool>) return r.chance(50);
   else if constexpr(std::is_integral_v<T>) {
      constexpr T mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min();
      switch(r.below(6)) {
      case 0: return T(r.in(-3, 3));
      case 1: return r.pick({mx, mn, T(mx - 1), T(mn + 1), T(mx / 2), T(mn / 2), T(1), T(0)});
      case 2: return T(r.next());
      case 3: return T(T(1) << r.below(sizeof(T) * 8 - 1));
      case 4: return T(T(r.next()) >> r.below(sizeof(T) * 8 - 1));
      default: return T(r.in(0, 40));
      }
   } else {
      using L = std::numeric_limits<T>;
      switch(r.below(6)) {
      case 0: return T(r.in(-8, 8)) / T(4);
      case 1: return r.pick({T(0), -T(0), L::infinity(), -L::infinity(), L::quiet_NaN(), L::max(), L::lowest(), L::min(), L::denorm_min(), L::epsilon(), T(1) + L::epsilon()});
      case 2: {
         if constexpr(sizeof(T) == 4) return std::bit_cast<float>(std::uint32_t(r.next()));
         else if constexpr(sizeof(T) == 8) return std::bit_cast<double>(std::uint64_t(r.next()));
         else return std::ldexp(T(r.next()), int(r.in(-16000, 16000)));
      }
      case 3: return std::ldexp(T(r.in(-1000000, 1000000)), int(r.in(-60, 60)));
      case 4: return T(r.unit()) + T(r.unit()) * L::epsilon();
      default: return T(r.in(-1000000000, 1000000000)) / T(3);
      }
   }
}
#ifdef STRICT_QUAD_PRECISION
#endif

template <class T> void eqv(Strict<T> got, T want, const char* op, T x, T y) {
   CHECK(same_bits<T>(got.val(), want), str("value ", op), op, " of ", show(x), " and ", show(y), ": ", show(got.val()), " expected ", show(want));
}
void eqb(StrictBool got, bool want, const char* op, const std::string& x, const std::string& y) {
   CHECK(got.val() == want, str("value ", op), op, " of ", x, " and ", y, ": ", got.val(), " expected ", want);
}

// True if x op y cannot be computed without undefined behaviour.
template <class T> bool overflows(char op, T x, T y) {
   if constexpr(std::is_signed_v<T> && std::is_integral_v<T>) {
      T z;
      switch(op) {
      case '+': return __builtin_add_overflow(x, y, &z);
      case '-': return __builtin_sub_overflow(x, y, &z);
      case '*': return __builtin_mul_overflow(x, y, &z);
      case '/': case '%': return x == std::numeric_limits<T>::min() && y == T(-1);
      }
   }
   return false;
}

template <class T> void ops(Case& c) {
   Rng& r = c.r;
   volatile T vx = value<T>(r), vy = value<T>(r);
   if(r.chance(10)) vy = vx;
   T x = vx, y = vy;
   const Strict<T> a{x}, b{y};
   logs(typeid(T).name(), " ", show(x), " ", show(y));
   c.note(typeid(T).name());
   c.note(show(x) + " " + show(y));
   CHECK(same_bits<T>(a.val(), x), "val", "val()");
   static_assert(sizeof(Strict<T>) == sizeof(T) && alignof(Strict<T>) == alignof(T));
   static_assert(std::is_trivially_copyable_v<Strict<T>>);
   CHECK(same_bits<T>(Strict<T>{}.val(), T{}), "default", "default value");
   CHECK(same_bits<T>(T{a}, x), "explicit-conversion", "explicit conversion");
   {
      Strict<T> z = a;
      z = b;
      CHECK(same_bits<T>(z.val(), y) && same_bits<T>(a.val(), x), "assign", "assignment");
      static_assert(std::is_same_v<decltype(z = b), Strict<T>&>);
   }
   // comparisons
#define CMP(op, f)                                                                                 \
   static_assert(std::is_same_v<decltype(a op b), StrictBool>);                                    \
   eqb(a op b, vx op vy, #op, show(x), show(y));
   CMP(==, 0) CMP(!=, 0) CMP(<, 0) CMP(<=, 0) CMP(>, 0) CMP(>=, 0)
   eqb(equal(a, b), vx == vy, "equal", show(x), show(y));
   ev("comparisons");
   if constexpr(std::is_same_v<T, bool>) {
      eqb(a && b, x && y, "&&", show(x), show(y));
      eqb(a || b, x || y, "||", show(x), show(y));
      eqb(a ^ b, bool(x ^ y), "^", show(x), show(y));
      eqb(!a, !x, "!", show(x), show(y));
      int hit = 0;
      if(a) ++hit;
      CHECK(hit == int(x), "as-condition", "condition");
      ev("bool-ops");
   } else {
#define ARITH(op, ch)                                                                              \
   if(!overflows(ch, x, y)) {                                                                      \
      static_assert(std::is_same_v<decltype(a op b), Strict<T>>);                                  \
      T w = T(vx op vy);                                                                           \
      eqv<T>(a op b, w, #op, x, y);                                                                \
      Strict<T> z = a;                                                                             \
      auto& back = (z op##= b);                                                                    \
      eqv<T>(z, w, #op "=", x, y);                                                                 \
      CHECK(&back == &z, "compound-ref", #op "= does not return its target");                      \
      eqv<T>(b, y, #op "= changed its operand", x, y);                                             \
      ev("op " #op);                                                                               \
   }                                                                                               \
   if(!overflows(ch, x, x)) {                                                                      \
      Strict<T> z = a;                                                                             \
      z op##= z;                                                                                   \
      eqv<T>(z, T(vx op vx), #op "= self", x, x);                                                  \
   }
      ARITH(+, '+') ARITH(-, '-') ARITH(*, '*')
      if constexpr(std::is_integral_v<T>) {
         if(y == 0) {
            CHECK(throws([&] { (void)(a / b); }), "no-report /", "division of ", show(x), " by zero not reported");
            CHECK(throws([&] { (void)(a % b); }), "no-report %", "remainder of ", show(x), " by zero not reported");
            Strict<T> z = a;
            CHECK(throws([&] { z /= b; }), "no-report /=", "division by zero not reported");
            eqv<T>(z, x, "/= after report", x, y);
            CHECK(throws([&] { z %= b; }), "no-report %=", "remainder by zero not reported");
            eqv<T>(z, x, "%= after report", x, y);
            ev("zero-divisor");
         } else {
            if(x != 0) { ARITH(/, '/') ARITH(%, '%') }
            else if(!overflows('/', x, y)) {
               eqv<T>(a / b, T(0), "/", x, y);
               eqv<T>(a % b, T(0), "%", x, y);
            }
         }
         ARITH(&, '&') ARITH(|, '|') ARITH(^, '^')
         eqv<T>(~a, T(~vx), "~", x, x);
         // shifts
         bool neg = false;
         T sx = x, sy = r.chance(80) ? T(r.in(0, i64(sizeof(T) * 8) - 1)) : T(r.in(-3, 5));
         if constexpr(std::is_signed_v<T>) {
            if(r.chance(70) && sx < 0) sx = T(~sx);
            neg = sx < 0 || sy < 0;
         } else {
            sy = T(sy % (sizeof(T) * 8));
         }
         Strict<T> sa{sx}, sb{sy};
         if(neg) {
            CHECK(throws([&] { (void)(sa << sb); }), "no-report <<", show(sx), " << ", show(sy), " not reported");
            CHECK(throws([&] { (void)(sa >> sb); }), "no-report >>", show(sx), " >> ", show(sy), " not reported");
            Strict<T> z = sa;
            CHECK(throws([&] { z <<= sb; }), "no-report <<=", "not reported");
            CHECK(throws([&] { z >>= sb; }), "no-report >>=", "not reported");
            eqv<T>(z, sx, "shift after report", sx, sy);
            ev("negative-shift");
         } else {
            volatile T ux = sx, uy = sy;
            eqv<T>(sa << sb, T(ux << uy), "<<", sx, sy);
            eqv<T>(sa >> sb, T(ux >> uy), ">>", sx, sy);
            Strict<T> z = sa, u = sa;
            auto& zb = (z <<= sb);
            auto& ub = (u >>= sb);
            eqv<T>(z, T(ux << uy), "<<=", sx, sy);
            eqv<T>(u, T(ux >> uy), ">>=", sx, sy);
            CHECK(&zb == &z && &ub == &u, "compound-ref", "shift");
            ev("shifts");
         }
      } else {
         ARITH(/, '/')
         if(y == 0) ev("float-zero-divisor");
      }
      eqv<T>(+a, x, "unary +", x, x);
      if constexpr(!std::is_unsigned_v<T>) {
         if(!overflows('-', T(0), x)) {
            eqv<T>(-a, T(-vx), "unary -", x, x);
            ev("unary -");
         }
      }
      if(!overflows('+', x, T(1))) {
         Strict<T> z = a;
         auto& zr = ++z;
         eqv<T>(z, T(vx + T(1)), "++x", x, x);
         CHECK(&zr == &z, "compound-ref", "++");
         Strict<T> u = a;
         eqv<T>(u++, x, "x++ value", x, x);
         eqv<T>(u, T(vx + T(1)), "x++", x, x);
         ev("increment");
      }
      if(!overflows('-', x, T(1))) {
         Strict<T> z = a;
         auto& zr = --z;
         eqv<T>(z, T(vx - T(1)), "--x", x, x);
         CHECK(&zr == &z, "compound-ref", "--");
         Strict<T> u = a;
         eqv<T>(u--, x, "x-- value", x, x);
         eqv<T>(u, T(vx - T(1)), "x--", x, x);
      }
      eqv<T>(a, x, "operand changed", x, y);
      // longer chains keep the type's own rounding at every step
      if constexpr(std::is_floating_point_v<T>) {
         volatile T t1 = vx * vy, t2 = vx - vy, t3 = t1 + t2, t4 = t3 / vy, t5 = t4 * vx;
         eqv<T>((a * b + (a - b)) / b * a, t5, "chain", x, y);
         ev("chain");
      } else if constexpr(std::is_unsigned_v<T>) {
         eqv<T>(a * b + (a - b) * a - (b | a), T(x * y + (x - y) * x - (y | x)), "chain", x, y);
      }
   }
   c.nontrivial = true;
}

template <class U, class T> bool castable(T x) {
   if constexpr(std::is_same_v<U, bool> || std::is_same_v<T, bool>) return true;
   else if constexpr(std::is_floating_point_v<T> && std::is_integral_v<U>) {
      long double t = std::trunc((long double)x);
      return std::isfinite(x) && t >= (long double)std::numeric_limits<U>::min() && t <= (long double)std::numeric_limits<U>::max();
   } else if constexpr(std::is_floating_point_v<T> && std::is_floating_point_v<U> && sizeof(U) < sizeof(T)) {
      return std::isnan(x) || std::isinf(x) || std::abs((long double)x) <= (long double)std::numeric_limits<U>::max();
   } else return true;
}

template <class T, class U, class M> void cast1(T x, M m, const char* name) {
   if(!castable<U>(x)) {
      ev("cast-out-of-range");
      return;
   }
   volatile T vx = x;
   U w = static_cast<U>(vx);
   Strict<T> a{x};
   auto got = m(a);
   static_assert(std::is_same_v<decltype(got), Strict<U>>);
   auto chk = [&](U g, const char* how) {
      CHECK(same_bits<U>(g, w), str("cast ", name), how, " from ", typeid(T).name(), " ", show(x), " to ", typeid(U).name(), ": ", show(g), " expected ", show(w));
   };
   chk(got.val(), name);
   chk(strict_cast<U>(a).val(), "strict_cast(Strict)");
   chk(strict_cast<U>(x).val(), "strict_cast(builtin)");
   chk(builtin_cast<U>(a), "builtin_cast(Strict)");
   chk(builtin_cast<U>(x), "builtin_cast(builtin)");
   static_assert(std::is_same_v<decltype(strict_cast<U>(a)), Strict<U>> && std::is_same_v<decltype(builtin_cast<U>(a)), U>);
   if constexpr(spp::Real<T> && spp::Real<U>) {
      chk(real_cast<U>(a), "real_cast(Strict)");
      chk(real_cast<U>(x), "real_cast(builtin)");
      if constexpr(std::is_floating_point_v<U> && std::is_integral_v<T>) {
         chk(whole<U>(a).val(), "whole(Strict)");
         chk(whole<U>(x).val(), "whole(builtin)");
      }
   }
   ev("casts");
}

template <class T> void casts(Case& c) {
   Rng& r = c.r;
   T x = value<T>(r);
   if(r.chance(50)) x = T(r.in(std::is_signed_v<T> ? -100000 : 0, 100000)) / T(std::is_floating_point_v<T> ? 16 : 1);
   logs("casts of ", typeid(T).name(), " ", show(x));
   c.note(typeid(T).name());
   c.note("cast " + show(x));
   cast1<T, bool>(x, [](auto a) { return a.sb(); }, "sb");
   cast1<T, int>(x, [](auto a) { return a.si(); }, "si");
   cast1<T, long>(x, [](auto a) { return a.sl(); }, "sl");
   cast1<T, unsigned>(x, [](auto a) { return a.sui(); }, "sui");
   cast1<T, unsigned long>(x, [](auto a) { return a.sul(); }, "sul");
   cast1<T, float>(x, [](auto a) { return a.sf(); }, "sf");
   cast1<T, double>(x, [](auto a) { return a.sd(); }, "sd");
   cast1<T, long double>(x, [](auto a) { return a.sld(); }, "sld");
#ifdef STRICT_QUAD_PRECISION
   if constexpr(true) {
      volatile T vx = x;
      float128 w = static_cast<float128>(vx);
      float128 g = Strict<T>{x}.sq().val();
      CHECK(g == w || (g != g && w != w), "cast sq", show(x));
      if(x == x) {
         Strict<float128> q{w};
         if(castable<T>(x)) CHECK(same_bits<T>(strict_cast<T>(q).val(), x), "cast from sq", show(x));
      }
      ev("quad-casts");
   }
#endif
   if(castable<unsigned long>(x)) {
      CHECK(to_size_t(Strict<T>{x}) == static_cast<std::size_t>(x) && to_size_t(x) == static_cast<std::size_t>(x), "to_size_t", show(x));
   }
   if(castable<long>(x)) {
      CHECK(to_index_t(Strict<T>{x}).val() == static_cast<long>(x) && to_index_t(x).val() == static_cast<long>(x), "to_index_t", show(x));
   }
   // named argument types carry their value unchanged
   auto keep = [&](auto named, const char* n) { CHECK(same_bits<T>(named.get().val(), x), "named", n, " ", show(x), " became ", show(named.get().val())); };
   keep(Low<T>{x}, "Low"), keep(High<T>{x}, "High"), keep(Value<T>{x}, "Value"), keep(Start<T>{x}, "Start"), keep(End<T>{x}, "End"), keep(Incr<T>{x}, "Incr");
   Strict<T> s{x};
   keep(Low{s}, "Low"), keep(High{s}, "High"), keep(Value{s}, "Value"), keep(Start{s}, "Start"), keep(End{s}, "End"), keep(Incr{s}, "Incr");
   if constexpr(std::is_same_v<T, int> || std::is_same_v<T, long>) {
      auto keepi = [&](auto make, const char* n, bool nonneg) {
         bool bad = nonneg && x < 0;
         long got = 0;
         bool t = throws([&] { got = make().get().val(); });
         CHECK(t == bad, "named-domain", n, " ", x, t ? " reported" : " accepted");
         if(!bad) CHECK(got == long(x), "named", n, " ", x, " became ", got);
      };
      keepi([&] { return First{x}; }, "First", true), keepi([&] { return First{s}; }, "First", true);
      keepi([&] { return Endmost{x}; }, "Endmost", true), keepi([&] { return Endmost{s}; }, "Endmost", true);
      keepi([&] { return Size{x}; }, "Size", true), keepi([&] { return Size{s}; }, "Size", true);
      keepi([&] { return Count{x}; }, "Count", true), keepi([&] { return Count{s}; }, "Count", true);
      keepi([&] { return Pos{x}; }, "Pos", true), keepi([&] { return Pos{s}; }, "Pos", true);
      keepi([&] { return Index{x}; }, "Index", true), keepi([&] { return Index{s}; }, "Index", true);
      keepi([&] { return Rows{x}; }, "Rows", true), keepi([&] { return Rows{s}; }, "Rows", true);
      keepi([&] { return Cols{x}; }, "Cols", true), keepi([&] { return Cols{s}; }, "Cols", true);
      keepi([&] { return Stride{x}; }, "Stride", false), keepi([&] { return Stride{s}; }, "Stride", false);
      keepi([&] { return ImplicitInt{x}; }, "ImplicitInt", false), keepi([&] { return ImplicitInt{s}; }, "ImplicitInt", false);
      T y = T(r.in(-1000, 1000));
      T z = T(r.in(-1000000, 1000000));
      CHECK((ImplicitInt{z} + ImplicitInt{y}).get().val() == long(z) + y, "implicit+", z, " ", y);
      CHECK((ImplicitInt{z} - ImplicitInt{y}).get().val() == long(z) - y, "implicit-", z, " ", y);
      CHECK((last - y).get().val() == y && (last + y).get().val() == -long(y) && (y + last).get().val() == -long(y), "last", y);
      CHECK((last - z + y).get().val() == long(z) - y, "last", z, " ", y);
      ev("named-int");
   }
   if constexpr(std::is_same_v<T, bool>) {
      CHECK(ImplicitBool{x}.get().val() == x && ImplicitBool{s}.get().val() == x, "ImplicitBool", x);
   }
   if constexpr(std::is_same_v<T, unsigned>) {
      CHECK(Seed{x}.get().val() == x && Seed{s}.get().val() == x, "Seed", x);
   }
   c.nontrivial = true;
}

template <class T> void konst(Strict<T> got, T want, const char* n) {
   CHECK(same_bits<T>(got.val(), want), "constant", n, ": ", show(got.val()), " expected ", show(want));
   ev("constants");
}
template <class T> void constants_of() {
   konst<T>(Zero<T>, T(0), "Zero");
   konst<T>(One<T>, T(1), "One");
   konst<T>(Thousand<T>, T(1000), "Thousand");
   konst<T>(Million<T>, T(1000000), "Million");
   konst<T>(Billion<T>, T(1000000000), "Billion");
   if constexpr(!std::is_unsigned_v<T>) konst<T>(NegOne<T>, T(-1), "NegOne");
   if constexpr(std::is_floating_point_v<T>) {
      konst<T>(constants::epsilon<T>, std::numeric_limits<T>::epsilon(), "epsilon");
      konst<T>(constants::pi<T>, T(3.14159265358979323846264338327950288L), "pi");
      konst<T>(constants::e<T>, T(2.71828182845904523536028747135266250L), "e");
      konst<T>(constants::sqrt2<T>, T(1.41421356237309504880168872420969808L), "sqrt2");
   }
}
#ifdef STRICT_QUAD_PRECISION
bool qsame(float128 a, float128 b) { return (a != a && b != b) || (a == b && signbitq(a) == signbitq(b)); }
std::string qshow(float128 x) {
   char b[80];
   quadmath_snprintf(b, sizeof b, "%.36Qg", x);
   return b;
}
float128 qvalue(Rng& r) {
   switch(r.below(4)) {
   case 0: return float128(r.in(-8, 8)) / 4;
   case 1: return r.pick({float128(0), -float128(0), float128(1) / 0.0Q, -float128(1) / 0.0Q, nanq(""), FLT128_MAX, FLT128_MIN, FLT128_EPSILON, 1 + FLT128_EPSILON});
   case 2: return ldexpq(float128(r.next()) * 18446744073709551616.0Q + r.next(), int(r.in(-16000, 15000)));
   default: return float128(r.in(-1000000000, 1000000000)) / 3;
   }
}
void quad_case(Case& c) {
   Rng& r = c.r;
   volatile float128 x = qvalue(r), y = r.chance(10) ? float128(x) : qvalue(r);
   const Strict128 a{float128(x)}, b{float128(y)};
   logs("quad ", qshow(x), " ", qshow(y));
#define Q(op)                                                                                      \
   {                                                                                               \
      float128 w = x op y;                                                                         \
      Strict128 z = a;                                                                             \
      auto& back = (z op##= b);                                                                    \
      CHECK(qsame((a op b).val(), w) && qsame(z.val(), w) && &back == &z, "quad " #op, qshow((a op b).val()), " expected ", qshow(w)); \
   }
   Q(+) Q(-) Q(*) Q(/)
#define QC(op) CHECK((a op b).val() == (x op y), "quad " #op, qshow(x), " ", qshow(y));
   QC(==) QC(!=) QC(<) QC(<=) QC(>) QC(>=)
   CHECK(equal(a, b).val() == (x == y), "quad equal", "equal");
   CHECK(qsame((-a).val(), -x) && qsame((+a).val(), x), "quad unary", qshow(x));
   Strict128 u = a;
   CHECK(qsame((u++).val(), x) && qsame(u.val(), x + 1) && qsame((--u).val(), (x + 1) - 1), "quad ++", qshow(x));
   CHECK(qsame(strict_cast<float128>(a).val(), x) && same_bits<double>(a.sd().val(), double(x)) && same_bits<float>(a.sf().val(), float(x))
         && same_bits<long double>(a.sld().val(), (long double)x) && a.sb().val() == bool(x), "quad casts", qshow(x));
   CHECK(qsame((0.1_sq).val(), strtoflt128("0.1", nullptr)) && qsame((123456.789e-5_SQ).val(), strtoflt128("123456.789e-5", nullptr)) && qsame((3_sq).val(), 3), "quad literals", "literals");
   CHECK(qsame(constants::pi<float128>.val(), M_PIq) && qsame(constants::e_sq.val(), M_Eq) && qsame(constants::sqrt2_sq.val(), M_SQRT2q) && qsame(constants::epsilon_sq.val(), FLT128_EPSILON),
         "quad constants", "constants");
   ev("quad-ops");
}
#endif

void literals_case(Case& c) {
#ifdef STRICT_QUAD_PRECISION
   for(int i = 0; i < 20; ++i) quad_case(c);
#endif
   Rng& r = c.r;
   constants_of<int>(), constants_of<long>(), constants_of<unsigned>(), constants_of<unsigned long>();
   constants_of<float>(), constants_of<double>(), constants_of<long double>();
   konst<bool>(true_sb, true, "true_sb"), konst<bool>(false_sb, false, "false_sb"), konst<bool>(Zero<bool>, false, "Zero"), konst<bool>(One<bool>, true, "One");
   konst<float>(constants::pi_sf, float(M_PIl), "pi_sf"), konst<double>(constants::pi_sd, double(M_PIl), "pi_sd"), konst<long double>(constants::pi_sld, M_PIl, "pi_sld");
   konst<float>(constants::e_sf, float(M_El), "e_sf"), konst<double>(constants::e_sd, double(M_El), "e_sd"), konst<long double>(constants::e_sld, M_El, "e_sld");
   konst<float>(constants::sqrt2_sf, float(M_SQRT2l), "sqrt2_sf"), konst<double>(constants::sqrt2_sd, double(M_SQRT2l), "sqrt2_sd"), konst<long double>(constants::sqrt2_sld, M_SQRT2l, "sqrt2_sld");
   konst<float>(constants::epsilon_sf, 0x1p-23f, "epsilon_sf"), konst<double>(constants::epsilon_sd, 0x1p-52, "epsilon_sd"), konst<long double>(constants::epsilon_sld, 0x1p-63L, "epsilon_sld");
#define LI(v) konst<int>(v##_si, v, #v "_si"); konst<int>(v##_SI, v, #v "_SI"); konst<long>(v##_sl, v, #v "_sl"); konst<long>(v##_SL, v, #v "_SL"); \
   konst<unsigned>(v##_sui, v, #v "_sui"); konst<unsigned>(v##_SUI, v, #v "_SUI"); konst<unsigned long>(v##_sul, v, #v "_sul"); konst<unsigned long>(v##_SUL, v, #v "_SUL");
   LI(0) LI(1) LI(2) LI(7) LI(100) LI(65536) LI(2147483647) LI(0x7F) LI(1'000'000)
   konst<unsigned>(4294967295_sui, 4294967295U, "max sui"), konst<unsigned>(2147483648_SUI, 2147483648U, "2^31 SUI");
   konst<unsigned long>(18446744073709551615_sul, ~0UL, "max sul"), konst<unsigned long>(9223372036854775808_SUL, 1UL << 63, "2^63 SUL");
   konst<long>(9223372036854775807_sl, std::numeric_limits<long>::max(), "max sl"), konst<long>(4294967296_SL, 1L << 32, "2^32 SL");
#define LF(v) konst<float>(v##_sf, float(v##L), #v "_sf"); konst<float>(v##_SF, float(v##L), #v "_SF"); konst<double>(v##_sd, double(v##L), #v "_sd"); konst<double>(v##_SD, double(v##L), #v "_SD"); \
   konst<long double>(v##_sl, v##L, #v "_sl"); konst<long double>(v##_SL, v##L, #v "_SL");
   LF(0.) LF(1.) LF(0.1) LF(3.25) LF(1e10) LF(1.7976931348623157e30) LF(2.5e-30) LF(123456789.125) LF(0.3333333333333333333333333)
   logs("literals and constants ", r.below(1000000));
   c.note("literals");
   c.nontrivial = true;
}

int main(int argc, char** argv) {
   return run(argc, argv, [](Case& c) {
      dispatch<17>(c, []<int K>(Case& c) {
         constexpr int N = K / 2;
         using T = std::tuple_element_t<N < 8 ? N : 0, std::tuple<int, long, unsigned, unsigned long, float, double, long double, bool>>;
         if constexpr(N == 8) literals_case(c);
         else if constexpr(K % 2) {
            for(int i = 0; i < 5; ++i) casts<T>(c);
         } else {
            for(int i = 0; i < 20; ++i) ops<T>(c);
         }
      });
   });
}
