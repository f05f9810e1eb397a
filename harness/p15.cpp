// P15: operations that would mix types are offered to the library; one that is accepted is executed and reported.
// Operations of one type and explicit conversions must be accepted and right.
#include "operands.hpp"
#include <span>
using namespace h;
using namespace spp;

// Probes whose rejection is an error inside the library rather than in the choice of an overload: the driver compiles
// the program, finds the probes the errors belong to, leaves these out and compiles again (see jobs.py).  A probe is
// named by its line, the line its group was called from and the kind of workload.
template <int LINE, int L, int K> constexpr bool skipped = false;
#ifdef SKIPPED
#include SKIPPED
#else
inline const std::size_t n_rejected_inside = 0, n_undecided = 0;
#endif
inline u64 probes = 0;
// Construction through a function of its own: an inherited constructor hides the place it was called from.
template <class A, class... X> auto make(X&&... x) -> decltype(A(std::forward<X>(x)...)) { return A(std::forward<X>(x)...); }
template <class A, class X> auto list(X x, X y) -> decltype(A{x, y}) { return A{x, y}; }
template <class A, class X, class Y> auto list(X x, Y y) -> decltype(A{x, y}) { return A{x, y}; }
template <class A, class X> auto table(X x) -> decltype(A{{x, x}, {x, x}}) { return A{{x, x}, {x, x}}; }


// R: must be rejected.
#define R(name, ...)                                                                                                  \
   if constexpr(!skipped<__LINE__, L, K>) {                                                                                 \
      ++probes;                                                                                                       \
      if constexpr(requires { __VA_ARGS__; }) {                                                                       \
         try {                                                                                                        \
            (void)(__VA_ARGS__);                                                                                      \
         } catch(const StrictException&) {                                                                            \
         }                                                                                                            \
         record(str("accepts ", name), str("the library accepts and executes ", #__VA_ARGS__, " with ", types));       \
      }                                                                                                               \
   } else                                                                                                             \
      ++probes
// Y: must be accepted.
#define Y(name, ...)                                                                                                  \
   do {                                                                                                               \
      ++probes;                                                                                                       \
      if constexpr(requires { __VA_ARGS__; }) (void)(__VA_ARGS__);                                                    \
      else record(str("rejects ", name), str("the library rejects ", #__VA_ARGS__, " with ", types));                 \
   } while(0)

template <class T> const char* tn() {
   if constexpr(std::is_same_v<T, bool>) return "bool";
   if constexpr(std::is_same_v<T, char>) return "char";
   if constexpr(std::is_same_v<T, short>) return "short";
   if constexpr(std::is_same_v<T, int>) return "int";
   if constexpr(std::is_same_v<T, long>) return "long";
   if constexpr(std::is_same_v<T, long long>) return "long long";
   if constexpr(std::is_same_v<T, unsigned>) return "unsigned";
   if constexpr(std::is_same_v<T, unsigned long>) return "unsigned long";
   if constexpr(std::is_same_v<T, float>) return "float";
   if constexpr(std::is_same_v<T, double>) return "double";
   if constexpr(std::is_same_v<T, long double>) return "long double";
   return "other";
}
template <class T> constexpr bool FL = std::is_floating_point_v<T>;
template <class T> constexpr bool INT = std::is_integral_v<T> && !std::is_same_v<T, bool>;

// One value of a type against another operand (wrapped or built-in) of a different type.
template <int L, int K, class A, class B> void binary(A x, B y, const std::string& types, const char* kind) {
   auto n = [&](const char* op) { return str("scalar ", op, " ", kind); };
   R(n("+"), x + y);
   R(n("-"), x - y);
   R(n("*"), x * y);
   R(n("/"), x / y);
   R(n("%"), x % y);
   R(n("&"), x & y);
   R(n("|"), x | y);
   R(n("^"), x ^ y);
   R(n("<<"), x << y);
   R(n(">>"), x >> y);
   if constexpr(std::is_class_v<A> && std::is_class_v<B>) {   // with a built-in operand it is the language's own
      R(n("&&"), x && y);
      R(n("||"), x || y);
   }
   R(n("=="), x == y);
   R(n("!="), x != y);
   R(n("<"), x < y);
   R(n("<="), x <= y);
   R(n(">"), x > y);
   R(n(">="), x >= y);
   R(n("equal"), equal(x, y));
   R(n("mins"), mins(x, y));
   R(n("maxs"), maxs(x, y));
   R(n("pows"), pows(x, y));
   R(n("fmas"), fmas(x, y, x));
   R(n("clamps"), clamps(x, x, y));
   R(n("two_sums"), two_sums(x, y));
   R(n("two_prods"), two_prods(x, y));
   R(n("within_tol_abs"), within_tol_abs(x, y));
   R(n("within_tol_rel"), within_tol_rel(x, y));
   R(n("rel_error"), rel_error(x, y));
   R(n("rands"), rands(x, y));
   R(n("conditional"), true ? x : y);
}
template <int L, int K, class A, class B> void into(A x, B y, const std::string& types, const char* kind) {
   auto n = [&](const char* op) { return str("scalar ", op, " ", kind); };
   R(n("="), x = y);
   R(n("+="), x += y);
   R(n("-="), x -= y);
   R(n("*="), x *= y);
   R(n("/="), x /= y);
   R(n("%="), x %= y);
   R(n("<<="), x <<= y);
   R(n(">>="), x >>= y);
   R(n("&="), x &= y);
   R(n("|="), x |= y);
   R(n("^="), x ^= y);
   R(n("construct"), make<A>(y));
   R(n("construct{}"), A{y});
   R(n("= {}"), x = {y});
   R(n("conversion"), [](A) {}(y));
}
template <int L, int K, class T, class U> void scalars(Case& c) {
   T t = T(rnd<T>(c.r, 1, 9));
   U u = U(rnd<U>(c.r, 1, 9));
   auto types = str(tn<T>(), " and ", tn<U>());
   auto x = S<T>(t);
   auto y = S<U>(u);
   binary<__LINE__, K>(x, y, types, "wrapped");
   binary<__LINE__, K>(x, u, types, "built-in right");
   binary<__LINE__, K>(t, y, types, "built-in left");
   into<__LINE__, K>(x, y, types, "wrapped");
   into<__LINE__, K>(x, u, types, "built-in");
   into<__LINE__, K>(t, y, types, "to built-in");
   R("named Value", [](Value<T>) {}(Value<U>{y}));
   R("named Low", Low<T>{y});
   R("named Value construct", Value<T>{u});
   R("named range", rands(Low<T>{x}, High<U>{y}));
   R("implicit unwrap", [](T) {}(y));
   R("implicit unwrap", [](U) {}(x));
   if constexpr(std::is_same_v<T, bool>) R("assertion value", true_sb && y);
   // Explicit conversions.
   Y("strict_cast", strict_cast<T>(y));
   Y("builtin_cast", builtin_cast<T>(y));
   auto z = strict_cast<T>(y);
   CHECK(z.val() == static_cast<T>(u), "strict_cast", types, " ", show(u));
   if constexpr(!std::is_same_v<T, bool>) {
      Y("use after cast", x + strict_cast<T>(y));
      auto s = x + strict_cast<T>(y);
      CHECK(s.val() == T(t + static_cast<T>(u)), "use after cast", types);
   }
   Y("comparison after cast", x == strict_cast<T>(y));
   Y("assignment after cast", z = strict_cast<T>(y));
}
// Built-in types the library does not wrap.
template <int L, int K, class T, class U> void foreign(Case& c) {
   T t = T(rnd<T>(c.r, 1, 9));
   U u = U(c.r.in(1, 9));
   auto types = str(tn<T>(), " and ", tn<U>());
   auto x = S<T>(t);
   binary<__LINE__, K>(x, u, types, "other built-in right");
   binary<__LINE__, K>(u, x, types, "other built-in left");
   into<__LINE__, K>(x, u, types, "other built-in");
   into<__LINE__, K>(u, x, types, "to other built-in");
   Array1D<T> a(3L);
   R("array = other built-in", a = u);
   R("array + other built-in", (a + u).eval());
   R("other built-in * array", (u * a).eval());
   R("list of other built-in", list<Array1D<T>>(u, u));
}
// Contextual conversion.
template <int L, int K, class T> void conditions(Case& c) {
   auto types = std::string(tn<T>());
   auto x = S<T>(T(rnd<T>(c.r, 1, 9)));
   Array1D<T> a(3L);
   if constexpr(!std::is_same_v<T, bool>) {
      R("condition", x ? 1 : 0);
      R("negation", !x);
      R("conjunction", x && x);
      R("array negation", (!a).eval());
      R("array conjunction", (a && a).eval());
   } else {
      R("bool arithmetic", x + x);
      R("bool arithmetic", -x);
      R("bool arithmetic", x * x);
      R("bool increment", ++x);
      R("bool array arithmetic", (a + a).eval());
      R("bool array arithmetic", (a * a).eval());
   }
   if constexpr(FL<T>) {
      R("floating %", x % x);
      R("floating &", x & x);
      R("floating <<", x << x);
      R("floating array %", (a % a).eval());
      R("floating array &", (a & a).eval());
      R("floating array >>", (a >> a).eval());
   }
}

// Two arrays or expressions of different element types.
template <int L, int K, class A, class B> void elementwise(A& a, B& b, const std::string& types, const char* kind) {
   auto n = [&](const char* op) { return str("array ", op, " ", kind); };
   R(n("+"), (a + b).eval());
   R(n("-"), (a - b).eval());
   R(n("*"), (a * b).eval());
   R(n("/"), (a / b).eval());
   R(n("%"), (a % b).eval());
   R(n("&"), (a & b).eval());
   R(n("|"), (a | b).eval());
   R(n("^"), (a ^ b).eval());
   R(n("<<"), (a << b).eval());
   R(n(">>"), (a >> b).eval());
   R(n("&&"), (a && b).eval());
   R(n("||"), (a || b).eval());
   R(n("=="), a == b);
   R(n("!="), a != b);
   R(n("equal"), equal(a, b));
   R(n("dot_prod"), dot_prod(a, b));
   R(n("stable_dot_prod"), stable_dot_prod(a, b));
   R(n("within_tol_abs"), within_tol_abs(a, b));
   R(n("within_tol_rel"), within_tol_rel(a, b));
   R(n("max_rel_error"), max_rel_error(a, b));
   R(n("pow"), pow(a, b));
   R(n("two_prod"), two_prod(a, b));
}
template <int L, int K, class A, class B> void store(A& a, B& b, const std::string& types, const char* kind) {
   auto n = [&](const char* op) { return str("array ", op, " ", kind); };
   R(n("="), a = b);
   R(n("= evaluated"), a = b.eval());
   R(n("= moved"), a = std::move(b));
   R(n("+="), a += b);
   R(n("-="), a -= b);
   R(n("*="), a *= b);
   R(n("/="), a /= b);
   R(n("%="), a %= b);
   R(n("&="), a &= b);
   R(n("|="), a |= b);
   R(n("^="), a ^= b);
   R(n("<<="), a <<= b);
   R(n("swap"), a.swap(b));
}
template <int L, int K, class A, class V> void with_value(A& a, V y, const std::string& types, const char* kind) {
   auto n = [&](const char* op) { return str("array ", op, " ", kind); };
   R(n("= x"), a = y);
   R(n("+= x"), a += y);
   R(n("*= x"), a *= y);
   R(n("/= x"), a /= y);
   R(n("%= x"), a %= y);
   R(n("+ x"), (a + y).eval());
   R(n("- x"), (a - y).eval());
   R(n("* x"), (a * y).eval());
   R(n("/ x"), (a / y).eval());
   R(n("x +"), (y + a).eval());
   R(n("x -"), (y - a).eval());
   R(n("x *"), (y * a).eval());
   R(n("x /"), (y / a).eval());
   R(n("& x"), (a & y).eval());
   R(n("x %"), (y % a).eval());
   R(n("== x"), a == y);
   R(n("any_of x"), any_of(a, y));
   R(n("all_of x"), all_of(a, y));
   R(n("none_of Value"), none_of(a, Value{y}));
   R(n("sum default"), sum(a, y));
   R(n("min default"), min(a, y));
   R(n("dot_prod default"), dot_prod(a, a, y));
   R(n("mean default"), mean(a, y));
   R(n("within_tol_abs tolerance"), within_tol_abs(a, a, y));
   R(n("within_tol_rel tolerance"), within_tol_rel(a, a, y));
   R(n("pow x"), pow(a, y));
   R(n("random range"), random(a, y, y));
   R(n("random named range"), random(a, Low{y}, High{y}));
   R(n("semi_random range"), semi_random(a, y, y));
   R(n("polynomial x"), polynomial(a, y));
   R(n("in_open_range"), in_open_range(a, y, y));
   R(n("in_closed_range"), in_closed_range(a, Low{y}, High{y}));
}
template <int L, int K, class T, class U> void arrays1(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(2, 5);
   auto types = str(tn<T>(), " and ", tn<U>());
   auto v = rvec<T>(r, n, 1, 9);
   auto w = rvec<U>(r, n, 1, 9);
   auto a = mk1<Array1D<T>>(v);
   auto b = mk1<Array1D<U>>(w);
   auto u = b.un(0).val();
   auto y = b.un(0);
   FixedArray1D<T, 3> fa;
   FixedArray1D<U, 3> fb;
   Array1D<T, Aligned> al(a);
   auto sb = b(place::reverse);
   auto lb = b({0, 1});
   auto vb = b.view1D();
   const auto& cb = b;
   elementwise<__LINE__, K>(a, b, types, "arrays");
   elementwise<__LINE__, K>(a, sb, types, "slice");
   elementwise<__LINE__, K>(sb, a, types, "slice left");
   elementwise<__LINE__, K>(a, lb, types, "list");
   elementwise<__LINE__, K>(a, vb, types, "view");
   elementwise<__LINE__, K>(fa, fb, types, "fixed");
   elementwise<__LINE__, K>(al, cb, types, "aligned, const");
   store<__LINE__, K>(a, b, types, "arrays");
   store<__LINE__, K>(a, sb, types, "slice");
   store<__LINE__, K>(fa, fb, types, "fixed");
   store<__LINE__, K>(al, vb, types, "aligned, view");
   auto sa = a(place::reverse);
   R("slice = array", sa = b);
   R("slice += array", sa += b);
   R("slice = slice", sa = sb);
   R("slice = x", sa = y);
   R("list = x", a({0, 1}) = y);
   R("view = array", a.view1D() = b);
   with_value<__LINE__, K>(a, y, types, "wrapped");
   with_value<__LINE__, K>(a, u, types, "built-in");
   with_value<__LINE__, K>(fa, y, types, "fixed, wrapped");
   with_value<__LINE__, K>(sa, y, types, "slice, wrapped");
   R("construct from array", make<Array1D<T>>(b));
   R("construct from moved", make<Array1D<T>>(std::move(b)));
   R("construct from slice", make<Array1D<T>>(sb));
   R("construct from iterators", make<Array1D<T>>(b.begin(), b.end()));
   R("construct fixed", make<FixedArray1D<T, 3>>(fb));
   R("construct with value", make<Array1D<T>>(2, y));
   R("construct with named value", make<Array1D<T>>(Size{2}, Value{y}));
   R("construct fixed with value", make<FixedArray1D<T, 3>>(y));
   R("construct from list", list<Array1D<T>>(y, y));
   R("construct from mixed list", list<Array1D<T>>(a.un(0), y));
   R("construct from built-in list", list<Array1D<T>>(u, u));
   R("assign list", a = {y, y});
   R("assign mixed list", a = {a.un(0), y});
   R("insert value", a.insert(0, y));
   R("insert built-in", a.insert(0, u));
   R("insert named", a.insert(Pos{0}, Value{y}));
   R("insert array", a.insert(0, b));
   R("insert slice", a.insert_back(sb));
   R("insert_front value", a.insert_front(y));
   R("resize_and_assign", a.resize_and_assign(b));
   R("resize_and_assign moved", a.resize_and_assign(std::move(b)));
   R("element =", a[0] = y);
   R("element +=", a[0] += y);
   R("element = built-in", a.at(0) = u);
   R("element = b[0]", a[0] = b[0]);
   R("merge", merge(a, b));
   R("merge value", merge(a, y));
   R("merge value left", merge(y, a));
   R("merge three", merge(a, a, b));
   R("linspace", linspace<T>(4, a.un(0), y));
   R("sequence", sequence<T>(4, a.un(0), y));
   R("sequence both", sequence<T>(4, y, y));
   R("const1D", const1D<T>(4, y));
   R("random", random<T>(4, y, y));
   R("copy iterators", std::copy(b.begin(), b.end(), a.begin()));
   R("for_each type", for_each(a, [](Strict<U>&) {}));
   R("data type", [](Strict<T>*) {}(b.data()));
   // Explicit and same-type.
   Y("array_cast", array_cast<T>(b).eval());
   auto k = array_cast<T>(b).eval();
   for(i64 i = 0; i < n; ++i) CHECK(k.un(long(i)).val() == static_cast<T>(b.un(long(i)).val()), "array_cast", types);
   if constexpr(!std::is_same_v<T, bool>) {
      Y("sum after cast", (a + array_cast<T>(b)).eval());
      Y("+= after cast", a += array_cast<T>(b));
   }
   Y("= after cast", a = array_cast<T>(b));
   Y("construct after cast", Array1D<T>(array_cast<T>(b)));
   Y("insert after cast", a.insert(0, array_cast<T>(b)));
}
template <int L, int K, class T, class U> void arrays2(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(2, 4), m = r.in(2, 4);
   auto types = str(tn<T>(), " and ", tn<U>());
   auto a = mk2<Array2D<T>>(rmat<T>(r, m, n, 1, 9));
   auto b = mk2<Array2D<U>>(rmat<U>(r, m, n, 1, 9));
   auto y = b.un(0, 0);
   auto u = y.val();
   FixedArray2D<T, 2, 3> fa;
   FixedArray2D<U, 2, 3> fb;
   auto sb = b(place::reverse, place::all);
   auto rb = b.rows({1, 0});
   elementwise<__LINE__, K>(a, b, types, "2D arrays");
   elementwise<__LINE__, K>(a, sb, types, "2D slice");
   elementwise<__LINE__, K>(a, rb, types, "2D rows");
   elementwise<__LINE__, K>(fa, fb, types, "2D fixed");
   store<__LINE__, K>(a, b, types, "2D arrays");
   store<__LINE__, K>(fa, fb, types, "2D fixed");
   with_value<__LINE__, K>(a, y, types, "2D wrapped");
   with_value<__LINE__, K>(a, u, types, "2D built-in");
   auto row = a.row(0);
   auto brow = b.row(0);
   elementwise<__LINE__, K>(row, brow, types, "row");
   R("row = row", a.row(0) = b.row(0));
   R("col = x", a.col(0) = y);
   R("block =", a.block(0, 0, 1, 1) = b.block(0, 0, 1, 1));
   R("construct 2D", make<Array2D<T>>(b));
   R("construct 2D moved", make<Array2D<T>>(std::move(b)));
   R("construct 2D value", make<Array2D<T>>(2, 2, y));
   R("construct 2D named value", make<Array2D<T>>(Rows{2}, Cols{2}, Value{y}));
   R("construct 2D list", table<Array2D<T>>(y));
   R("construct 2D fixed", make<FixedArray2D<T, 2, 3>>(fb));
   R("resize_and_assign 2D", a.resize_and_assign(b));
   R("insert_rows", a.insert_rows(0, b));
   R("insert_row", a.insert_row(0, b.row(0)));
   R("insert_cols", a.insert_cols_back(b));
   R("insert_col", a.insert_col_front(b.col(0)));
   R("element 2D =", a(0, 0) = y);
   R("element 2D = built-in", a.at(0, 0) = u);
   R("merge_horizontal", merge_horizontal(a, b).eval());
   R("merge_vertical", merge_vertical(a, b).eval());
   R("transpose sum", (transpose(a) + transpose(b)).eval());
   R("matvec", matvec_prod(a, b.row(0)).eval());
   R("tensor", tensor(a.row(0), b.row(0)).eval());
   R("const2D", const2D<T>(2, 2, y));
   R("random 2D", random<T>(2, 2, y, y));
   Y("array_cast 2D", array_cast<T>(b).eval());
   Y("= after cast 2D", a = array_cast<T>(b));
   Y("insert_rows after cast", a.insert_rows(0, array_cast<T>(b)));
   Y("merge_vertical after cast", merge_vertical(a, array_cast<T>(b)).eval());
   if constexpr(!std::is_same_v<T, bool>) Y("matvec after cast 2D", (a + array_cast<T>(a)).eval());
}

// Indexes, positions and sizes of the wrong type.
template <int L, int K, class T, class I> void index_with(I i, const std::string& types, const char* kind) {
   auto n = [&](const char* op) { return str("index ", op, " ", kind); };
   Array1D<T> a(6L);
   Array2D<T> m(4L, 4L);
   FixedArray1D<T, 6> f;
   auto s = a(place::reverse);
   auto e = a == a ? 1 : 0;
   (void)e;
   R(n("[]"), a[i]);
   R(n("at"), a.at(i));
   R(n("un"), a.un(i));
   R(n("fixed []"), f[i]);
   R(n("slice []"), s[i]);
   R(n("2D ()"), m(i, i));
   R(n("2D () first"), m(i, 1));
   R(n("2D () second"), m(1, i));
   R(n("2D at"), m.at(i, 0));
   R(n("2D un"), m.un(0, i));
   R(n("2D un flat"), m.un(i));
   R(n("last -"), a[last - i]);
   R(n("row"), m.row(i));
   R(n("col"), m.col(i));
   R(n("diag"), m.diag(i));
   R(n("block"), m.block(0, 0, i, 1));
   R(n("blockN"), m.blockN(0, 0, i, 1));
   R(n("seq"), a(seq{0, i}));
   R(n("seq stride"), a(seq{0, 4, i}));
   R(n("seqN"), a(seqN{0, i}));
   R(n("seqN first"), a(seqN{i, 1}));
   R(n("firstN"), a(place::firstN{i}));
   R(n("lastN"), a(place::lastN{i}));
   R(n("skipN"), a(place::skipN{i}));
   R(n("list"), a({i, i}));
   R(n("complement"), a(place::complement{{i}}));
   R(n("size"), Array1D<T>(i));
   R(n("size, value"), Array1D<T>(i, Zero<T>));
   R(n("shape"), Array2D<T>(i, i));
   R(n("shape rows"), Array2D<T>(i, 2));
   R(n("shape cols"), Array2D<T>(2, i));
   R(n("resize"), a.resize(i));
   R(n("resize 2D"), m.resize(i, 2));
   R(n("insert"), a.insert(i, Zero<T>));
   R(n("remove"), a.remove(i));
   R(n("remove count"), a.remove(0, i));
   R(n("remove_front"), a.remove_front(i));
   R(n("remove_back"), a.remove_back(i));
   R(n("remove list"), a.remove({i}));
   R(n("remove_row"), m.remove_row(i));
   R(n("remove_cols"), m.remove_cols(0, i));
   R(n("insert_row"), m.insert_row(i, m.row(0)));
   R(n("insert_cols"), m.insert_cols(i, m));
   R(n("view2D"), a.view2D(i, 3));
   R(n("const1D"), const1D<T>(i, Zero<T>));
   R(n("const2D"), const2D<T>(2, i, Zero<T>));
   R(n("e_unit"), e_unit<T>(i, 4));
   R(n("e_unit size"), e_unit<T>(0, i));
   R(n("identity"), identity<T>(i));
   R(n("exclude"), exclude(a, i));
   R(n("random size"), random<T>(i));
   R(n("random shape"), random<T>(2, i));
   R(n("semi_random size"), semi_random<T>(i));
   R(n("Size"), Size{i});
   R(n("Count"), Count{i});
   R(n("Pos"), Pos{i});
   R(n("Index"), Index{i});
   R(n("First"), First{i});
   R(n("Endmost"), Endmost{i});
   R(n("Stride"), Stride{i});
   R(n("Rows"), Rows{i});
   R(n("Cols"), Cols{i});
   R(n("ImplicitInt"), ImplicitInt{i});
   R(n("ImplicitInt argument"), [](ImplicitInt) {}(i));
   R(n("index_t"), [](index_t) {}(i));
   R(n("attach1D"), [&] { auto p = a.data(); return attach1D(p, i); }());
   R(n("attach2D"), [&] { auto p = a.data(); return attach2D(p, i, 2); }());
   R(n("sequence"), sequence<double>(i, Zero<double>, One<double>));
   R(n("linspace"), linspace<double>(i, Zero<double>, One<double>));
   R(n("irange"), irange(i));
   R(n("factorial"), factorial(i));
   R(n("pows_int"), pows_int(One<double>, i));
   R(n("fast_pows_int"), fast_pows_int(One<double>, i));
}
// Accepted ones.
template <class T, class I> void index_ok(I i, const std::string& types) {
   Array1D<T> a(6L);
   Array2D<T> m(4L, 4L);
   Y("index []", a[i]);
   Y("index at", a.at(i));
   Y("index 2D", m(i, i));
   Y("index last", a[last - i]);
   Y("index row", m.row(i));
   Y("index seq", a(seq{0, i}));
   Y("index seqN", a(seqN{0, i}));
   Y("index list", a({i, i}));
   Y("index size", Array1D<T>(i));
   Y("index Size", Size{i});
   Y("index Pos", Pos{i});
   Y("index resize", a.resize(i));
   Y("index insert", a.insert(i, Zero<T>));
   Y("index remove", a.remove(i));
   Y("index shape", Array2D<T>(i, i));
   Y("index view2D", m.view2D(i, 16L / builtin_cast<long>(i)));
   Y("index const1D", const1D<T>(i, Zero<T>));
   Y("index exclude", exclude(m.view1D(), i));
   Y("index random", random<T>(i));
}

constexpr int NT = 8;
template <int I> using type_at = std::tuple_element_t<I, std::tuple<bool, int, unsigned, long, unsigned long, float, double, long double>>;
constexpr int PAIRS = NT * (NT - 1);
// Pairs whose arrays are offered too; rejections there cost much compilation.
constexpr int pair_of(int t, int u) { return t * (NT - 1) + (u > t ? u - 1 : u); }
constexpr bool ARRAYS(int k) {
   for(int x : {pair_of(0, 1), pair_of(1, 0), pair_of(1, 2), pair_of(2, 1), pair_of(1, 3), pair_of(3, 1), pair_of(3, 4), pair_of(1, 6), pair_of(6, 1), pair_of(5, 6), pair_of(6, 5), pair_of(6, 7)})
      if(x == k) return true;
   return false;
}
template <int P> using first_of = type_at<P / (NT - 1)>;
template <int P> using second_of = type_at<(P % (NT - 1)) + (P % (NT - 1) >= P / (NT - 1))>;

int main(int argc, char** argv) {
   return h::run(argc, argv, [](Case& c) {
      probes = 0;
      dispatch<PAIRS + 3 * NT>(c, []<int K>(Case& c) {
         if constexpr(K < PAIRS) {
            using T = first_of<K>;
            using U = second_of<K>;
            scalars<0, K, T, U>(c);
            ev("scalars");
            if constexpr(ARRAYS(K)) {
            arrays1<0, K, T, U>(c);
            arrays2<0, K, T, U>(c);
            ev("arrays"), ev("matrices");
            }
            logs(tn<T>(), " with ", tn<U>());
         } else if constexpr(K < PAIRS + NT) {
            using T = type_at<K - PAIRS>;
            foreign<0, K, T, char>(c), foreign<0, K, T, short>(c), foreign<0, K, T, long long>(c), conditions<0, K, T>(c);
            ev("other built-in types"), ev("conditions");
            logs("foreign ", tn<T>());
         } else if constexpr(K < PAIRS + 2 * NT) {
            constexpr int k = K - PAIRS - NT;
            using U = type_at<k>;
            using T = std::conditional_t<k % 2, double, int>;
            auto types = str("an array of ", tn<T>(), " and an index of ", tn<U>());
            if constexpr(FL<U> || (INT<U> && std::is_unsigned_v<U>)) {
               index_with<1, K, T>(U(1), types, "built-in");
               index_with<2, K, T>(S<U>(U(1)), types, "wrapped");
               ev("wrong index");
            } else if constexpr(INT<U>) {
               index_ok<T>(U(c.r.in(1, 2)), types);
               index_ok<T>(S<U>(U(c.r.in(1, 2))), types);
               ev("right index");
            }
            logs("index ", tn<U>());
         } else {
            // Operations of one type.
            using T = type_at<K - PAIRS - 2 * NT>;
            auto types = std::string(tn<T>());
            auto x = S<T>(rnd<T>(c.r, 1, 9)), y = S<T>(rnd<T>(c.r, 1, 9));
            Y("==", x == y);
            Y("<", x < y);
            Y("=", x = y);
            Array1D<T> a(3L, x), b(3L, y);
            Y("array =", a = b);
            Y("array ==", a == b);
            Y("merge", merge(a, b).eval());
            Y("insert", a.insert(0, y));
            a.remove(0);
            if constexpr(!std::is_same_v<T, bool>) {
               Y("+", x + y);
               Y("/", x / y);
               Y("+=", x += y);
               Y("array +", (a + b).eval());
               Y("array + x", (a + x).eval());
               Y("x / array", (x / a).eval());
               Y("array +=", a += b);
               Y("sum", sum(a, x));
               Y("dot_prod", dot_prod(a, b));
            } else {
               Y("&&", x && y);
               Y("array &&", (a && b).eval());
               Y("condition", x ? 1 : 0);
            }
            if constexpr(INT<T>) {
               Y("%", x % y);
               Y("array %", (a % b).eval());
               Y("array <<", (a << b).eval());
            }
            ev("one type");
            logs("same ", tn<T>());
         }
      });
      g.checks += probes;
      ev("probes", probes);
      ev("rejected by the compiler", n_rejected_inside);
      if(n_undecided) ev("undecided", n_undecided);
      c.note(g.desc);
      c.note(c.id % 8);
      c.nontrivial = true;
   });
}
