// P13: what the library accepts and lets be stored stays valid; temporary owners are never accepted.
#include "operands.hpp"
using namespace h;
using namespace spp;
template <class T> using V = std::vector<T>;

// Overwrites the stack the temporaries lived on.
__attribute__((noinline)) void trash(int d = 3) {
   volatile unsigned char b[2048];
   for(size_t i = 0; i < sizeof b; ++i) b[i] = 0xA7;
   if(d) trash(d - 1);
   b[0] = b[1];
}

template <class E> auto contents(const E& e) {
   if constexpr(E::dimension().val() == 1) return vec(e);
   else return mat(e);
}
template <class T> V<T>& flat(V<T>& v) { return v; }
template <class T> V<T>& flat(Mat<T>& m) { return m.d; }
template <class E, class W> void later(const char* name, const E& e, W w, bool zeros = false) {
   trash();
   auto got = contents(e);
   if(zeros) {   // the sign of a zero is not compared
      for(auto& z : flat(got)) if(z == 0) z = 0;
      for(auto& z : flat(w)) if(z == 0) z = 0;
   }
   CHECK(eq(got, w), "stored", name, " stored and read later: ", show(got), " expected ", show(w));
   ev(str("stored.", name));
}

// ---- Part one: offers of temporary owners -------------------------------------------------------
// X is the temporary, l1/l2 lvalue arrays. An accepted offer is executed, its owner destroyed, the
// result read (the sanitizer sees a dangling read), and reported.
inline const bool triage = std::getenv("P13_TRIAGE") != nullptr;   // names every acceptance without executing it
#define OFFER(name, ...)                                                                           \
   {                                                                                               \
      ev("offered");                                                                               \
      auto probe = [&]<class R>(std::type_identity<R>) {                                           \
         if constexpr(requires(R& rr) { __VA_ARGS__; }) {                                          \
            auto* owner = new std::remove_const_t<R>(model);                                       \
            R& rr = *owner;                                                                        \
            logs("temporary owner accepted by ", name);                                            \
            if(!triage) {                                                                          \
               auto e = __VA_ARGS__;                                                               \
               delete owner;                                                                       \
               touch(e);                                                                           \
            } else delete owner;                                                                   \
            record(str("owner-accepted:", name), str("a temporary array that owns its data was accepted by ", name)); \
         }                                                                                         \
      };                                                                                           \
      probe(std::type_identity<RT>{});                                                             \
      c.note(name);                                                                                \
   }
#define X std::move(rr)
template <class E> void touch(const E& e) {
   if constexpr(std::is_pointer_v<E>) {
      volatile unsigned char v = *reinterpret_cast<const volatile unsigned char*>(e);
      (void)v;
   } else if constexpr(requires { e.first; e.second; }) {
      touch(e.first);
      touch(e.second);
   } else if constexpr(requires { (*e).val(); }) {
      volatile auto v = (*e).val();
      (void)v;
   } else if constexpr(requires { e.size(); }) {
      h::g.checks += vec(e).size();
   }
}

template <class L> auto part(L& l) {
   if constexpr(L::dimension().val() == 1) return l(place::reverse);
   else return l(place::reverse, place::all);
}
template <class L> auto twos(L& l) {
   if constexpr(L::dimension().val() == 1) return const1D(long(l.size().val()), 2_sl);
   else return const2D(long(l.rows().val()), long(l.cols().val()), 2_sl);
}
template <class RT, class L> void offers_real(Case& c, const RT& model, L& l1) {
   using A = std::remove_cvref_t<RT>;
   using T = bt<A>;
   auto s = S(T(2));
   auto sl = part(l1);
   auto ex = l1 + l1;
   auto f1 = [](auto x) { return x; };
   auto f2 = [](auto x, auto) { return x; };
   (void)s, (void)f1, (void)f2, (void)sl, (void)ex;
#define BIN(op)                                                                                    \
   OFFER("A" #op "B rvalue first", X op l1)                                                        \
   OFFER("A" #op "B rvalue second", l1 op X)                                                       \
   OFFER("A" #op "slice", X op sl)                                                                 \
   OFFER("slice" #op "A", sl op X)                                                                 \
   OFFER("A" #op "expr", X op ex)                                                                  \
   OFFER("expr" #op "A", ex op X)                                                                  \
   OFFER("A" #op "A", X op X)                                                                      \
   OFFER("A" #op "x", X op s)                                                                      \
   OFFER("x" #op "A", s op X)
   BIN(+) BIN(-) BIN(*) BIN(/)
   OFFER("+A", +X)
   OFFER("-A", -X)
   OFFER("generate(A,f)", generate(X, f1))
   OFFER("generate(A,B,f) first", generate(X, l1, f2))
   OFFER("generate(A,B,f) second", generate(l1, X, f2))
   OFFER("generate(A,B,f) both", generate(X, X, f2))
   OFFER("abs", abs(X))
   OFFER("pow_int", pow_int(X, 2))
   OFFER("fast_pow_int", fast_pow_int(X, 2))
   OFFER("array_cast", array_cast<long>(X))
   OFFER("array_cast same", array_cast<T>(X))
   if constexpr(std::is_integral_v<T>) {
      BIN(%) BIN(<<) BIN(>>) BIN(&) BIN(|) BIN(^)
      OFFER("~A", ~X)
   } else {
      OFFER("exp", exp(X))
      OFFER("log", log(X))
      OFFER("log2", log2(X))
      OFFER("log10", log10(X))
      OFFER("sqrt", sqrt(X))
      OFFER("cbrt", cbrt(X))
      OFFER("sin", sin(X))
      OFFER("cos", cos(X))
      OFFER("tan", tan(X))
      OFFER("pow", pow(X, s))
      OFFER("inv", inv(X))
      OFFER("two_prod first", two_prod(X, l1))
      OFFER("two_prod second", two_prod(l1, X))
      OFFER("two_prod slice", two_prod(sl, X))
      OFFER("two_prod both", two_prod(X, X))
      auto pw = twos(l1);
      (void)pw;
      OFFER("pow_prod first", pow_prod(X, pw))
   }
   if constexpr(std::is_same_v<T, long>) {
      auto base = array_cast<double>(l1);
      (void)base;
      OFFER("pow_prod second", pow_prod(base, X))
   }
   OFFER("begin", X.begin())
   OFFER("end", X.end())
   OFFER("cbegin", X.cbegin())
   OFFER("rbegin", X.rbegin())
   OFFER("crbegin", X.crbegin())
   OFFER("rend", X.rend())
   OFFER("data", X.data())
   OFFER("blas_data", X.blas_data())
   OFFER("view1D", X.view1D())
   OFFER("view2D", X.view2D(1, 1))
}
template <class RT, class L> void offers1(Case& c, const RT& model, L& l1) {
   using A = std::remove_cvref_t<RT>;
   using T = bt<A>;
   auto s = S(T(1));
   auto sl = l1(place::reverse);
   std::vector<ImplicitInt> il{0L, 1L};
   (void)s, (void)sl;
   Array2D<T> m(2, long(sz(l1)));
   OFFER("merge(A,B)", merge(X, l1))
   OFFER("merge(B,A)", merge(l1, X))
   OFFER("merge(slice,A)", merge(sl, X))
   OFFER("merge(A,slice)", merge(X, sl))
   OFFER("merge(A,A)", merge(X, X))
   OFFER("merge(A,B,C)", merge(X, l1, sl))
   OFFER("merge(B,A,C)", merge(l1, X, sl))
   OFFER("merge(B,C,A)", merge(l1, sl, X))
   OFFER("merge(A,x)", merge(X, s))
   OFFER("merge(A,x,y)", merge(X, s, s))
   OFFER("merge(x,A)", merge(s, X))
   OFFER("merge(x,y,A)", merge(s, s, X))
   OFFER("merge(x,y,z,A)", merge(s, s, s, X))
   OFFER("exclude(A,pos)", exclude(X, 0))
   OFFER("exclude(A,pos,n)", exclude(X, 0, 1))
   OFFER("exclude(A,Pos)", exclude(X, Pos{0}))
   OFFER("exclude(A,Pos,Count)", exclude(X, Pos{0}, Count{1}))
   OFFER("exclude(A,last)", exclude(X, last))
   OFFER("row_broadcast", row_broadcast(X))
   OFFER("col_broadcast", col_broadcast(X))
   OFFER("A(seqN)", X(seqN{0, 1}))
   OFFER("A(seq)", X(seq{0, 1}))
   OFFER("A(all)", X(place::all))
   OFFER("A(even)", X(place::even))
   OFFER("A(odd)", X(place::odd))
   OFFER("A(reverse)", X(place::reverse))
   OFFER("A(skipN)", X(place::skipN{2}))
   OFFER("A(firstN)", X(place::firstN{1}))
   OFFER("A(lastN)", X(place::lastN{1}))
   OFFER("A(complement)", X(place::complement{0}))
   OFFER("A(vector)", X(il))
   OFFER("A({list})", X({0, 1}))
   if constexpr(spp::Real<T>) {
      OFFER("in_open_range", in_open_range(X, s, s))
      OFFER("in_open_range named", in_open_range(X, Low{T(0)}, High{T(1)}))
      OFFER("in_closed_range", in_closed_range(X, s, s))
      OFFER("in_closed_range named", in_closed_range(X, Low{T(0)}, High{T(1)}))
      OFFER("in_cond_range", in_cond_range(X, [](auto) { return true_sb; }))
      OFFER("tensor_prod(A,B)", tensor_prod(X, l1))
      OFFER("tensor_prod(B,A)", tensor_prod(l1, X))
      OFFER("tensor_prod(slice,A)", tensor_prod(sl, X))
      OFFER("tensor_prod(A,slice)", tensor_prod(X, sl))
      OFFER("tensor_prod(A,A)", tensor_prod(X, X))
      OFFER("matvec_prod(M,A)", matvec_prod(m, X))
      OFFER("matvec_prod(slice,A)", matvec_prod(m(place::all, place::all), X))
   }
}
template <class RT, class L> void offers2(Case& c, const RT& model, L& l1) {
   using A = std::remove_cvref_t<RT>;
   using T = bt<A>;
   auto sl = l1(place::all, place::all);
   std::vector<ImplicitInt> il{0L};
   Array1D<T> v(long(l1.cols().val()));
   OFFER("merge_horizontal(A,B)", merge_horizontal(X, l1))
   OFFER("merge_horizontal(B,A)", merge_horizontal(l1, X))
   OFFER("merge_horizontal(A,slice)", merge_horizontal(X, sl))
   OFFER("merge_horizontal(slice,A)", merge_horizontal(sl, X))
   OFFER("merge_horizontal(A,A)", merge_horizontal(X, X))
   OFFER("merge_horizontal(B,C,A)", merge_horizontal(l1, sl, X))
   OFFER("merge_horizontal(B,A,C)", merge_horizontal(l1, X, sl))
   OFFER("merge_vertical(A,B)", merge_vertical(X, l1))
   OFFER("merge_vertical(B,A)", merge_vertical(l1, X))
   OFFER("merge_vertical(A,slice)", merge_vertical(X, sl))
   OFFER("merge_vertical(slice,A)", merge_vertical(sl, X))
   OFFER("merge_vertical(A,A)", merge_vertical(X, X))
   OFFER("merge_vertical(B,C,A)", merge_vertical(l1, sl, X))
   OFFER("merge_vertical(A,B,C)", merge_vertical(X, l1, sl))
   OFFER("transpose", transpose(X))
   OFFER("row_reduce", row_reduce(X, [](auto x) { return x.un(0); }))
   OFFER("col_reduce", col_reduce(X, [](auto x) { return x.un(0); }))
   if constexpr(spp::Real<T>) {
      OFFER("matvec_prod(A,v)", matvec_prod(X, v))
      OFFER("matvec_prod(A,slice)", matvec_prod(X, v(place::all)))
   }
   OFFER("row", X.row(0))
   OFFER("row(last)", X.row(last))
   OFFER("col", X.col(0))
   OFFER("col(last)", X.col(last))
   OFFER("diag", X.diag(0))
   OFFER("diag()", X.diag())
   OFFER("rows(seqN)", X.rows(seqN{0, 1}))
   OFFER("rows(list)", X.rows({0}))
   OFFER("rows(vector)", X.rows(il))
   OFFER("cols(seqN)", X.cols(seqN{0, 1}))
   OFFER("cols(list)", X.cols({0}))
   OFFER("cols(vector)", X.cols(il))
   OFFER("block", X.block(0, 0, 0, 0))
   OFFER("blockN", X.blockN(0, 0, 1, 1))
   OFFER("A(sl,sl)", X(place::all, place::all))
   OFFER("A(seqN,seqN)", X(seqN{0, 1}, seqN{0, 1}))
   OFFER("A(list,list)", X({0}, {0}))
   OFFER("A(list,sl)", X({0}, place::all))
   OFFER("A(sl,list)", X(place::all, {0}))
   OFFER("A(vector,vector)", X(il, il))
   OFFER("A(vector,sl)", X(il, place::all))
   OFFER("A(sl,vector)", X(place::all, il))
   OFFER("A(sl)", X(place::all))
   OFFER("A(seqN)", X(seqN{0, 1}))
}
template <class RT, class L> void offers_bool(Case& c, const RT& model, L& l1) {
   auto s = true_sb;
   auto sl = l1.view1D();
   auto f1 = [](auto x) { return x; };
   OFFER("A&&B first", X && l1)
   OFFER("A&&B second", l1 && X)
   OFFER("A||B first", X || l1)
   OFFER("A||B second", l1 || X)
   OFFER("A^B first", X ^ l1)
   OFFER("A^B second", l1 ^ X)
   OFFER("A&&A", X && X)
   OFFER("A||A", X || X)
   OFFER("A^A", X ^ X)
   OFFER("A&&x", X && s)
   OFFER("x&&A", s && X)
   OFFER("A||x", X || s)
   OFFER("x||A", s || X)
   OFFER("A^x", X ^ s)
   OFFER("x^A", s ^ X)
   OFFER("!A", !X)
   OFFER("generate(A,f) bool", generate(X, f1))
   OFFER("array_cast bool", array_cast<int>(X))
   OFFER("view1D bool", X.view1D())
   OFFER("begin bool", X.begin())
   (void)sl;
}
#undef X

template <class A> void offer1(Case& c) {
   Rng& r = c.r;
   using T = bt<A>;
   auto v = rvec<T>(r, 7);
   const Array1D<T> init = mk1<Array1D<T>>(v);
   A model(init);
   Array1D<T> l1 = init;
   logs("temporary owners of 1D kind");
   auto go = [&]<class RT>(std::type_identity<RT>) {
      if constexpr(std::is_same_v<T, bool>) offers_bool<RT>(c, model, l1);
      else offers_real<RT>(c, model, l1);
      offers1<RT>(c, model, l1);
   };
   if(r.chance(50)) go(std::type_identity<A>{});
   else go(std::type_identity<const A>{}), ev("const-owner");
   ev(A::is_dynamic() ? "owner.dynamic1" : "owner.fixed1");
   c.nontrivial = true;
}
template <class A> void offer2(Case& c) {
   Rng& r = c.r;
   using T = bt<A>;
   auto m = rmat<T>(r, 3, 4);
   const Array2D<T> init = mk2<Array2D<T>>(m);
   A model(init);
   Array2D<T> l1 = init;
   logs("temporary owners of 2D kind");
   auto go = [&]<class RT>(std::type_identity<RT>) {
      offers2<RT>(c, model, l1);
      if constexpr(std::is_same_v<T, bool>) offers_bool<RT>(c, model, l1);
      else offers_real<RT>(c, model, l1);
   };
   if(r.chance(50)) go(std::type_identity<A>{});
   else go(std::type_identity<const A>{}), ev("const-owner");
   ev(A::is_dynamic() ? "owner.dynamic2" : "owner.fixed2");
   c.nontrivial = true;
}

// ---- Part two: accepted temporaries, stored and read after the statement that built them ---------
template <class T> struct Ctx {
   Rng& r;
   i64 n, p, q;
   V<T> a, b, big;
   Mat<T> m, o;
   Array1D<T> A, B, C;
   Array1D<T, Aligned> G;
   Array2D<T> M, N;
   FixedArray1D<T, 7> F;
   FixedArray2D<T, 3, 4> FM;
   V<T> f;
   Mat<T> fm;
   V<T> raw;
   T* ptr;
   T s;
   explicit Ctx(Rng& rr) : r(rr), n(r.in(3, 9)), p(r.in(2, 5)), q(r.in(2, 5)), a(rvec<T>(r, n, -9, 9)), b(rvec<T>(r, n, -9, 9)), big(rvec<T>(r, 200, -9, 9)),
      m(rmat<T>(r, p, q, -9, 9)), o(rmat<T>(r, p, q, -9, 9)), A(mk1<Array1D<T>>(a)), B(mk1<Array1D<T>>(b)), C(mk1<Array1D<T>>(big)),
      G(mk1<Array1D<T, Aligned>>(a)), M(mk2<Array2D<T>>(m)), N(mk2<Array2D<T>>(o)), f(rvec<T>(r, 7, -9, 9)), fm(rmat<T>(r, 3, 4, -9, 9)), raw(a), ptr(raw.data()), s(rnd<T>(r, 1, 5)) {
      fill1(F, f);
      fill2(FM, fm);
   }
   Mat<T> sum() const {
      Mat<T> z = m;
      for(size_t i = 0; i < z.d.size(); ++i) z.d[i] = T(m.d[i] + o.d[i]);
      return z;
   }
   V<T> sumv() const {
      V<T> z = a;
      for(size_t i = 0; i < z.size(); ++i) z[i] = T(a[i] + b[i]);
      return z;
   }
};
template <class T> V<T> rev(V<T> v) {
   std::reverse(v.begin(), v.end());
   return v;
}
template <class T> V<T> take(const V<T>& v, const Idx& ix) {
   V<T> w;
   for(auto i : ix) w.push_back(v[size_t(i)]);
   return w;
}
template <class T> V<T> rowof(const Mat<T>& m, i64 i) { return V<T>(m.d.begin() + i * m.c, m.d.begin() + (i + 1) * m.c); }
template <class T> V<T> colof(const Mat<T>& m, i64 j) {
   V<T> w;
   for(i64 i = 0; i < m.r; ++i) w.push_back(m(i, j));
   return w;
}
template <class T> V<T> diagof(const Mat<T>& m) {
   V<T> w;
   for(i64 i = 0; i < std::min(m.r, m.c); ++i) w.push_back(m(i, i));
   return w;
}
template <class T> Mat<T> tra(const Mat<T>& a) {
   Mat<T> m(a.c, a.r);
   for(i64 i = 0; i < m.r; ++i)
      for(i64 j = 0; j < m.c; ++j) m(i, j) = a(j, i);
   return m;
}
template <class T> Mat<T> sub(const Mat<T>& a, const Idx& ri, const Idx& ci) {
   Mat<T> m(i64(ri.size()), i64(ci.size()));
   for(i64 i = 0; i < m.r; ++i)
      for(i64 j = 0; j < m.c; ++j) m(i, j) = a(ri[size_t(i)], ci[size_t(j)]);
   return m;
}
template <class T> Mat<T> shaped(const V<T>& v, i64 r, i64 c) {
   Mat<T> m(r, c);
   m.d = v;
   return m;
}
template <class F, class T> V<T> each(V<T> v, F f) {
   for(auto& x : v) x = T(f(x));
   return v;
}
template <class F, class T> Mat<T> each(Mat<T> m, F f) {
   for(auto& x : m.d) x = T(f(x));
   return m;
}

// A temporary of kind K (a prvalue built from temporaries), and its contents.
inline constexpr int TK1 = 26;
template <int K, class T> auto tmp1(Ctx<T>& x) {
   const auto& cA = x.A;
   if constexpr(K == 0) return x.A(seqN{1, long(x.n - 1)});
   if constexpr(K == 1) return x.A(place::reverse);
   if constexpr(K == 2) return x.A(std::vector<ImplicitInt>{1L, 0L, 2L, 2L});
   if constexpr(K == 3) return x.A({0, 2, 1});
   if constexpr(K == 4) return x.A(place::complement{1});
   if constexpr(K == 5) return x.A + x.B;
   if constexpr(K == 6) return (x.A + x.B)(place::reverse);
   if constexpr(K == 7) return x.M.row(1);
   if constexpr(K == 8) return x.M.col(0);
   if constexpr(K == 9) return x.M.diag();
   if constexpr(K == 10) return x.M.view1D();
   if constexpr(K == 11) return (x.M + x.N).row(0);
   if constexpr(K == 12) return (x.M + x.N).view1D()(seqN{1, 2});
   if constexpr(K == 13) return (x.M + x.N).diag();
   if constexpr(K == 14) return merge(x.A, x.B)(place::even);
   if constexpr(K == 15) return generate(x.A, [cap = std::array<T, 40>{T(3)}](auto z) { return z + S(T(cap[0])); });
   if constexpr(K == 16) return attach1D(x.ptr, long(x.n))(place::reverse);
   if constexpr(K == 17) return transpose(x.M + x.N).col(0);
   if constexpr(K == 18) return x.F(place::all);
   if constexpr(K == 19) return sequence<T>(5)(place::reverse);
   if constexpr(K == 20) return x.A(place::reverse)(seqN{0, 3})({2, 0});
   if constexpr(K == 21) return row_reduce(x.M + x.N, [](auto z) { return sum(z); });
   if constexpr(K == 22) return x.M({1, 0}, {0, 1}).view1D();
   if constexpr(K == 23) return x.M.view1D().view2D(long(x.q), long(x.p)).row(1);
   if constexpr(K == 24) return cA(place::reverse)(place::all);
   if constexpr(K == 25) return x.G(seqN{0, 2}) * S(x.s) - x.FM.row(last)(seqN{1, 2});
}
template <int K, class T> V<T> val1(Ctx<T>& x) {
   if constexpr(K == 0) return V<T>(x.a.begin() + 1, x.a.end());
   if constexpr(K == 1) return rev(x.a);
   if constexpr(K == 2) return take(x.a, {1, 0, 2, 2});
   if constexpr(K == 3) return take(x.a, {0, 2, 1});
   if constexpr(K == 4) {
      auto v = x.a;
      v.erase(v.begin() + 1);
      return v;
   }
   if constexpr(K == 5) return x.sumv();
   if constexpr(K == 6) return rev(x.sumv());
   if constexpr(K == 7) return rowof(x.m, 1);
   if constexpr(K == 8) return colof(x.m, 0);
   if constexpr(K == 9) return diagof(x.m);
   if constexpr(K == 10) return x.m.d;
   if constexpr(K == 11) return rowof(x.sum(), 0);
   if constexpr(K == 12) return take(x.sum().d, {1, 2});
   if constexpr(K == 13) return diagof(x.sum());
   if constexpr(K == 14) {
      V<T> z(x.a), w;
      z.insert(z.end(), x.b.begin(), x.b.end());
      for(size_t i = 0; i < z.size(); i += 2) w.push_back(z[i]);
      return w;
   }
   if constexpr(K == 15) return each(x.a, [](T z) { return z + T(3); });
   if constexpr(K == 16) return rev(x.a);
   if constexpr(K == 17) return rowof(x.sum(), 0);
   if constexpr(K == 18) return x.f;
   if constexpr(K == 19) return V<T>{T(4), T(3), T(2), T(1), T(0)};
   if constexpr(K == 20) return take(rev(x.a), {2, 0});
   if constexpr(K == 21) {
      V<T> w;
      auto z = x.sum();
      for(i64 i = 0; i < z.r; ++i) {
         T s = z(i, 0);
         for(i64 j = 1; j < z.c; ++j) s = T(s + z(i, j));
         w.push_back(s);
      }
      return w;
   }
   if constexpr(K == 22) return sub(x.m, {1, 0}, {0, 1}).d;
   if constexpr(K == 23) return V<T>(x.m.d.begin() + x.p, x.m.d.begin() + 2 * x.p);
   if constexpr(K == 24) return rev(x.a);
   if constexpr(K == 25) return V<T>{T(x.a[0] * x.s - x.fm(2, 1)), T(x.a[1] * x.s - x.fm(2, 2))};
}

// Every program stores its object through a function return, so no temporary is lifetime-extended.
#define STORE(name, want, ...)                                                                     \
   {                                                                                               \
      auto e = [&]() { return __VA_ARGS__; }();                                                    \
      later(name, e, want, std::strcmp(name, "abs") == 0);                                         \
   }
template <int K, class T> void stored1(Case& c) {
   Ctx<T> x(c.r);
   auto v = val1<K>(x);
   i64 n = i64(v.size());
   T s = x.s;
   auto t = [&] { return tmp1<K>(x); };
   auto u = [&] { return x.C(seqN{2, long(n)}); };
   auto w = [&] { return (x.C + x.C)(seqN{1, long(n)}); };
   V<T> uv(x.big.begin() + 2, x.big.begin() + 2 + n), wv;
   for(i64 i = 0; i < n; ++i) wv.push_back(T(x.big[size_t(1 + i)] + x.big[size_t(1 + i)]));
   auto add = [](V<T> a, const V<T>& b) {
      for(size_t i = 0; i < a.size(); ++i) a[i] = T(a[i] + b[i]);
      return a;
   };
   auto cat = [](V<T> a, const V<T>& b) {
      a.insert(a.end(), b.begin(), b.end());
      return a;
   };
   logs("stored 1D temporaries of kind ", K, " n=", n);
   auto neg = each(v, [](T z) { return T(-z); });
   STORE("t", v, t())
   STORE("t+x", each(v, [&](T z) { return T(z + s); }), t() + S(s))
   STORE("x*t", each(v, [&](T z) { return T(s * z); }), S(s) * t())
   STORE("t+u", add(v, uv), t() + u())
   STORE("w+t", add(wv, v), w() + t())
   STORE("t+t", add(v, v), t() + t())
   STORE("(t+u)+w", add(add(v, uv), wv), t() + u() + w())
   STORE("t(reverse)", rev(v), t()(place::reverse))
   STORE("t(vector)", take(v, {n - 1, 0}), t()(std::vector<ImplicitInt>{long(n - 1), 0L}))
   STORE("t({list})", take(v, {0, 0, 1}), t()({0, 0, 1}))
   STORE("t(complement)", V<T>(v.begin() + 1, v.end()), t()(place::complement{0}))
   STORE("t(seqN)(list)", take(v, {1, 1, 0}), t()(seqN{0, 2})({1, 1, 0}))
   STORE("generate", each(v, [&](T z) { return T(z * s); }), generate(t(), [q = S(s)](auto z) { return z * q; }))
   STORE("generate2", add(v, uv), generate(t(), u(), [](auto y, auto z) { return y + z; }))
   STORE("generate2'", add(wv, v), generate(w(), t(), [](auto y, auto z) { return y + z; }))
   STORE("merge(t,x)", cat(v, {s}), merge(t(), S(s)))
   STORE("merge(x,t)", cat({s}, v), merge(S(s), t()))
   STORE("merge(x,y,t)", cat({s, s}, v), merge(S(s), S(s), t()))
   STORE("merge(t,x,y)", cat(v, {s, s}), merge(t(), S(s), S(s)))
   STORE("merge(t,u)", cat(v, uv), merge(t(), u()))
   STORE("merge(w,t,u)", cat(cat(wv, v), uv), merge(w(), t(), u()))
   STORE("merge(merge(t,u),t)", cat(cat(v, uv), v), merge(merge(t(), u()), t()))
   STORE("exclude(t,0)", V<T>(v.begin() + 1, v.end()), exclude(t(), 0))
   STORE("exclude(t,last)", V<T>(v.begin(), v.end() - 1), exclude(t(), last))
   Mat<T> rb(n, n), tp(n, n);
   for(i64 i = 0; i < n; ++i)
      for(i64 j = 0; j < n; ++j) rb(i, j) = v[size_t(j)], tp(i, j) = T(v[size_t(i)] * wv[size_t(j)]);
   STORE("row_broadcast", rb, row_broadcast(t()))
   STORE("col_broadcast", tra(rb), col_broadcast(t()))
   STORE("row_broadcast.row", v, row_broadcast(t()).row(0))
   STORE("tensor(t,w)", tp, tensor_prod(t(), w()))
   STORE("tensor(w,t)", tra(tp), tensor_prod(w(), t()))
   STORE("tensor.col", colof(tp, 1), tensor_prod(t(), w()).col(1))
   STORE("array_cast", V<long>(v.begin(), v.end()), array_cast<long>(generate(t(), [](auto z) { return strict_cast<T>(z.sl()); })))
   STORE("view1D", v, t().view1D())
   STORE("view2D", shaped(v, 1, n), t().view2D(1, long(n)))
   STORE("view2D.col", v, t().view2D(long(n), 1).col(0))
   STORE("(t+x).view2D.view1D", each(v, [&](T z) { return T(z + s); }), (t() + S(s)).view2D(1, long(n)).view1D())
   V<T> pos;
   for(auto z : v)
      if(z > T(0)) pos.push_back(z);
   STORE("in_cond_range", pos, in_cond_range(t(), [](auto z) { return z > Zero<T>; }))
   V<T> cl, op;
   for(auto z : v) {
      if(z >= T(1) && z <= T(4)) cl.push_back(z);
      if(z > T(1) && z < T(4)) op.push_back(z);
   }
   STORE("in_closed_range", cl, in_closed_range(t(), S(T(1)), S(T(4))))
   STORE("in_open_range", op, in_open_range(t(), Low{T(1)}, High{T(4)}))
   STORE("irange", sz(x.C) ? [&] { V<long> z; for(i64 i = 0; i < n; ++i) z.push_back(long(i)); return z; }() : V<long>{}, irange(t()))
   if constexpr(std::is_signed_v<T>) {
      STORE("-t", neg, -t())
      STORE("-(-t)(reverse)", rev(v), -(-(t()))(place::reverse))
      STORE("abs", each(v, [](T z) { return z < 0 ? T(-z) : z; }), abs(t()))
   }
   if constexpr(std::is_floating_point_v<T>) {
      STORE("two_prod.first", each(v, [](T z) { return z * z; }), two_prod(t(), t()).first)
      STORE("two_prod.second", each(v, [](T z) { return std::fma(z, z, -(z * z)); }), two_prod(t(), t()).second)
      STORE("pow_prod.first", each(v, [](T z) { return z * z; }), pow_prod(t(), const1D(long(n), 2_sl)).first)
      STORE("pow", each(v, [](T z) { return std::pow(z, T(2)); }), pow(t(), S(T(2))))
   }
   if constexpr(std::is_integral_v<T>) {
      STORE("t%x", each(v, [&](T z) { return T(z % s); }), t() % S(s))
      STORE("~t", each(v, [&](T z) { return T(~z); }), ~t())
   }
   // a stored object of stored temporaries, outliving them in the heap
   auto e1 = std::make_unique<decltype(t() + u())>(t() + u());
   auto e2 = [&] { return merge(*e1, w()); }();
   e1.reset();
   later("heap", e2, cat(add(v, uv), wv));
   // the slice taken from a temporary selection, kept; of an array that is slice-able as a constant and not
   {
      Idx l = {x.n - 1, 0, x.n - 1, 0}, l2 = {1, 0}, ev2 = arith(0, x.n / 2, 2);
      const auto& cA = x.A;
      const auto& cM = x.M;
      slice_reports(x.A(implicit(l)), l, "1D list");
      slice_reports(cA(implicit(l)), l, "1D constant list");
      slice_reports(x.A(seqN{0, long(x.n / 2), 2}), ev2, "1D range");
      slice_reports(cA(seqN{0, long(x.n / 2), 2}), ev2, "1D constant range");
      slice_reports((x.A + x.B)(implicit(l)), l, "list of an expression");
      slice_reports(x.M(implicit(l2), implicit(l2)), std::pair{l2, l2}, "2D lists");
      slice_reports(cM(implicit(l2), implicit(l2)), std::pair{l2, l2}, "2D constant lists");
      slice_reports(x.M(place::all, implicit(l2)), std::pair{arith(0, x.p, 1), l2}, "2D range and list");
      slice_reports(cM(implicit(l2), place::all), std::pair{l2, arith(0, x.q, 1)}, "2D constant list and range");
   }
   c.note(u64(n * 100 + x.p * 10 + x.q));
   c.nontrivial = true;
}

inline constexpr int TK2 = 18;
template <int K, class T> auto tmp2(Ctx<T>& x) {
   const auto& cM = x.M;
   if constexpr(K == 0) return x.M(place::all, place::all);
   if constexpr(K == 1) return x.M({1, 0, 1}, {0, 1});
   if constexpr(K == 2) return x.M + x.N;
   if constexpr(K == 3) return transpose(x.M);
   if constexpr(K == 4) return x.M.block(0, 1, 1, last);
   if constexpr(K == 5) return (x.M + x.N).blockN(0, 0, 2, 2);
   if constexpr(K == 6) return x.C.view2D(10, 20)(place::firstN{3}, place::lastN{2});
   if constexpr(K == 7) return (x.C + x.C).view2D(20, 10)(seqN{1, 2}, seqN{3, 2});
   if constexpr(K == 8) return row_broadcast(x.A(place::reverse));
   if constexpr(K == 9) return tensor_prod(x.A(place::reverse), x.A + x.B);
   if constexpr(K == 10) return merge_horizontal(x.M, x.M + x.N);
   if constexpr(K == 11) return x.M.rows(std::vector<ImplicitInt>{1L, 0L});
   if constexpr(K == 12) return attach2D(x.ptr, 1, long(x.n))(place::all, place::reverse);
   if constexpr(K == 13) return identity<T>(4)(place::all, seqN{1, 3});
   if constexpr(K == 14) return (x.M + x.N)({1, 0}, place::reverse);
   if constexpr(K == 15) return merge_vertical(x.M, x.M + x.N, x.M(place::reverse, place::all));
   if constexpr(K == 16) return (x.M + x.N).cols({1, 0, 0});
   if constexpr(K == 17) return transpose(cM(place::complement{0}, place::all)) * S(x.s) + transpose(x.N.rows(place::lastN{long(x.p - 1)}));
}
template <int K, class T> Mat<T> val2(Ctx<T>& x) {
   auto all = [](i64 n) { return arith(0, n, 1); };
   auto join = [](const Mat<T>& a, const Mat<T>& b) {
      Mat<T> m(a.r + b.r, a.c);
      m.d = a.d;
      m.d.insert(m.d.end(), b.d.begin(), b.d.end());
      return m;
   };
   if constexpr(K == 0) return x.m;
   if constexpr(K == 1) return sub(x.m, {1, 0, 1}, {0, 1});
   if constexpr(K == 2) return x.sum();
   if constexpr(K == 3) return tra(x.m);
   if constexpr(K == 4) return sub(x.m, {0, 1}, arith(1, x.q - 1, 1));
   if constexpr(K == 5) return sub(x.sum(), {0, 1}, {0, 1});
   if constexpr(K == 6) return sub(shaped(x.big, 10, 20), {0, 1, 2}, {18, 19});
   if constexpr(K == 7) return each(sub(shaped(x.big, 20, 10), {1, 2}, {3, 4}), [](T z) { return T(z + z); });
   if constexpr(K == 8) {
      Mat<T> m(x.n, x.n);
      for(i64 i = 0; i < x.n; ++i)
         for(i64 j = 0; j < x.n; ++j) m(i, j) = x.a[size_t(x.n - 1 - j)];
      return m;
   }
   if constexpr(K == 9) {
      Mat<T> m(x.n, x.n);
      for(i64 i = 0; i < x.n; ++i)
         for(i64 j = 0; j < x.n; ++j) m(i, j) = T(x.a[size_t(x.n - 1 - i)] * T(x.a[size_t(j)] + x.b[size_t(j)]));
      return m;
   }
   if constexpr(K == 10) return tra(join(tra(x.m), tra(x.sum())));
   if constexpr(K == 11) return sub(x.m, {1, 0}, all(x.q));
   if constexpr(K == 12) return shaped(rev(x.a), 1, x.n);
   if constexpr(K == 13) {
      Mat<T> m(4, 3);
      for(i64 i = 0; i < 4; ++i)
         for(i64 j = 0; j < 3; ++j) m(i, j) = T(i == j + 1);
      return m;
   }
   if constexpr(K == 14) return sub(x.sum(), {1, 0}, arith(x.q - 1, x.q, -1));
   if constexpr(K == 15) return join(join(x.m, x.sum()), sub(x.m, arith(x.p - 1, x.p, -1), all(x.q)));
   if constexpr(K == 16) return sub(x.sum(), all(x.p), {1, 0, 0});
   if constexpr(K == 17) {
      Mat<T> m(x.q, x.p - 1);
      for(i64 i = 0; i < m.r; ++i)
         for(i64 j = 0; j < m.c; ++j) m(i, j) = T(T(x.m(j + 1, i) * x.s) + x.o(j + 1, i));
      return m;
   }
}
template <int K, class T> void stored2(Case& c) {
   Ctx<T> x(c.r);
   auto v = val2<K>(x);
   i64 nr = v.r, nc = v.c;
   T s = x.s;
   auto t = [&] { return tmp2<K>(x); };
   auto w = [&] { return (x.C + x.C)(seqN{1, long(nr * nc)}).view2D(long(nr), long(nc)); };
   Mat<T> wv(nr, nc);
   for(i64 i = 0; i < nr * nc; ++i) wv.d[size_t(i)] = T(x.big[size_t(1 + i)] + x.big[size_t(1 + i)]);
   auto add = [](Mat<T> a, const Mat<T>& b) {
      for(size_t i = 0; i < a.d.size(); ++i) a.d[i] = T(a.d[i] + b.d[i]);
      return a;
   };
   auto vjoin = [](const Mat<T>& a, const Mat<T>& b) {
      Mat<T> m(a.r + b.r, a.c);
      m.d = a.d;
      m.d.insert(m.d.end(), b.d.begin(), b.d.end());
      return m;
   };
   auto hjoin = [&](const Mat<T>& a, const Mat<T>& b) { return tra(vjoin(tra(a), tra(b))); };
   logs("stored 2D temporaries of kind ", K, " ", nr, "x", nc);
   auto ar = arith(0, nr, 1), ac = arith(0, nc, 1), rr = arith(nr - 1, nr, -1), rc = arith(nc - 1, nc, -1);
   STORE("t", v, t())
   STORE("t+x", each(v, [&](T z) { return T(z + s); }), t() + S(s))
   STORE("t+w", add(v, wv), t() + w())
   STORE("w+t+t", add(add(wv, v), v), w() + t() + t())
   STORE("t(reverse,all)", sub(v, rr, ac), t()(place::reverse, place::all))
   STORE("t({},{})", sub(v, {0, 0}, {nc - 1}), t()({0, 0}, {long(nc - 1)}))
   STORE("t(vector,seqN)", sub(v, {nr - 1, 0}, {0}), t()(std::vector<ImplicitInt>{long(nr - 1), 0L}, seqN{0, 1}))
   STORE("t(seqN,{})", sub(v, {0}, {nc - 1, 0}), t()(seqN{0, 1}, {long(nc - 1), 0L}))
   STORE("rows", sub(v, rr, ac), t().rows(place::reverse))
   STORE("rows({})", sub(v, {0, nr - 1}, ac), t().rows({0L, long(nr - 1)}))
   STORE("cols", sub(v, ar, rc), t().cols(place::reverse))
   STORE("cols({})", sub(v, ar, {nc - 1, 0}), t().cols({long(nc - 1), 0L}))
   STORE("block", v, t().block(0, 0, last, last))
   STORE("blockN", sub(v, {0}, ac), t().blockN(0, 0, 1, long(nc)))
   STORE("row", rowof(v, nr - 1), t().row(last))
   STORE("row(reverse)", rev(rowof(v, 0)), t().row(0)(place::reverse))
   STORE("col", colof(v, 0), t().col(0))
   STORE("col({})", take(colof(v, nc - 1), {0, 0}), t().col(last)({0, 0}))
   STORE("diag", diagof(v), t().diag())
   STORE("(t+w).diag", diagof(add(v, wv)), (t() + w()).diag())
   STORE("view1D", v.d, t().view1D())
   STORE("view1D(reverse)", rev(v.d), t().view1D()(place::reverse))
   STORE("view2D", shaped(v.d, nr * nc, 1), t().view2D(long(nr * nc), 1))
   STORE("transpose", tra(v), transpose(t()))
   STORE("transpose(t+w)", tra(add(v, wv)), transpose(t() + w()))
   STORE("transpose^2", v, transpose(transpose(t())))
   STORE("transpose.row", colof(v, 0), transpose(t()).row(0))
   V<T> rs, cs, mv;
   for(i64 i = 0; i < nr; ++i) {
      T q = v(i, 0), d{};
      for(i64 j = 1; j < nc; ++j) q = T(q + v(i, j));
      for(i64 j = 0; j < nc; ++j) d = T(d + v(i, j) * x.big[size_t(j + 2)]);
      rs.push_back(q);
      mv.push_back(d);
   }
   for(i64 j = 0; j < nc; ++j) {
      T q = v(0, j);
      for(i64 i = 1; i < nr; ++i) q = T(q + v(i, j));
      cs.push_back(q);
   }
   STORE("row_reduce", rs, row_reduce(t(), [](auto z) { return sum(z); }))
   STORE("col_reduce", cs, col_reduce(t(), [](auto z) { return sum(z); }))
   STORE("matvec", mv, matvec_prod(t(), x.C(seqN{2, long(nc)})))
   STORE("matvec expr", each(mv, [](T z) { return T(z + z); }), matvec_prod(t(), (x.C + x.C)(seqN{2, long(nc)})))
   STORE("merge_horizontal", hjoin(v, wv), merge_horizontal(t(), w()))
   STORE("merge_vertical", vjoin(wv, v), merge_vertical(w(), t()))
   STORE("merge_horizontal3", hjoin(hjoin(v, wv), v), merge_horizontal(t(), w(), t()))
   STORE("merge_vertical3", vjoin(vjoin(v, wv), v), merge_vertical(t(), w(), t()))
   STORE("generate", each(v, [&](T z) { return T(z * s); }), generate(t(), [q = S(s)](auto z) { return z * q; }))
   STORE("generate2", add(v, wv), generate(t(), w(), [](auto y, auto z) { return y + z; }))
   if constexpr(std::is_signed_v<T>) { STORE("abs", each(v, [](T z) { return z < 0 ? T(-z) : z; }), abs(t())) }
   c.note(u64(nr * 100 + nc * 10 + x.n));
   c.nontrivial = true;
}

template <int K> void offer(Case& c) {
   if constexpr(K == 0) offer1<Array1D<double>>(c);
   if constexpr(K == 1) offer1<Array1D<int, Aligned>>(c);
   if constexpr(K == 2) offer1<FixedArray1D<double, 7>>(c);
   if constexpr(K == 3) offer1<FixedArray1D<long, 7, Aligned>>(c);
   if constexpr(K == 4) offer1<Array1D<bool>>(c);
   if constexpr(K == 5) offer2<Array2D<double>>(c);
   if constexpr(K == 6) offer2<Array2D<long, Aligned>>(c);
   if constexpr(K == 7) offer2<FixedArray2D<double, 3, 4>>(c);
   if constexpr(K == 8) offer2<FixedArray2D<bool, 3, 4>>(c);
   if constexpr(K == 9) offer1<FixedArray1D<bool, 7>>(c);
   if constexpr(K == 10) offer2<Array2D<bool>>(c);
   if constexpr(K == 11) offer1<Array1D<long>>(c);
}
int main(int argc, char** argv) {
   return run(argc, argv, [](Case& c) {
      dispatch<TK1 + TK2 + 12>(c, []<int K>(Case& c) {
         if constexpr(K < TK1) {
            if constexpr(K % 2) stored1<K, double>(c);
            else stored1<K, long>(c);
         } else if constexpr(K < TK1 + TK2) {
            if constexpr(K % 2) stored2<K - TK1, long>(c);
            else stored2<K - TK1, double>(c);
         } else offer<K - TK1 - TK2>(c);
      });
   });
}
