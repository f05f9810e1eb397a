// P27: arrays mapped to Eigen, and matrix products through the mapping.
#include "operands.hpp"
using namespace h;
using namespace spp;

template <class T> void same_view(const T* base, i64 nr, i64 nc, const auto& map, const Mat<T>& m, const std::string& what) {
   CHECK(map.rows() == nr && map.cols() == nc, "shape", what, " mapped as ", map.rows(), "x", map.cols());
   if(nr * nc) CHECK(map.data() == base, "storage", what, " is not mapped in place");
   for(i64 i = 0; i < nr; ++i)
      for(i64 j = 0; j < nc; ++j) {
         CHECK(same_bits<T>(map(i, j), m(i, j)), "element", what, " element ", i, ",", j, " mapped as ", show<T>(map(i, j)));
         CHECK(&map.coeffRef(i, j) == base + i * nc + j, "position", what, " element ", i, ",", j, " at another address");
      }
}

// Equal up to the sign of zero.
template <class T> bool equals(const Mat<T>& a, const Mat<T>& b) { return a.r == b.r && a.c == b.c && a.d == b.d; }
template <class T> Mat<T> product(const Mat<T>& a, const Mat<T>& b) {
   Mat<T> c(a.r, b.c);
   for(i64 i = 0; i < a.r; ++i)
      for(i64 j = 0; j < b.c; ++j) {
         T s = 0;
         for(i64 k = 0; k < a.c; ++k) s = T(s + T(a(i, k) * b(k, j)));
         c(i, j) = s;
      }
   return c;
}

template <class A, class T> void mapped(Rng& r, A& a, const std::string& what) {
   auto m = mat(a);
   auto e = eigen::map(a);
   same_view<T>(a.blas_data(), m.r, m.c, e, m, what);
   const A& ca = a;
   auto ce = eigen::map(ca);
   same_view<T>(ca.blas_data(), m.r, m.c, ce, m, what + " constant");
   static_assert(std::is_same_v<decltype(ce.data()), const T*>, "a constant array is mapped as constant");
   ev("mapped");
   if(!m.size()) return;
   // what is written on either side is seen on the other
   for(int k = 0; k < 3; ++k) {
      i64 i = r.in(0, m.r - 1), j = r.in(0, m.c - 1);
      T x = rnd<T>(r, 0, 40);
      m(i, j) = x;
      if(r.chance(50)) e(i, j) = x;
      else a(long(i), long(j)) = S<T>(x);
      CHECK(eq(mat(a), m), "write", what, " element ", i, ",", j, " written");
      same_view<T>(a.blas_data(), m.r, m.c, ce, m, what + " after a write");
   }
   if(r.chance(30)) {
      T x = rnd<T>(r, 0, 40);
      i64 i = r.in(0, m.r - 1);
      e.row(i).setConstant(x);
      for(i64 j = 0; j < m.c; ++j) m(i, j) = x;
      CHECK(eq(mat(a), m), "row write", what, " row ", i);
   }
   T s = 0;
   for(auto x : m.d) s = T(s + x);
   CHECK(e.sum() == s, "sum", what);
   ev("written");
}

template <class A, class B, class C, class T> void multiply(const A& a, const B& b, C& c, const std::string& what) {
   auto want = product(mat(a), mat(b));
   auto ma = mat(a);
   auto mb = mat(b);
   auto d = matrix_prod(a, b);
   CHECK(equals(mat(d), want), "product", what, " gives ", show(mat(d)), " instead of ", show(want));
   matrix_prod(a, b, c);
   CHECK(equals(mat(c), want), "product in place", what, " gives ", show(mat(c)), " instead of ", show(want));
   CHECK(eq(mat(a), ma) && eq(mat(b), mb), "operands", what, " changed an operand");
   ev("product");
}

template <class T> void go(Case& c) {
   Rng& r = c.r;
   auto dim = [&] { return r.chance(8) ? r.in(16, 40) : r.in(1, 7); };
   i64 n = dim(), k = r.chance(15) ? 1 : dim(), m = r.chance(15) ? 1 : dim();
   if(r.chance(15)) n = 1;
   Mat<T> a = rmat<T>(r, n, k, 0, 15), b = rmat<T>(r, k, m, 0, 15);
   if(std::is_signed_v<T> || std::is_floating_point_v<T>)
      for(auto& x : a.d) x = r.chance(50) ? x : T(-x);
   auto what = str(show(a), " * ", show(b));
   logs(what);
   c.note(what);
   c.nontrivial = true;
   auto A0 = mk2<Array2D<T>>(a);
   auto B0 = mk2<Array2D<T>>(b);
   auto A1 = mk2<Array2D<T, Aligned>>(a);
   auto B1 = mk2<Array2D<T, Aligned>>(b);
   auto C0 = mk2<Array2D<T>>(rmat<T>(r, n, m, 0, 9));
   auto C1 = mk2<Array2D<T, Aligned>>(rmat<T>(r, n, m, 0, 9));
   switch(r.below(4)) {
      case 0: multiply<Array2D<T>, Array2D<T>, Array2D<T>, T>(A0, B0, C0, what); break;
      case 1: multiply<Array2D<T, Aligned>, Array2D<T>, Array2D<T, Aligned>, T>(A1, B0, C1, what); break;
      case 2: multiply<Array2D<T>, Array2D<T, Aligned>, Array2D<T, Aligned>, T>(A0, B1, C1, what); break;
      default: multiply<Array2D<T, Aligned>, Array2D<T, Aligned>, Array2D<T>, T>(A1, B1, C0, what);
   }
   // the result may be one of the operands
   {
      Mat<T> p = rmat<T>(r, n, n, 0, 9), q = rmat<T>(r, n, n, 0, 9);
      auto P = mk2<Array2D<T>>(p);
      auto Q = mk2<Array2D<T>>(q);
      auto w = str("square ", show(p), show(q));
      switch(r.below(3)) {
         case 0: matrix_prod(P, Q, P); CHECK(equals(mat(P), product(p, q)) && eq(mat(Q), q), "product into operand", w, " gives ", show(mat(P))); break;
         case 1: matrix_prod(P, Q, Q); CHECK(equals(mat(Q), product(p, q)) && eq(mat(P), p), "product into operand", w, " gives ", show(mat(Q))); break;
         default: matrix_prod(P, P, P); CHECK(equals(mat(P), product(p, p)), "product into operand", w, " gives ", show(mat(P)));
      }
      ev("product into operand");
   }
   // fixed sizes
   {
      FixedArray2D<T, 2, 3> f;
      FixedArray2D<T, 3, 4, Aligned> g;
      FixedArray2D<T, 2, 4> fg;
      auto mf = rmat<T>(r, 2, 3, 0, 9);
      auto mg = rmat<T>(r, 3, 4, 0, 9);
      fill2(f, mf);
      fill2(g, mg);
      multiply<FixedArray2D<T, 2, 3>, FixedArray2D<T, 3, 4, Aligned>, FixedArray2D<T, 2, 4>, T>(f, g, fg, "fixed");
      mapped<FixedArray2D<T, 2, 3>, T>(r, f, "fixed 2x3");
      mapped<FixedArray2D<T, 3, 4, Aligned>, T>(r, g, "fixed aligned 3x4");
   }
   // shapes that do not conform
   auto refuse = [&](auto f, const std::string& s) {
      auto a1 = mat(A0);
      auto b1 = mat(B0);
      auto c1 = mat(C0);
      CHECK(throws(f), "accepted", s);
      CHECK(eq(mat(A0), a1) && eq(mat(B0), b1) && eq(mat(C0), c1), "refused changes", s, " was refused but changed an array");
      ev("refused");
   };
   auto shape = [](auto& x) { return str(x.rows().val(), "x", x.cols().val()); };
   Array2D<T> D(1L * (k + r.in(1, 2)), 1L * m), E(1L * (n + 1), 1L * m), F(1L * n, 1L * (m + 1));
   refuse([&] { matrix_prod(A0, D); }, str("product of ", shape(A0), " and ", shape(D)));
   refuse([&] { matrix_prod(A0, D, C0); }, str("product of ", shape(A0), " and ", shape(D), " into ", shape(C0)));
   refuse([&] { matrix_prod(A0, B0, E); }, str("product of ", shape(A0), " and ", shape(B0), " into ", shape(E)));
   refuse([&] { matrix_prod(A0, B0, F); }, str("product of ", shape(A0), " and ", shape(B0), " into ", shape(F)));
   if(n != m) {
      Array2D<T> G(1L * m, 1L * n);
      refuse([&] { matrix_prod(A0, B0, G); }, str("product of ", shape(A0), " and ", shape(B0), " into ", shape(G)));
   }
   mapped<Array2D<T>, T>(r, A0, "matrix " + show(a));
   mapped<Array2D<T, Aligned>, T>(r, B1, "aligned matrix " + show(b));
   // an edited array is mapped with its new shape
   A0.resize(long(n + 1), long(k));
   fill2(A0, rmat<T>(r, n + 1, k, 0, 9));
   mapped<Array2D<T>, T>(r, A0, "resized matrix");
   Array2D<T> none;
   auto en = eigen::map(none);
   CHECK(en.rows() == 0 && en.cols() == 0, "empty", "an empty array is mapped as ", en.rows(), "x", en.cols());
   CHECK(matrix_prod(none, none).empty(), "empty", "the product of empty arrays is not empty");
   ev("empty");
}

int main(int argc, char** argv) {
   return h::run(argc, argv, [](Case& c) {
      dispatch<6>(c, []<int K>(Case& c) { go<std::tuple_element_t<K, std::tuple<double, int, float, long, long double, unsigned>>>(c); });
   });
}
