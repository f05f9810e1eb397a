// P30: whole programs written with the library against the same computation on plain vectors.
#include "operands.hpp"
#include <algorithm>
#include <deque>
#include <numeric>
#include <set>
#include <sstream>
using namespace h;
using namespace spp;

namespace {

using mut1 = kinds<0, 1, 2, 3, 4, 5, 8>;     // storage that can be written through
using mut2 = kinds<0, 1, 2, 3, 4, 7>;
using wr1 = kinds<0, 2, 3, 5>;
using rd1 = kinds<0, 2, 5, 7>;
using rd2 = kinds<0, 2, 4, 7>;

template <class T> using V = std::vector<T>;
inline size_t u(i64 i) { return size_t(i); }
template <class T> auto at(V<T>& v, i64 i) -> decltype(v[0]) { return v.at(size_t(i)); }

// From the i-th to the one `back` before the last.
template <class A> auto span(const A& a, i64 i, i64 back = 0) { return seqN{long(i), long(sz(a) - back - i)}; }

// Sums of products, where the sign of a zero is not laid down.
template <class T> V<T> unsigned_zero(V<T> v) { for(auto&& x : v) x = T(x + T(0)); return v; }

template <class T> void noteall(Case& c, const V<T>& v) {
   c.note(v.size());
   for(size_t i = 0; i < v.size() && i < 12; ++i) c.note(u64(std::hash<double>{}(double(v[i]))));
   c.nontrivial = v.size() > 1;
}

// ---------------------------------------------------------------------------------------------------
// Linear algebra.
template <class T> void lu(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(1, 11);
   auto m = rmat<T>(r, n, n, -20, 20);
   noteall(c, m.d);
   logs("LU ", show(m));
   Mat<T> w = m;
   V<i64> piv;
   for(i64 k = 0; k < n; ++k) {
      i64 p = k;
      for(i64 i = k + 1; i < n; ++i) if(std::abs(w(i, k)) > std::abs(w(p, k))) p = i;
      piv.push_back(p);
      if(w(p, k) == T(0)) break;
      for(i64 j = 0; j < n; ++j) std::swap(w(k, j), w(p, j));
      for(i64 i = k + 1; i < n; ++i) w(i, k) /= w(k, k);
      for(i64 i = k + 1; i < n; ++i) for(i64 j = k + 1; j < n; ++j) w(i, j) -= w(i, k) * w(k, j);
   }
   any2(r, m, mut2{}, [&](auto& A) {
      V<i64> got;
      for(i64 k = 0; k < n; ++k) {
         auto below = A.col(long(k))(seqN{long(k), long(n - k)});
         auto best = max_index(abs(below));
         i64 p = k + best.first.val();
         got.push_back(p);
         if(best.second == S(T(0))) break;
         if(p != k) {
            Array1D<T> t = A.row(long(k));
            A.row(long(k)) = A.row(long(p));
            A.row(long(p)) = t;
         }
         if(k + 1 == n) continue;
         auto l = A.col(long(k))(seqN{long(k + 1), long(n - k - 1)});
         l /= A(long(k), long(k));
         A.block(long(k + 1), long(k + 1), long(n - 1), long(n - 1)) -= tensor_prod(l, A.row(long(k))(seqN{long(k + 1), long(n - k - 1)}));
      }
      CHECK(got == piv, "lu pivots", "pivots ", show(got), " expected ", show(piv));
      expect2(A, w, "lu", "factors");
   });
   ev("LU");
}

template <class T> void gauss_jordan(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(1, 8);
   auto m = rmat<T>(r, n, n, -9, 9);
   for(i64 i = 0; i < n; ++i) m(i, i) += m(i, i) < T(0) ? T(-200) : T(200);
   noteall(c, m.d);
   logs("Gauss-Jordan ", show(m));
   Mat<T> w(n, 2 * n);
   for(i64 i = 0; i < n; ++i) for(i64 j = 0; j < n; ++j) w(i, j) = m(i, j), w(i, n + j) = T(i == j);
   for(i64 k = 0; k < n; ++k) {
      T p = w(k, k);
      for(i64 j = 0; j < 2 * n; ++j) w(k, j) /= p;
      for(i64 i = 0; i < n; ++i) {
         if(i == k) continue;
         T f = w(i, k);
         for(i64 j = 0; j < 2 * n; ++j) w(i, j) -= f * w(k, j);
      }
   }
   Mat<T> inv(n, n);
   for(i64 i = 0; i < n; ++i) for(i64 j = 0; j < n; ++j) inv(i, j) = w(i, n + j);
   any2(r, m, rd2{}, [&](auto& A) {
      auto I = identity<T>(long(n));
      Array2D<T> M = merge_horizontal(A, I);
      for(i64 k = 0; k < n; ++k) {
         auto row = M.row(long(k));
         Strict<T> p = row[long(k)];
         row /= p;
         for(i64 i = 0; i < n; ++i) {
            if(i == k) continue;
            Strict<T> f = M(long(i), long(k));
            M.row(long(i)) -= f * row;
         }
      }
      expect2(M, w, "gauss-jordan", "reduced");
      expect2(M.cols(place::lastN{long(n)}), inv, "gauss-jordan inverse", "inverse");
      M.remove_cols(0, long(n));
      expect2(M, inv, "gauss-jordan inverse", "inverse after removing columns");
      auto again = merge_horizontal(M, A);
      Mat<T> both(n, 2 * n);
      for(i64 i = 0; i < n; ++i) for(i64 j = 0; j < n; ++j) both(i, j) = inv(i, j), both(i, n + j) = m(i, j);
      expect2(again, both, "gauss-jordan merge", "inverse beside the matrix");
   });
   ev("Gauss-Jordan");
}

template <class T> void jacobi(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(2, 9);
   auto m = rmat<T>(r, n, n, -4, 4);
   for(i64 i = 0; i < n; ++i) m(i, i) = T(8 * n + 40);
   auto b = rvec<T>(r, n, -50, 50);
   noteall(c, m.d);
   logs("Jacobi ", show(m), " b ", show(b));
   V<T> x(u(n), T(0));
   int its = int(r.in(1, 12));
   for(int it = 0; it < its; ++it) {
      V<T> y = x;
      for(i64 i = 0; i < n; ++i) {
         long double s = 0;
         for(i64 j = 0; j < n; ++j) if(j != i) s += (long double)m(i, j) * x[u(j)];
         y[u(i)] = T(((long double)b[u(i)] - s) / m(i, i));
      }
      x = y;
   }
   any2(r, m, rd2{}, [&](auto& A) {
      Array1D<T> y(1L * n), B = mk1<Array1D<T>>(b), ny(1L * n);
      for(int it = 0; it < its; ++it) {
         for(i64 i = 0; i < n; ++i) {
            if constexpr(requires { A.row(long(i)); }) {
               auto row = A.row(long(i));
               ny[long(i)] = (B[long(i)] - dot_prod(exclude(row, long(i)), exclude(y, long(i)))) / row[long(i)];
            }
         }
         y = ny;
      }
      auto v = vec(y);
      for(i64 i = 0; i < n; ++i) {
         long double d = std::abs((long double)v[u(i)] - x[u(i)]);
         CHECK(d <= 64 * n * (long double)std::numeric_limits<T>::epsilon() * (1 + std::abs((long double)x[u(i)])) * 8, "jacobi", "iterate ", show(v), " expected ", show(x));
      }
   });
   ev("Jacobi");
}

// Matrix products by four routes.
template <class T> void products(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(1, 7), k = r.in(1, 7), m = r.in(1, 7);
   auto a = rmat<T>(r, n, k, -9, 9), b = rmat<T>(r, k, m, -9, 9);
   noteall(c, a.d);
   logs("product ", show(a), " ", show(b));
   Mat<T> w(n, m);
   for(i64 i = 0; i < n; ++i) for(i64 j = 0; j < m; ++j) for(i64 l = 0; l < k; ++l) w(i, j) = T(w(i, j) + a(i, l) * b(l, j));
   any2(r, a, rd2{}, [&](auto& A) {
      Array2D<T> B = mk2<Array2D<T>>(b);
      Array2D<T> C(1L * n, 1L * m);
      int how = int(r.below(5));
      if(how == 0) {
         for(i64 l = 0; l < k; ++l) C += tensor_prod(A.col(long(l)), B.row(long(l)));
      } else if(how == 1) {
         for(i64 j = 0; j < m; ++j) C.col(long(j)) = matvec_prod(A, B.col(long(j)));
      } else if(how == 2) {
         for(i64 i = 0; i < n; ++i) for(i64 j = 0; j < m; ++j) C(long(i), long(j)) = dot_prod(A.row(long(i)), B.col(long(j)));
      } else if(how == 3) {
         auto Bt = transpose(B);
         for(i64 i = 0; i < n; ++i) C.row(long(i)) = matvec_prod(Bt, A.row(long(i)));
      } else {
         Array2D<T> Ct = transpose(C);
         for(i64 l = k - 1; l >= 0; --l) Ct += tensor_prod(B.row(long(l)), A.col(long(l)));
         C = transpose(Ct);
      }
      CHECK(mat(C).r == n && mat(C).c == m && eq(unsigned_zero(mat(C).d), unsigned_zero(w.d)), "product", "route ", how, ": got ", show(mat(C)), " expected ", show(w));
      ev("product");
   });
}

template <class T, class A, class B> Array2D<T> strassen(const A& a, const B& b) {
   long n = a.rows().val();
   if(n <= 1) {
      Array2D<T> r = a * b;
      return r;
   }
   long k = n / 2;
   auto a11 = a.blockN(0, 0, k, k), a12 = a.blockN(0, k, k, k), a21 = a.blockN(k, 0, k, k), a22 = a.blockN(k, k, k, k);
   auto b11 = b.blockN(0, 0, k, k), b12 = b.blockN(0, k, k, k), b21 = b.blockN(k, 0, k, k), b22 = b.blockN(k, k, k, k);
   auto P = [](const Array2D<T>& x, const Array2D<T>& y) { return strassen<T>(x, y); };
   Array2D<T> m1 = P((a11 + a22).eval(), (b11 + b22).eval()), m2 = P((a21 + a22).eval(), b11.eval()), m3 = P(a11.eval(), (b12 - b22).eval()),
              m4 = P(a22.eval(), (b21 - b11).eval()), m5 = P((a11 + a12).eval(), b22.eval()), m6 = P((a21 - a11).eval(), (b11 + b12).eval()),
              m7 = P((a12 - a22).eval(), (b21 + b22).eval());
   auto top = merge_horizontal(m1 + m4 - m5 + m7, m3 + m5);
   auto bot = merge_horizontal(m2 + m4, m1 - m2 + m3 + m6);
   return merge_vertical(top, bot).eval();
}
template <class T> void strassen_case(Case& c) {
   Rng& r = c.r;
   i64 n = r.pick({i64(1), i64(2), i64(4), i64(4)});
   auto a = rmat<T>(r, n, n, -9, 9), b = rmat<T>(r, n, n, -9, 9);
   noteall(c, a.d);
   logs("Strassen ", show(a), " ", show(b));
   Mat<T> w(n, n);
   for(i64 i = 0; i < n; ++i) for(i64 j = 0; j < n; ++j) for(i64 l = 0; l < n; ++l) w(i, j) = T(w(i, j) + a(i, l) * b(l, j));
   any2(r, a, kinds<0, 2, 3>{}, [&](auto& A) {
      auto B = mk2<Array2D<T>>(b);
      expect2(strassen<T>(A, B), w, "strassen", "product");
   });
   ev("Strassen");
}

// Fraction-free elimination on exact integers: the determinant.
void bareiss(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(1, 6);
   auto m = rmat<long>(r, n, n, -6, 6);
   noteall(c, m.d);
   logs("determinant ", show(m));
   // by expansion over permutations
   long det = 0;
   V<int> p(u(n));
   std::iota(p.begin(), p.end(), 0);
   do {
      long t = 1;
      for(i64 i = 0; i < n; ++i) t *= m(i, p[u(i)]);
      for(i64 i = 0; i < n; ++i) for(i64 j = 0; j < i; ++j) if(p[u(j)] > p[u(i)]) t = -t;
      det += t;
   } while(std::next_permutation(p.begin(), p.end()));
   any2(r, m, mut2{}, [&](auto& A) {
      Strict<long> prev = 1_sl, sign = 1_sl, got = 0_sl;
      bool zero = false;
      for(i64 k = 0; k + 1 < n && !zero; ++k) {
         if(A(long(k), long(k)) == 0_sl) {
            i64 q = k + 1;
            while(q < n && A(long(q), long(k)) == 0_sl) ++q;
            if(q == n) { zero = true; break; }
            Array1D<long> t = A.row(long(q));
            A.row(long(q)) = A.row(long(k));
            A.row(long(k)) = t;
            sign = -sign;
         }
         auto rest = A.block(long(k + 1), long(k + 1), long(n - 1), long(n - 1));
         rest *= A(long(k), long(k));
         rest -= tensor_prod(A.col(long(k))(place::lastN{long(n - 1 - k)}), A.row(long(k))(place::lastN{long(n - 1 - k)}));
         rest /= prev;
         prev = A(long(k), long(k));
      }
      if(!zero) got = sign * A(last, last);
      CHECK(got.val() == det, "determinant", "got ", got.val(), " expected ", det);
   });
   ev("determinant");
}

template <class T> void kronecker(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(1, 4), m = r.in(1, 4), p = r.in(1, 4), q = r.in(1, 4);
   auto a = rmat<T>(r, n, m, -9, 9), b = rmat<T>(r, p, q, -9, 9);
   noteall(c, a.d), noteall(c, b.d);
   logs("Kronecker ", show(a), " ", show(b));
   Mat<T> w(n * p, m * q);
   for(i64 i = 0; i < n * p; ++i) for(i64 j = 0; j < m * q; ++j) w(i, j) = T(a(i / p, j / q) * b(i % p, j % q));
   Mat<T> zero(n * p, m * q);
   for(auto&& x : zero.d) x = rnd<T>(r);
   any2(r, zero, mut2{}, [&](auto& K) {
      auto A = mk2<Array2D<T>>(a);
      any2(r, b, rd2{}, [&](auto& B) {
         if(r.chance(50)) {
            for(i64 i = 0; i < n; ++i) for(i64 j = 0; j < m; ++j) K.blockN(long(i * p), long(j * q), long(p), long(q)) = A(long(i), long(j)) * B;
         } else {   // by interleaving: every p-th row, every q-th column
            for(i64 i = 0; i < p; ++i) for(i64 j = 0; j < q; ++j) K(seqN{long(i), long(n), long(p)}, seqN{long(j), long(m), long(q)}) = A * B(long(i), long(j));
         }
      });
      expect2(K, w, "kronecker", "product");
   });
   ev("Kronecker");
}

// ---------------------------------------------------------------------------------------------------
// Stencils, sieves, games.
template <class T> void stencil1(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(3, 40);
   auto v = rvec<T>(r, n, 0, 60);
   int steps = int(r.in(1, 9));
   noteall(c, v), c.note(u64(steps));
   logs("stencil 1D ", steps, " steps ", show(v));
   auto w = v;
   for(int s = 0; s < steps; ++s) {
      auto o = w;
      for(i64 i = 1; i + 1 < n; ++i) w[u(i)] = T((o[u(i - 1)] + o[u(i)] * T(2) + o[u(i + 1)]) / T(4));
   }
   any1(r, v, wr1{}, [&](auto& A) {
      Array1D<T> nxt = A;
      for(int s = 0; s < steps; ++s) {
         auto l = A(place::firstN{long(n - 2)});
         auto m = A(span(A, 1, 1));
         auto h2 = A(place::lastN{long(n - 2)});
         nxt(seqN{1, long(n - 2)}) = (l + m * S(T(2)) + h2) / S(T(4));
         A = nxt;
      }
      expect1(A, w, "stencil", "1D");
   });
   ev("stencil 1D");
}
template <class T> void stencil2(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(3, 12), m = r.in(3, 12);
   auto v = rmat<T>(r, n, m, 0, 60);
   int steps = int(r.in(1, 5));
   noteall(c, v.d), c.note(u64(steps));
   logs("stencil 2D ", steps, " steps ", show(v));
   auto w = v;
   for(int s = 0; s < steps; ++s) {
      auto o = w;
      for(i64 i = 1; i + 1 < n; ++i) for(i64 j = 1; j + 1 < m; ++j) w(i, j) = T((o(i - 1, j) + o(i + 1, j) + o(i, j - 1) + o(i, j + 1)) / T(4));
   }
   any2(r, v, mut2{}, [&](auto& A) {
      for(int s = 0; s < steps; ++s) {
         auto at = [&](long i, long j) { return A.blockN(i, j, long(n - 2), long(m - 2)); };
         Array2D<T> in = (at(0, 1) + at(2, 1) + at(1, 0) + at(1, 2)) / S(T(4));
         A.block(1, 1, last - 1, last - 1) = in;
      }
      expect2(A, w, "stencil", "2D");
   });
   ev("stencil 2D");
}
void sieve(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(3, 300);
   c.note(u64(n)), c.nontrivial = true;
   logs("sieve ", n);
   V<bool> w(u(n), true);
   w[0] = w[1] = false;
   for(i64 i = 2; i < n; ++i) for(i64 d = 2; d * d <= i; ++d) if(i % d == 0) { w[u(i)] = false; break; }
   V<long> primes;
   for(i64 i = 0; i < n; ++i) if(w[u(i)]) primes.push_back(i);
   V<bool> start(u(n), true);
   any1(r, start, mut1{}, [&](auto& P) {
      P(place::firstN{2}) = false_sb;
      for(i64 i = 2; i * i < n; ++i) {
         if(!P[long(i)]) continue;
         P(seq{long(i * i), long(i * i + (n - 1 - i * i) / i * i), long(i * i + i > n - 1 ? 1 : i)}) = false_sb;
      }
      expect1(P, w, "sieve", "bits");
      auto nums = irange(long(n));
      Array1D<long> N = nums;
      Array1D<long> got = in_cond_range(N, [&](auto x) { return P[x]; });
      expect1(got, primes, "sieve primes", "primes");
   });
   ev("sieve");
}
void life(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(3, 12), m = r.in(3, 12);
   auto v = rmat<bool>(r, n, m);
   int steps = int(r.in(1, 6));
   noteall(c, v.d);
   logs("life ", steps, " steps ", show(v));
   auto w = v;
   for(int s = 0; s < steps; ++s) {
      auto o = w;
      for(i64 i = 0; i < n; ++i) for(i64 j = 0; j < m; ++j) {
         int k = 0;
         for(i64 a = -1; a <= 1; ++a) for(i64 b = -1; b <= 1; ++b)
            if((a || b) && i + a >= 0 && i + a < n && j + b >= 0 && j + b < m) k += o(i + a, j + b);
         w(i, j) = k == 3 || (k == 2 && o(i, j));
      }
   }
   any2(r, v, mut2{}, [&](auto& G) {
      Array2D<int> pad(n + 2L, m + 2L);
      for(int s = 0; s < steps; ++s) {
         auto inner = pad.blockN(1, 1, long(n), long(m));
         inner = generate(G, [](auto b) { return b ? 1_si : 0_si; });
         Array2D<int> k(1L * n, 1L * m);
         for(long a = 0; a < 3; ++a) for(long b = 0; b < 3; ++b) if(a != 1 || b != 1) k += pad.blockN(a, b, long(n), long(m));
         G = generate(inner, k, [](auto alive, auto q) { return q == 3_si || (q == 2_si && alive == 1_si); });
      }
      expect2(G, w, "life", "cells");
   });
   ev("life");
}

// ---------------------------------------------------------------------------------------------------
// Number theoretic transform by even and odd halves, and products of polynomials through it.
using ull = unsigned long;
constexpr ull MOD = 998244353, GEN = 3;
ull modpow(ull b, ull e) { ull x = 1; for(; e; e >>= 1, b = b * b % MOD) if(e & 1) x = x * b % MOD; return x; }
template <class A> Array1D<ull> ntt(const A& a, ull w) {
   long n = a.size().val();
   if(n == 1) return Array1D<ull>(a);
   Array1D<ull> e = ntt(a(place::even).eval(), w * w % MOD), o = ntt(Array1D<ull>(a(place::odd)), w * w % MOD);
   Array1D<ull> tw(1L * n / 2);
   ull x = 1;
   for(auto& t : tw) t = S(x), x = x * w % MOD;
   auto t = (tw * o) % S(MOD);
   Array1D<ull> r = merge((e + t) % S(MOD), (e + S(MOD) - t) % S(MOD));
   return r;
}
void transform(Case& c) {
   Rng& r = c.r;
   i64 lg = r.in(0, 5), n = 1L << lg;
   V<ull> v;
   for(i64 i = 0; i < n; ++i) v.push_back(r.next() % MOD);
   noteall(c, v);
   logs("NTT ", show(v));
   ull w = modpow(GEN, (MOD - 1) / ull(n));
   V<ull> f(u(n), 0);
   for(i64 k = 0; k < n; ++k) for(i64 j = 0; j < n; ++j) f[u(k)] = (f[u(k)] + v[u(j)] * modpow(w, ull(j * k))) % MOD;
   any1(r, v, rd1{}, [&](auto& A) {
      auto F = ntt(A, w);
      expect1(F, f, "transform", "forward");
      auto back = ntt(F, modpow(w, MOD - 2));
      auto B = (back * S(modpow(ull(n), MOD - 2))) % S(MOD);
      expect1(B, v, "transform back", "inverse");
   });
   ev("transform");
}
template <class T> void polyprod(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(1, 12), m = r.in(1, 12);
   auto a = rvec<T>(r, n, -9, 9), b = rvec<T>(r, m, -9, 9);
   noteall(c, a), noteall(c, b);
   logs("polynomials ", show(a), " ", show(b));
   V<T> w(u(n + m - 1), T(0));
   for(i64 i = 0; i < n; ++i) for(i64 j = 0; j < m; ++j) w[u(i + j)] = T(w[u(i + j)] + a[u(i)] * b[u(j)]);
   any1(r, a, rd1{}, [&](auto& A) {
      any1(r, b, rd1{}, [&](auto& B) {
         Array1D<T> C(long(n + m - 1)), D(long(n + m - 1));
         for(i64 i = 0; i < n; ++i) C(seqN{long(i), long(m)}) += A[long(i)] * B;
         CHECK(eq(unsigned_zero(vec(C)), unsigned_zero(w)), "polynomial product", "by shifts: got ", show(vec(C)), " expected ", show(w));
         Array1D<T> pad = merge(const1D(long(m - 1), S(T(0))), A, const1D(long(m - 1), S(T(0))));
         for(i64 k = 0; k < n + m - 1; ++k) D[long(k)] = dot_prod(pad(seqN{long(k), long(m)}), B(place::reverse));
         CHECK(eq(unsigned_zero(vec(D)), unsigned_zero(w)), "polynomial product", "by windows: got ", show(vec(D)), " expected ", show(w));
         // and its antidiagonals
         Array2D<T> outer = tensor_prod(A, B);
         auto flip = outer.cols(place::reverse);
         Array2D<T> flipped = flip;
         for(i64 k = 0; k < n + m - 1; ++k) D[long(k)] = sum(flipped.diag(long(m - 1 - k)));
         CHECK(eq(unsigned_zero(vec(D)), unsigned_zero(w)), "polynomial product", "by antidiagonals: got ", show(vec(D)), " expected ", show(w));
         auto at = S(T(2));
         if(n + m < 12 && std::is_integral_v<T>) CHECK((polynomial(C, at) == polynomial(A, at) * polynomial(B, at)), "polynomial value", "of the product at 2");
      });
   });
   ev("polynomial product");
}

// ---------------------------------------------------------------------------------------------------
// Sorting and searching.
template <class T> Array1D<T> quicksort(const Array1D<T>& a) {
   if(a.size() < 2_sl) return a;
   Strict<T> p = a[a.size().val() / 2];
   Array1D<T> lo = in_cond_range(a, [p](auto x) { return x < p; }), eq = in_cond_range(a, [p](auto x) { return x == p; }), hi = in_cond_range(a, [p](auto x) { return x > p; });
   Array1D<T> l = quicksort(lo), g2 = quicksort(hi);
   return merge(l, eq, g2).eval();
}
template <class T, class A> void msort(A& a, long lo, long n) {
   if(n < 2) return;
   msort<T>(a, lo, n / 2), msort<T>(a, lo + n / 2, n - n / 2);
   Array1D<T> l = a(seqN{lo, n / 2}), r = a(seqN{lo + n / 2, n - n / 2}), out(1L * n);
   long i = 0, j = 0;
   for(long k = 0; k < n; ++k) {
      if(j == r.size().val() || (i < l.size().val() && l[i] <= r[j])) out[k] = l[i++];
      else out[k] = r[j++];
   }
   a(seqN{lo, n}) = out;
}
template <class T> void sorting(Case& c) {
   Rng& r = c.r;
   i64 n = rsize(r, 40);
   auto v = rvec<T>(r, n, -20, 20);
   noteall(c, v);
   logs("sorting ", show(v));
   auto w = v;
   std::stable_sort(w.begin(), w.end());
   int how = int(r.below(6));
   any1(r, v, wr1{}, [&](auto& A) {
      if(how == 0) {
         Array1D<T> B = A;
         A = quicksort(B);
      } else if(how == 1) {
         msort<T>(A, 0, long(n));
      } else if(how == 2) {   // odd-even transposition on whole halves
         for(i64 s = 0; s < n; ++s) {
            i64 first = s % 2, k = (n - first) / 2;
            if(!k) continue;
            auto x = A(seqN{long(first), long(k), 2}), y = A(seqN{long(first + 1), long(k), 2});
            Array1D<T> lo = generate(x, y, [](auto p, auto q) { return mins(p, q); });
            Array1D<T> hi = generate(x, y, [](auto p, auto q) { return maxs(p, q); });
            x = lo;
            y = hi;
         }
      } else if(how == 3) {   // selection of the minimum of what is left
         for(i64 i = 0; i < n; ++i) {
            auto rest = A(span(A, i));
            auto [p, x] = min_index(rest);
            Strict<T> y = A[long(i)];
            rest[p] = y;
            A[long(i)] = x;
         }
      } else if(how == 4) {   // insertion into a growing array
         Array1D<T> B;
         for(i64 i = 0; i < n; ++i) {
            i64 p = 0;
            while(p < i && B[long(p)] <= A[long(i)]) ++p;
            B.insert(long(p), Array1D<T>{A[long(i)]});
         }
         A = B;
      } else {   // ranks
         Array1D<long> rank(1L * n);
         for(i64 i = 0; i < n; ++i) for(i64 j = 0; j < n; ++j) rank[long(i)] += A[long(j)] < A[long(i)] || (A[long(j)] == A[long(i)] && j < i) ? 1_sl : 0_sl;
         Array1D<T> B = A;
         std::vector<ImplicitInt> at;
         for(auto x : rank) at.emplace_back(x.val());
         A(at) = B;
      }
      expect1(A, w, "sorting", str("method ", how));
      ev(str("sort method ", how));
   });
}
template <class T> void stdalgo(Case& c) {
   Rng& r = c.r;
   i64 n = rsize(r, 30);
   auto v = rvec<T>(r, n, -9, 9);
   noteall(c, v);
   logs("std algorithms ", show(v));
   i64 k = n ? r.in(0, n) : 0;
   T x = rnd<T>(r, -9, 9);
   any1(r, v, wr1{}, [&](auto& A) {
      auto w = v;
      auto sameA = [&](const char* what) { expect1(A, w, "std algorithm", what); };
      std::rotate(A.begin(), A.begin() + k, A.end()), std::rotate(w.begin(), w.begin() + k, w.end());
      sameA("rotate");
      auto m1 = std::remove(A.begin(), A.end(), S(x)) - A.begin();
      auto m2 = std::remove(w.begin(), w.end(), x) - w.begin();
      CHECK(m1 == m2, "std algorithm", "remove keeps ", m1, " not ", m2);
      std::fill(A.begin() + m1, A.end(), S(T(1))), std::fill(w.begin() + m2, w.end(), T(1));
      sameA("remove");
      std::stable_partition(A.begin(), A.end(), [](auto y) { return bool(y > S(T(2))); });
      std::stable_partition(w.begin(), w.end(), [](auto y) { return y > T(2); });
      sameA("stable_partition");
      std::partial_sum(A.rbegin(), A.rend(), A.rbegin()), std::partial_sum(w.rbegin(), w.rend(), w.rbegin());
      sameA("partial_sum backwards");
      std::reverse(A.begin(), A.begin() + k), std::reverse(w.begin(), w.begin() + k);
      sameA("reverse");
      std::sort(A.begin(), A.end()), std::sort(w.begin(), w.end());
      sameA("sort");
      CHECK(std::lower_bound(A.cbegin(), A.cend(), S(x)) - A.cbegin() == std::lower_bound(w.begin(), w.end(), x) - w.begin(), "std algorithm", "lower_bound");
      CHECK(std::upper_bound(A.cbegin(), A.cend(), S(x)) - A.cbegin() == std::upper_bound(w.begin(), w.end(), x) - w.begin(), "std algorithm", "upper_bound");
      auto e1 = std::unique(A.begin(), A.end()) - A.begin();
      auto e2 = std::unique(w.begin(), w.end()) - w.begin();
      CHECK(e1 == e2, "std algorithm", "unique keeps ", e1, " not ", e2);
      std::iota(A.begin(), A.end(), S(x)), std::iota(w.begin(), w.end(), x);
      sameA("iota");
      std::transform(A.begin(), A.end(), A.rbegin(), A.begin(), [](auto p, auto q) { return p + p - q; });
      std::transform(w.begin(), w.end(), w.rbegin(), w.begin(), [](auto p, auto q) { return T(p + p - q); });
      sameA("transform with its reverse");
      std::swap_ranges(A.begin(), A.begin() + n / 2, A.begin() + (n - n / 2)), std::swap_ranges(w.begin(), w.begin() + n / 2, w.begin() + (n - n / 2));
      sameA("swap_ranges");
      if(n) {
         std::nth_element(A.begin(), A.begin() + n / 2, A.end()), std::nth_element(w.begin(), w.begin() + n / 2, w.end());
         CHECK(A[long(n / 2)].val() == w[u(n / 2)], "std algorithm", "nth_element");
      }
      std::make_heap(A.begin(), A.end()), std::sort_heap(A.begin(), A.end());
      std::sort(w.begin(), w.end());
      sameA("heap sort");
   });
   ev("std algorithms");
}

// ---------------------------------------------------------------------------------------------------
// Growing and shrinking.
void pascal(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(1, 40);
   c.note(u64(n)), c.nontrivial = n > 1;
   logs("Pascal ", n);
   V<long> w{1};
   Array1D<long> row{1_sl};
   for(i64 i = 0; i < n; ++i) {
      V<long> x(w.size() + 1, 0);
      for(size_t j = 0; j < w.size(); ++j) x[j] += w[j], x[j + 1] += w[j];
      w = x;
      int how = int(r.below(4));
      if(how == 0) {
         Array1D<long> nx = merge(0_sl, row) + merge(row, 0_sl);
         row.resize_and_assign(nx);
      } else if(how == 1) {
         row.insert(Pos{0}, Array1D<long>{0_sl});
         auto lo = row(span(row, 0, 1)), hi = row(span(row, 1));
         lo += hi;
      } else if(how == 2) {
         row.insert_back(Array1D<long>{0_sl});
         long z = row.size().val() - 1;
         auto hi = row(seq{z, 1, z > 1 ? -1 : 0});
         for(long j = 0; j < z; ++j) hi[j] += row[z - 1 - j];
      } else {
         Array1D<long> a = merge(0_sl, row), b = merge(row, 0_sl);
         auto both = merge_vertical(a.view2D(1, a.size()), b.view2D(1, b.size()));
         row.resize_and_assign(col_reduce(both, [](auto x2) { return sum(x2); }));
      }
      expect1(row, w, "pascal", str("row ", i + 1, " method ", how));
   }
   CHECK(sum(row).val() == (1L << n), "pascal sum", "sum");
   ev("Pascal");
}
template <class T> void worklist(Case& c) {
   Rng& r = c.r;
   std::deque<T> q;
   Array1D<T> A;
   int steps = int(r.in(5, 60));
   logs("queue ", steps, " steps");
   for(int s = 0; s < steps; ++s) {
      int op = int(r.below(7));
      if(op == 0 || q.empty()) {
         i64 k = r.in(1, 4);
         auto v = rvec<T>(r, k);
         auto L = mk1<Array1D<T>>(v);
         if(r.chance(50)) {
            A.insert(A.size().val(), L);
            q.insert(q.end(), v.begin(), v.end());
         } else {
            A.insert(0, L(place::reverse));
            for(T x : v) q.push_front(x);
         }
      } else if(op == 1) {
         A.remove(0, 1), q.pop_front();
      } else if(op == 2) {
         A.remove(last), q.pop_back();
      } else if(op == 3) {   // the front moves to the back
         A = merge(A(span(A, q.size() > 1)), A(place::firstN{long(q.size() > 1)})).eval();
         if(q.size() > 1) q.push_back(q.front()), q.pop_front();
      } else if(op == 4) {
         A = (A + A(place::reverse)).eval();
         auto o = q;
         for(size_t i = 0; i < o.size(); ++i) q[i] = T(o[i] + o[o.size() - 1 - i]);
         if constexpr(!std::is_unsigned_v<T>) {
            A = generate(A, [](auto x) { return S(T(long(x.val()) % 101)); }).eval();
            for(auto& x : q) x = T(long(x) % 101);
         }
      } else if(op == 5) {   // every second one leaves
         if(q.size() > 1) {
            std::vector<ImplicitInt> at;
            for(size_t i = 1; i < q.size(); i += 2) at.emplace_back(long(i));
            A.remove(at);
            std::deque<T> o;
            for(size_t i = 0; i < q.size(); i += 2) o.push_back(q[i]);
            q = o;
         }
      } else {
         std::swap(A[0], A[last]);
         std::swap(q.front(), q.back());
      }
      c.note(u64(op) + 10);
      expect1(A, V<T>(q.begin(), q.end()), "queue", str("after ", op));
   }
   c.nontrivial = true;
   ev("queue");
}
template <class T> void table(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(1, 5), m = r.in(1, 5);
   auto v = rmat<T>(r, n, m, -20, 20);
   noteall(c, v.d);
   auto A = mk2<Array2D<T>>(v);
   V<V<T>> t;
   for(i64 i = 0; i < n; ++i) t.emplace_back(v.d.begin() + i * m, v.d.begin() + (i + 1) * m);
   int steps = int(r.in(2, 12));
   logs("table ", show(v));
   auto flat = [&] {
      Mat<T> x(i64(t.size()), i64(t[0].size()));
      x.d.clear();
      for(auto& row : t) x.d.insert(x.d.end(), row.begin(), row.end());
      return x;
   };
   for(int s = 0; s < steps; ++s) {
      int op = int(r.below(8));
      i64 R = i64(t.size()), C = i64(t[0].size());
      if(op == 0 && C < 9) {   // a column of row sums
         Array2D<T> k(1L * R, 1L);
         k.col(0) = row_reduce(A, [](auto x) { return sum(x); });
         i64 p = r.in(0, C);
         A.insert_cols(long(p), k);
         for(auto& row : t) row.insert(row.begin() + p, T(std::accumulate(row.begin(), row.end(), T(0))));
      } else if(op == 1 && R < 9) {   // a row of column maxima
         Array2D<T> k(1L, 1L * C);
         k.row(0) = col_reduce(A, [](auto x) { return max(x); });
         i64 p = r.in(0, R);
         A.insert_rows(long(p), k);
         V<T> mx(u(C));
         for(i64 j = 0; j < C; ++j) {
            T b = t[0][u(j)];
            for(auto& row : t) b = std::max(b, row[u(j)]);
            mx[u(j)] = b;
         }
         t.insert(t.begin() + p, mx);
      } else if(op == 2 && R > 1) {
         i64 p = r.in(0, R - 1);
         A.remove_rows(long(p), 1), t.erase(t.begin() + p);
      } else if(op == 3 && C > 1) {
         i64 p = r.in(0, C - 1);
         A.remove_cols(long(p), 1);
         for(auto& row : t) row.erase(row.begin() + p);
      } else if(op == 4) {   // transposed
         Array2D<T> B = transpose(A);
         A.resize_and_assign(B);
         V<V<T>> o(u(C), V<T>(u(R)));
         for(i64 i = 0; i < R; ++i) for(i64 j = 0; j < C; ++j) o[u(j)][u(i)] = t[u(i)][u(j)];
         t = o;
      } else if(op == 5) {   // rows in the order of their first element
         std::vector<ImplicitInt> at;
         V<i64> idx(u(R));
         std::iota(idx.begin(), idx.end(), 0);
         std::stable_sort(idx.begin(), idx.end(), [&](i64 x, i64 y) { return t[u(x)][0] < t[u(y)][0]; });
         V<V<T>> o;
         for(i64 i : idx) at.emplace_back(long(i)), o.push_back(t[u(i)]);
         A = A.rows(at).eval();
         t = o;
      } else if(op == 6) {   // every row less its first element
         Array1D<T> k = A.col(0);
         for(i64 j = 0; j < C; ++j) A.col(long(j)) -= k;
         for(auto& row : t) { T f = row[0]; for(auto& x : row) x = T(x - f); }
      } else {   // reshaped into one row and back, backwards
         auto one = A.view1D();
         Array1D<T> b = one(place::reverse);
         one = b;
         V<T> all;
         for(auto& row : t) all.insert(all.end(), row.begin(), row.end());
         std::reverse(all.begin(), all.end());
         for(i64 i = 0; i < R; ++i) for(i64 j = 0; j < C; ++j) t[u(i)][u(j)] = all[u(i * C + j)];
      }
      c.note(u64(op) + 10);
      expect2(A, flat(), "table", str("after ", op));
      for(auto& row : t) for(T x : row) if(std::abs(double(x)) > 1e8) return;
   }
   ev("table");
}
void sets(Case& c) {
   Rng& r = c.r;
   std::set<int> w;
   Array1D<int> A;
   int steps = int(r.in(5, 50));
   logs("set ", steps);
   for(int s = 0; s < steps; ++s) {
      int x = int(r.in(-12, 12));
      c.note(u64(x + 50));
      long p = std::lower_bound(A.begin(), A.end(), Strict{x}) - A.begin();
      bool in = p < A.size().val() && A[p].val() == x;
      CHECK(in == (w.count(x) == 1), "set", "membership of ", x);
      if(in) A.remove(p), w.erase(x);
      else A.insert(p, const1D(1, Strict{x})), w.insert(x);
      expect1(A, V<int>(w.begin(), w.end()), "set", str("after ", x));
   }
   c.nontrivial = true;
   ev("set");
}

// ---------------------------------------------------------------------------------------------------
// Graphs, permutations, scans.
template <class T> void floyd(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(1, 8);
   auto d = rmat<T>(r, n, n, 1, 60);
   for(i64 i = 0; i < n; ++i) d(i, i) = T(0);
   noteall(c, d.d);
   logs("shortest paths ", show(d));
   auto w = d;
   for(i64 k = 0; k < n; ++k) for(i64 i = 0; i < n; ++i) for(i64 j = 0; j < n; ++j) w(i, j) = std::min<T>(w(i, j), T(w(i, k) + w(k, j)));
   any2(r, d, mut2{}, [&](auto& D) {
      for(i64 k = 0; k < n; ++k) {
         auto col = D.col(long(k));
         auto row = D.row(long(k));
         auto via = col_broadcast(col) + row_broadcast(row);
         Array2D<T> nd = generate(D, via, [](auto x, auto y) { return mins(x, y); });
         D = nd;
      }
      expect2(D, w, "shortest paths", "distances");
   });
   ev("shortest paths");
}
template <class T> void perms(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(1, 12), m = r.in(1, 8);
   auto v = rmat<T>(r, n, m);
   noteall(c, v.d);
   V<i64> p(u(n)), q(u(n));
   std::iota(p.begin(), p.end(), 0);
   for(i64 i = n - 1; i > 0; --i) std::swap(p[u(i)], p[u(r.in(0, i))]);
   for(i64 i = 0; i < n; ++i) q[u(p[u(i)])] = i;
   logs("permutation ", show(p), " of ", show(v));
   Mat<T> w(n, m);
   for(i64 i = 0; i < n; ++i) for(i64 j = 0; j < m; ++j) w(i, j) = v(p[u(i)], j);
   auto P = implicit(p), Q = implicit(q);
   any2(r, v, kinds<0, 1, 2, 4>{}, [&](auto& A) {
      Array2D<T> B = A.rows(P);
      expect2(B, w, "permutation", "read");
      Array2D<T> C(1L * n, 1L * m);
      C.rows(P) = A.rows(P);
      expect2(C, v, "permutation", "read and written alike");
      C.rows(Q) = A;
      expect2(C, w, "permutation", "written by the inverse");
      expect2(B.rows(Q), v, "permutation", "back");
      // as a matrix
      Array2D<T> M(1L * n, 1L * n);
      for(i64 i = 0; i < n; ++i) M(long(i), long(p[u(i)])) = S(T(1));
      for(i64 j = 0; j < m; ++j) expect1(matvec_prod(M, A.col(long(j))), vec(B.col(long(j))), "permutation", "as a matrix");
      // cycles: applying it until it is back
      Array2D<T> X = A;
      V<i64> cur(u(n));
      std::iota(cur.begin(), cur.end(), 0);
      for(int s = 0; s < 5; ++s) {
         X = X.rows(P).eval();
         V<i64> nx(u(n));
         for(i64 i = 0; i < n; ++i) nx[u(i)] = cur[u(p[u(i)])];
         cur = nx;
      }
      Mat<T> w5(n, m);
      for(i64 i = 0; i < n; ++i) for(i64 j = 0; j < m; ++j) w5(i, j) = v(cur[u(i)], j);
      expect2(X, w5, "permutation", "five times");
      // a quarter turn is a transposition and a reversal; four of them are none
      Array2D<T> t = transpose(A);
      Array2D<T> q1 = t.cols(place::reverse);
      Mat<T> wq(m, n);
      for(i64 i = 0; i < m; ++i) for(i64 j = 0; j < n; ++j) wq(i, j) = v(n - 1 - j, i);
      expect2(q1, wq, "rotation", "quarter turn");
      Array2D<T> q4 = A;
      for(int k = 0; k < 4; ++k) {
         Array2D<T> tt = transpose(q4);
         q4.resize_and_assign(tt.cols(place::reverse));
      }
      expect2(q4, v, "rotation", "four quarter turns");
   });
   ev("permutation");
}
template <class T> void scan(Case& c) {
   Rng& r = c.r;
   i64 n = rsize(r, 60);
   auto v = rvec<T>(r, n, -20, 20);
   noteall(c, v);
   logs("scan ", show(v));
   V<T> w = v;
   for(i64 i = 1; i < n; ++i) w[u(i)] = T(w[u(i)] + w[u(i - 1)]);
   any1(r, v, wr1{}, [&](auto& A) {
      for(i64 s = 1; s < n; s *= 2) {
         auto hi = A(place::lastN{long(n - s)}), lo = A(place::firstN{long(n - s)});
         hi = (hi + lo).eval();
      }
      expect1(A, w, "scan", "prefix sums");
      // and back by differences
      if(n > 1) {
         auto hi = A(span(A, 1)), lo = A(span(A, 0, 1));
         Array1D<T> d = hi - lo;
         hi = d;
      }
      expect1(A, v, "scan", "differences");
   });
   ev("scan");
}
template <class T> void toeplitz(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(1, 8), m = r.in(1, 8);
   auto d = rvec<T>(r, n + m - 1, -9, 9);
   auto x = rvec<T>(r, m, -9, 9);
   noteall(c, d), c.note(u64(n));
   logs("Toeplitz ", n, "x", m, " ", show(d), " ", show(x));
   Mat<T> w(n, m);
   V<T> y(u(n), T(0));
   for(i64 i = 0; i < n; ++i) for(i64 j = 0; j < m; ++j) w(i, j) = d[u(j - i + n - 1)], y[u(i)] = T(y[u(i)] + w(i, j) * x[u(j)]);
   Array2D<T> A(1L * n, 1L * m);
   for(i64 k = -(n - 1); k < m; ++k) A.diag(long(k)) = S(T(d[u(k + n - 1)]));
   expect2(A, w, "toeplitz", "by diagonals");
   any1(r, x, rd1{}, [&](auto& X) { expect1(matvec_prod(A, X), y, "toeplitz", "times a vector"); });
   Array2D<T> B(1L * n, 1L * m);
   auto D = mk1<Array1D<T>>(d);
   for(i64 i = 0; i < n; ++i) B.row(long(i)) = D(seqN{long(n - 1 - i), long(m)});
   CHECK(bool(A == B), "toeplitz", "by rows differs from by diagonals");
   Strict<T> tr = S(T(0));
   for(auto e : A.diag()) tr += e;
   CHECK(tr.val() == T(T(std::min(n, m)) * d[u(n - 1)]), "toeplitz", "trace");
   ev("Toeplitz");
}

// ---------------------------------------------------------------------------------------------------
// Text.
template <class T> void textual(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(1, 5), m = r.in(1, 5);
   auto v = rmat<T>(r, n, m);
   noteall(c, v.d);
   logs("text ", show(v));
   any2(r, v, rd2{}, [&](auto& A) {
      std::stringstream s;
      s << A;
      Array2D<T> B;
      s >> B;
      expect2(B, v, "text", "read back");
      std::stringstream t;
      t << B.view1D()(place::reverse);
      Array1D<T> R;
      t >> R;
      auto w = v.d;
      std::reverse(w.begin(), w.end());
      expect1(R, w, "text", "reversed");
   });
   ev("text");
}

// ---------------------------------------------------------------------------------------------------
// Straight-line programs over registers in different storage: every statement has its loop beside it.
template <class T> bool tame(V<T>& v) {
   if constexpr(std::is_floating_point_v<T>) {
      for(T x : v) if(!(std::abs((long double)x) < 1e12L)) return false;
   }
   return true;
}
template <class T, bool Wrap = std::is_unsigned_v<T>> void line1(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(2, 24);
   V<T> w[4];
   for(auto& x : w) x = rvec<T>(r, n, 0, 20);
   noteall(c, w[0]);
   auto a = mk1<Array1D<T>>(w[0]);
   auto b = mk1<Array1D<T, Aligned>>(w[1]);
   Array1D<T> backing(2L * n + 1);
   auto d = backing(seqN{2 * n - 1, 1L * n, -2});
   Array2D<T> grid(3L, 1L * n);
   auto e = grid.row(1);
   fill1(d, w[2]), fill1(e, w[3]);
   int steps = int(r.in(3, 30));
   logs("program 1D ", show(w[0]), show(w[1]), show(w[2]), show(w[3]));
   auto& A = w[0]; auto& B = w[1]; auto& D = w[2]; auto& E = w[3];
   auto all = [&](auto f) { for(size_t i = 0; i < size_t(n); ++i) f(i); };
   for(int s = 0; s < steps; ++s) {
      int op = int(r.below(24));
      T k = rnd<T>(r, 1, 9);
      i64 p = r.in(0, n - 1), l = r.in(1, n - p), q = r.in(0, n - l);
      c.note(u64(op) * 32 + u64(p));
      logs("op ", op, " k ", show(k), " at ", p, "+", l, " from ", q);
      auto K = S(k);
      switch(op) {
      case 0: a = b + d * K; all([&](size_t i) { A[i] = T(B[i] + D[i] * k); }); break;
      case 1: e = (a - b) * K + d; all([&](size_t i) { E[i] = T((A[i] - B[i]) * k + D[i]); }); break;
      case 2: d += a * e; all([&](size_t i) { D[i] = T(D[i] + A[i] * E[i]); }); break;
      case 3: b -= d + d; all([&](size_t i) { B[i] = T(B[i] - (D[i] + D[i])); }); break;
      case 4: a(seqN{p, l}) = b(seqN{q, l}) + K; for(i64 i = 0; i < l; ++i) A[u(p + i)] = T(B[u(q + i)] + k); break;
      case 5: d(seqN{p + l - 1, l, -1}) = a(seqN{q, l}); for(i64 i = 0; i < l; ++i) D[u(p + l - 1 - i)] = A[u(q + i)]; break;
      case 6: e = merge(a(seqN{0, p}), b(seqN{0, n - p})); all([&](size_t i) { E[i] = i64(i) < p ? A[i] : B[i - u(p)]; }); break;
      case 7: { Array1D<T> t = merge(exclude(a, p), K); a = t; A.erase(A.begin() + p), A.push_back(k); break; }
      case 8: b = d(place::reverse); all([&](size_t i) { B[i] = D[size_t(n) - 1 - i]; }); break;
      case 9: a(place::even) = K; for(i64 i = 0; i < n; i += 2) A[u(i)] = k; break;
      case 10: e(place::odd) += e(place::odd); for(i64 i = 1; i < n; i += 2) E[u(i)] = T(E[u(i)] + E[u(i)]); break;
      case 11: d = generate(a, b, [](auto x, auto y) { return maxs(x, y) + S(T(0)); }); all([&](size_t i) { D[i] = T(std::max(A[i], B[i]) + T(0)); }); break;   // either of two zeros
      case 12: a *= K; a += d; all([&](size_t i) { A[i] = T(A[i] * k); A[i] = T(A[i] + D[i]); }); break;
      case 13: b = a / K; all([&](size_t i) { B[i] = T(A[i] / k); }); break;
      case 14: in_cond_range(e, [K](auto x) { return x > K; }) = K; all([&](size_t i) { if(E[i] > k) E[i] = k; }); break;
      case 15: { std::vector<ImplicitInt> at{p, q}; if(p != q) { a(at) = Array1D<T>(merge(b[long(q)], d(seqN{p, 1}))); A[u(p)] = B[u(q)], A[u(q)] = D[u(p)]; } break; }
      case 16: grid.row(0) = a + e; grid.row(2) = a - e; e = col_reduce(grid.rows(seqN{0, 2, 2}), [](auto x) { return x[0] + x[1]; });
         all([&](size_t i) { E[i] = T(T(A[i] + E[i]) + T(A[i] - E[i])); }); break;
      case 17: a.insert(p, b(seqN{q, l})); a.remove_back(l); A.insert(A.begin() + p, B.begin() + q, B.begin() + q + l), A.resize(u(n)); break;
      case 18: sort_increasing(b(seqN{p, l})); std::sort(B.begin() + p, B.begin() + p + l); break;
      case 19: std::rotate(d.begin(), d.begin() + p, d.end()); std::rotate(D.begin(), D.begin() + p, D.end()); break;
      case 20: backing(place::even) = K; break;   // beside the register
      case 21: b = generate(d, [K](auto x) { return x > K ? x - K : K - x; }); all([&](size_t i) { B[i] = T(D[i] > k ? D[i] - k : k - D[i]); }); break;
      case 22: { auto ex = a + b; auto ey = ex * d; e = ey - ex; all([&](size_t i) { T x = T(A[i] + B[i]); E[i] = T(T(x * D[i]) - x); }); break; }
      default: { Array1D<T> t = a; a = b; b = t; std::swap(A, B); break; }
      }
      expect1(a, A, "program", str("1D: first register after ", op));
      expect1(b, B, "program", str("1D: second register after ", op));
      expect1(d, D, "program", str("1D: third register after ", op));
      expect1(e, E, "program", str("1D: fourth register after ", op));
      bool again = false;
      for(auto& x : w) {
         bool big = !tame(x);
         if constexpr(!Wrap && std::is_integral_v<T>) for(T y : x) big = big || std::abs(long(y)) > 1000;
         again = again || big;
      }
      if(again) {
         for(auto& x : w) x = rvec<T>(r, n, 0, 20);
         fill1(a, A), fill1(b, B), fill1(d, D), fill1(e, E);
      }
      ev("statement 1D");
   }
}
template <class T> void line2(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(1, 7), m = r.in(1, 7);
   Mat<T> w[3];
   for(auto& x : w) x = rmat<T>(r, n, m, 0, 20);
   noteall(c, w[0].d);
   auto a = mk2<Array2D<T>>(w[0]);
   Array2D<T, Aligned> big(n + 3, m + 2);
   auto b = big.blockN(2, 1, n, m);
   Array1D<T> line(1L * n * m);
   auto d = line.view2D(n, m);
   fill2(b, w[1]), fill2(d, w[2]);
   int steps = int(r.in(3, 25));
   logs("program 2D ", show(w[0]), show(w[1]), show(w[2]));
   auto& A = w[0]; auto& B = w[1]; auto& D = w[2];
   auto all = [&](auto f) { for(i64 i = 0; i < n; ++i) for(i64 j = 0; j < m; ++j) f(i, j); };
   for(int s = 0; s < steps; ++s) {
      int op = int(r.below(20));
      T k = rnd<T>(r, 1, 9);
      auto K = S(k);
      i64 i0 = r.in(0, n - 1), j0 = r.in(0, m - 1), nr = r.in(1, n - i0), nc = r.in(1, m - j0), i1 = r.in(0, n - nr), j1 = r.in(0, m - nc);
      c.note(u64(op) * 64 + u64(i0 * 8 + j0));
      logs("op ", op, " k ", show(k), " block ", i0, ",", j0, " ", nr, "x", nc, " from ", i1, ",", j1);
      switch(op) {
      case 0: a = b * K + d; all([&](i64 i, i64 j) { A(i, j) = T(T(B(i, j) * k) + D(i, j)); }); break;
      case 1: b += a - d; all([&](i64 i, i64 j) { B(i, j) = T(B(i, j) + T(A(i, j) - D(i, j))); }); break;
      case 2: d.blockN(i0, j0, nr, nc) = a.blockN(i1, j1, nr, nc); for(i64 i = 0; i < nr; ++i) for(i64 j = 0; j < nc; ++j) D(i0 + i, j0 + j) = A(i1 + i, j1 + j); break;
      case 3: a.row(i0) = b.row(i1) + K; for(i64 j = 0; j < m; ++j) A(i0, j) = T(B(i1, j) + k); break;
      case 4: b.col(j0) -= d.col(j1); for(i64 i = 0; i < n; ++i) B(i, j0) = T(B(i, j0) - D(i, j1)); break;
      case 5: a = merge_vertical(b.rows(seqN{0, i0}), d.rows(seqN{0, n - i0})); all([&](i64 i, i64 j) { A(i, j) = i < i0 ? B(i, j) : D(i - i0, j); }); break;
      case 6: d = merge_horizontal(a.cols(seqN{0, j0}), b.cols(seqN{0, m - j0})); all([&](i64 i, i64 j) { D(i, j) = j < j0 ? A(i, j) : B(i, j - j0); }); break;
      case 7: b = a(place::reverse, place::reverse); all([&](i64 i, i64 j) { B(i, j) = A(n - 1 - i, m - 1 - j); }); break;
      case 8: { Array2D<T> t = transpose(d); a = transpose(t + transpose(b)); all([&](i64 i, i64 j) { A(i, j) = T(D(i, j) + B(i, j)); }); break; }
      case 9: a.insert_row(i0, b.row(i1)); a.remove_row(n);
         for(i64 i = n - 1; i > i0; --i) for(i64 j = 0; j < m; ++j) A(i, j) = A(i - 1, j);
         for(i64 j = 0; j < m; ++j) A(i0, j) = B(i1, j);
         break;
      case 10: a.insert_col(j0, d.col(j1)); a.remove_col(last);
         for(i64 j = m - 1; j > j0; --j) for(i64 i = 0; i < n; ++i) A(i, j) = A(i, j - 1);
         for(i64 i = 0; i < n; ++i) A(i, j0) = D(i, j1);
         break;
      case 11: line(place::even) = K; for(i64 i = 0; i < n * m; i += 2) D.d[u(i)] = k; break;
      case 12: a.view1D() = line(place::reverse); for(i64 i = 0; i < n * m; ++i) A.d[u(i)] = D.d[u(n * m - 1 - i)]; break;
      case 13: b = tensor_prod(a.col(j0), d.row(i0)); all([&](i64 i, i64 j) { B(i, j) = T(A(i, j0) * D(i0, j)); }); break;
      case 14: a.diag() = K; for(i64 i = 0; i < std::min(n, m); ++i) A(i, i) = k; break;
      case 15: b.rows(seqN{i0, nr}) += a.rows(seqN{i1, nr}); for(i64 i = 0; i < nr; ++i) for(i64 j = 0; j < m; ++j) B(i0 + i, j) = T(B(i0 + i, j) + A(i1 + i, j)); break;
      case 16: d = generate(a, b, [](auto x, auto y) { return mins(x, y) + S(T(0)); }); all([&](i64 i, i64 j) { D(i, j) = T(std::min(A(i, j), B(i, j)) + T(0)); }); break;
      case 17: { Array1D<T> t = row_reduce(b, [](auto x) { return max(x) + S(T(0)); }); a.col(j0) = t; for(i64 i = 0; i < n; ++i) { T z = B(i, 0); for(i64 j = 1; j < m; ++j) z = std::max(z, B(i, j)); A(i, j0) = T(z + T(0)); } break; }
      case 18: for(auto row : RowIt(a)) row += K; for(auto& x : A.d) x = T(x + k); break;
      default: big.row(0) = K; big.col(0) = K; big.col(last) = K; break;   // around the register
      }
      expect2(a, A, "program", str("2D: first register after ", op));
      expect2(b, B, "program", str("2D: second register after ", op));
      expect2(d, D, "program", str("2D: third register after ", op));
      bool again = false;
      for(auto& x : w) {
         bool bigv = !tame(x.d);
         if constexpr(std::is_integral_v<T> && !std::is_unsigned_v<T>) for(T y : x.d) bigv = bigv || std::abs(long(y)) > 1000;
         again = again || bigv;
      }
      if(again) {
         for(auto& x : w) x = rmat<T>(r, n, m, 0, 20);
         fill2(a, A), fill2(b, B), fill2(d, D);
      }
      ev("statement 2D");
   }
}

template <int K> void one(Case& c) {
   if constexpr(K == 0) lu<double>(c);
   else if constexpr(K == 1) lu<float>(c);
   else if constexpr(K == 2) gauss_jordan<double>(c);
   else if constexpr(K == 3) gauss_jordan<long double>(c);
   else if constexpr(K == 4) jacobi<double>(c);
   else if constexpr(K == 5) products<long>(c);
   else if constexpr(K == 6) products<double>(c);
   else if constexpr(K == 7) strassen_case<unsigned>(c);
   else if constexpr(K == 8) bareiss(c);
   else if constexpr(K == 9) kronecker<int>(c);
   else if constexpr(K == 10) stencil1<double>(c);
   else if constexpr(K == 11) stencil1<long>(c);
   else if constexpr(K == 12) stencil2<float>(c);
   else if constexpr(K == 13) sieve(c);
   else if constexpr(K == 14) life(c);
   else if constexpr(K == 15) transform(c);
   else if constexpr(K == 16) polyprod<long>(c);
   else if constexpr(K == 17) polyprod<double>(c);
   else if constexpr(K == 18) sorting<double>(c);
   else if constexpr(K == 19) sorting<int>(c);
   else if constexpr(K == 20) stdalgo<long>(c);
   else if constexpr(K == 21) pascal(c);
   else if constexpr(K == 22) worklist<int>(c);
   else if constexpr(K == 23) worklist<unsigned long>(c);
   else if constexpr(K == 24) table<long>(c);
   else if constexpr(K == 25) table<double>(c);
   else if constexpr(K == 26) sets(c);
   else if constexpr(K == 27) floyd<int>(c);
   else if constexpr(K == 28) floyd<double>(c);
   else if constexpr(K == 29) perms<long>(c);
   else if constexpr(K == 30) scan<unsigned>(c);
   else if constexpr(K == 31) scan<double>(c);
   else if constexpr(K == 32) toeplitz<int>(c);
   else if constexpr(K == 33) textual<double>(c);
   else if constexpr(K == 34) textual<int>(c);
   else if constexpr(K == 35) line1<unsigned>(c);
   else if constexpr(K == 36) line1<double>(c);
   else if constexpr(K == 37) line1<int>(c);
   else if constexpr(K == 38) line1<float>(c);
   else if constexpr(K == 39) line2<unsigned long>(c);
   else if constexpr(K == 40) line2<double>(c);
   else line2<int>(c);
}
constexpr int PROGRAMS = 42;

} // namespace

int main(int argc, char** argv) {
   return run(argc, argv, [](Case& c) { dispatch<PROGRAMS>(c, []<int K>(Case& x) { one<K>(x); }); });
}
