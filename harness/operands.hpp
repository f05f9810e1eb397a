// The same values held in every kind of storage the library offers.
#pragma once
#include "slices.hpp"

namespace h {

template <class T> spp::Strict<T> S(T x) { return spp::Strict<T>{x}; }
template <class T> T noise(Rng& r) { return rnd<T>(r, 1, 60); }

inline constexpr int kinds1 = 9;   // 9 is a fixed-size array, for 7 elements only
inline const char* kname1[] = {"dyn", "aligned", "stride2", "reverse", "list", "view1D", "attach", "expr", "col.slice", "fixed7"};
inline constexpr int kinds2 = 8;   // 8 is a fixed-size array, for 3x4 only
inline const char* kname2[] = {"dyn", "aligned", "block", "lists", "view2D", "attach", "expr", "strided", "fixed3x4"};

// Calls f(object) with a one-dimensional object of kind K holding v.
template <int K, class T, class F> void hold1(Rng& r, const std::vector<T>& v, F f) {
   using namespace spp;
   i64 n = i64(v.size());
   if constexpr(K == 0) {
      auto a = mk1<Array1D<T>>(v);
      f(a);
   } else if constexpr(K == 1) {
      auto a = mk1<Array1D<T, Aligned>>(v);
      f(a);
   } else if constexpr(K == 2) {
      std::vector<T> b(size_t(2 * n + 3));
      for(auto&& x : b) x = noise<T>(r);
      for(i64 i = 0; i < n; ++i) b[size_t(1 + 2 * i)] = v[size_t(i)];
      auto a = mk1<Array1D<T>>(b);
      auto s = a(seqN{1, long(n), 2});
      f(s);
   } else if constexpr(K == 3) {
      std::vector<T> b(v.rbegin(), v.rend());
      auto a = mk1<Array1D<T, Aligned>>(b);
      auto s = a(place::reverse);
      f(s);
   } else if constexpr(K == 4) {
      std::vector<T> b(size_t(n + 2));
      for(auto&& x : b) x = noise<T>(r);
      Idx p = arith(0, n + 2, 1);
      for(i64 i = n + 1; i > 0; --i) std::swap(p[size_t(i)], p[size_t(r.in(0, i))]);
      p.resize(size_t(n));
      for(i64 i = 0; i < n; ++i) b[size_t(p[size_t(i)])] = v[size_t(i)];
      auto a = mk1<Array1D<T>>(b);
      auto s = a(implicit(p));
      f(s);
   } else if constexpr(K == 5) {
      i64 p = n ? r.in(1, n) : 0;
      while(n && n % p) --p;
      Array2D<T> a(1L * p, n ? 1L * (n / p) : 0L);
      fill1(a, v);
      auto s = a.view1D();
      f(s);
   } else if constexpr(K == 6) {
      std::vector<T> b(v);
      if constexpr(std::is_same_v<T, bool>) {
         std::array<bool, 700> c{};
         for(size_t i = 0; i < v.size(); ++i) c[i] = v[i];
         const bool* q = c.data();
         auto s = attach1D(q, long(n));
         f(s);
      } else {
         const T* q = b.data();
         auto s = attach1D(q, long(n));
         f(s);
      }
   } else if constexpr(K == 7) {
      auto a = mk1<Array1D<T>>(v);
      auto e = generate(a, [](auto x) { return x; });
      f(e);
   } else if constexpr(K == 8) {
      Array2D<T> a(long(n + 2), 3L);
      for(i64 i = 0; i < (n + 2) * 3; ++i) a.un(long(i)) = S<T>(noise<T>(r));
      for(i64 i = 0; i < n; ++i) a.un(long(i + 1), 1L) = S<T>(T(v[size_t(i)]));
      auto s = a.col(1)(seqN{1, long(n)});
      f(s);
   } else {
      FixedArray1D<T, 7> a;
      fill1(a, v);
      f(a);
   }
}

// Calls f(object) with a two-dimensional object of kind K holding m.
template <int K, class T, class F> void hold2(Rng& r, const Mat<T>& m, F f) {
   using namespace spp;
   i64 nr = m.r, nc = m.c;
   if constexpr(K == 0) {
      auto a = mk2<Array2D<T>>(m);
      f(a);
   } else if constexpr(K == 1) {
      auto a = mk2<Array2D<T, Aligned>>(m);
      f(a);
   } else if constexpr(K == 2) {
      Mat<T> b(nr + 2, nc + 2);
      for(auto&& x : b.d) x = noise<T>(r);
      for(i64 i = 0; i < nr; ++i)
         for(i64 j = 0; j < nc; ++j) b(i + 1, j + 1) = m(i, j);
      auto a = mk2<Array2D<T>>(b);
      auto s = a.blockN(1, 1, long(nr), long(nc));
      f(s);
   } else if constexpr(K == 3) {
      Mat<T> b(nr + 1, nc + 1);
      for(auto&& x : b.d) x = noise<T>(r);
      auto perm = [&](i64 n) {
         Idx p = arith(0, n + 1, 1);
         for(i64 i = n; i > 0; --i) std::swap(p[size_t(i)], p[size_t(r.in(0, i))]);
         p.resize(size_t(n));
         return p;
      };
      Idx p = perm(nr), q = perm(nc);
      for(i64 i = 0; i < nr; ++i)
         for(i64 j = 0; j < nc; ++j) b(p[size_t(i)], q[size_t(j)]) = m(i, j);
      auto a = mk2<Array2D<T>>(b);
      auto s = a(implicit(p), implicit(q));
      f(s);
   } else if constexpr(K == 4) {
      auto a = mk1<Array1D<T>>(m.d);
      auto s = a.view2D(long(nr), long(nc));
      f(s);
   } else if constexpr(K == 5) {
      std::vector<char> raw((m.d.size() + 1) * sizeof(T));
      T* p = reinterpret_cast<T*>(raw.data());
      for(size_t i = 0; i < m.d.size(); ++i) p[i] = m.d[i];
      const T* q = p;
      auto s = attach2D(q, long(nr), long(nc));
      f(s);
   } else if constexpr(K == 6) {
      auto a = mk2<Array2D<T>>(m);
      auto e = generate(a, [](auto x) { return x; });
      f(e);
   } else if constexpr(K == 7) {
      Mat<T> b(2 * nr + 1, 2 * nc + 1);
      for(auto&& x : b.d) x = noise<T>(r);
      for(i64 i = 0; i < nr; ++i)
         for(i64 j = 0; j < nc; ++j) b(2 * i + 1, 2 * (nc - 1 - j)) = m(i, j);
      auto a = mk2<Array2D<T>>(b);
      auto s = nr && nc ? a(seqN{1, long(nr), 2}, seqN{long(2 * (nc - 1)), long(nc), -2}) : a(seqN{0, 0, 1}, seqN{0, 0, 1});
      f(s);
   } else {
      FixedArray2D<T, 3, 4> a;
      fill2(a, m);
      f(a);
   }
}

template <class T> bool fits1(int k, const std::vector<T>& v) { return (k != 9 || v.size() == 7) && (k != 6 || v.size() <= 700); }
template <class T> bool fits2(int k, const Mat<T>& m) { return k != 8 || (m.r == 3 && m.c == 4); }

// One of the listed kinds, chosen at random (the first one if the choice does not fit).
template <class T, class F, int... K> void any1(Rng& r, const std::vector<T>& v, std::integer_sequence<int, K...>, F f) {
   constexpr int ks[] = {K...};
   int k = ks[r.below(sizeof...(K))];
   if(!fits1(k, v)) k = ks[0];
   ev(kname1[k]);
   (void)((K == k && (hold1<K, T>(r, v, f), true)) || ...);
}
template <class T, class F, int... K> void any2(Rng& r, const Mat<T>& m, std::integer_sequence<int, K...>, F f) {
   constexpr int ks[] = {K...};
   int k = ks[r.below(sizeof...(K))];
   if(!fits2(k, m)) k = ks[0];
   ev(kname2[k]);
   (void)((K == k && (hold2<K, T>(r, m, f), true)) || ...);
}
template <int... K> using kinds = std::integer_sequence<int, K...>;
using all1 = kinds<0, 1, 2, 3, 4, 5, 6, 7, 8, 9>;
using all2 = kinds<0, 1, 2, 3, 4, 5, 6, 7, 8>;

// Two operands, over a list of pairs of kinds given as 16*first+second.
template <class T, class F, int... P> void pair1(Rng& r, const std::vector<T>& v, const std::vector<T>& w, kinds<P...>, F f) {
   constexpr int ps[] = {P...};
   int p = ps[r.below(sizeof...(P))];
   if(!fits1(p / 16, v) || !fits1(p % 16, w)) p = ps[0];
   ev(std::string(kname1[p / 16]) + "," + kname1[p % 16]);
   (void)((P == p && (hold1<P / 16, T>(r, v, [&](auto& a) { hold1<P % 16, T>(r, w, [&](auto& b) { f(a, b); }); }), true)) || ...);
}
template <class T, class F, int... P> void pair2(Rng& r, const Mat<T>& v, const Mat<T>& w, kinds<P...>, F f) {
   constexpr int ps[] = {P...};
   int p = ps[r.below(sizeof...(P))];
   if(!fits2(p / 16, v) || !fits2(p % 16, w)) p = ps[0];
   ev(std::string("2D.") + kname2[p / 16] + "," + kname2[p % 16]);
   (void)((P == p && (hold2<P / 16, T>(r, v, [&](auto& a) { hold2<P % 16, T>(r, w, [&](auto& b) { f(a, b); }); }), true)) || ...);
}
using pairs1 = kinds<0x00, 0x12, 0x24, 0x37, 0x44, 0x58, 0x06, 0x73, 0x85, 0x61, 0x77, 0x99>;
using pairs2 = kinds<0x00, 0x12, 0x23, 0x34, 0x46, 0x57, 0x60, 0x71, 0x33, 0x66, 0x88>;

} // namespace h
