// P23: iterators of arrays, slices, expressions, rows, columns and index ranges; sort, shuffle and standard algorithms.
#include "operands.hpp"
#include "slices.hpp"
#include <numeric>
#include <span>
using namespace h;
using namespace spp;

// The value at an iterator: an element, or the elements of a row or column.
template <class X> auto value_at(const X& x) {
   if constexpr(requires { x.un(0L); }) return vec(x);
   else return x.val();
}

// Random-access laws of [b, e) over the values v.
template <class It, class V> void laws(Rng& r, It b, It e, const std::vector<V>& v, const std::string& what) {
   const i64 n = i64(v.size());
   auto at = [&](i64 k) { return V(v[size_t(k)]); };
   CHECK(e - b == n, "difference", what, ": end - begin is ", e - b, " instead of ", n);
   CHECK(b - e == -n, "difference", what, ": begin - end is ", b - e);
   CHECK(std::distance(b, e) == n, "difference", what, ": distance is ", std::distance(b, e));
   // traversal forth and back
   i64 k = 0;
   for(auto it = b; it != e; ++it, ++k) {
      CHECK(k < n, "traversal", what, ": visits more than ", n, " elements");
      CHECK(value_at(*it) == at(k), "traversal", what, " position ", k);
   }
   CHECK(k == n, "traversal", what, ": visits ", k, " of ", n, " elements");
   for(auto it = e; it != b;) {
      --it, --k;
      CHECK(k >= 0, "traversal", what, ": visits more than ", n, " elements backwards");
      CHECK(value_at(*it) == at(k), "traversal", what, " position ", k, " backwards");
   }
   k = 0;
   for(auto it = b; it < e; it++) { CHECK(value_at(*it) == at(k), "traversal", what, " position ", k, " by it++"); ++k; }
   CHECK(k == n, "traversal", what, ": visits ", k, " of ", n, " by it++");
   for(int rep = 0; rep < 8; ++rep) {
      const i64 i = r.in(0, n), j = r.in(0, n);
      const It p = b + long(i), q = b + long(j);
      CHECK(p - b == i && e - p == n - i, "advance", what, ": (b + ", i, ") - b is ", p - b);
      CHECK(q - p == j - i && p - q == i - j, "difference", what, ": between ", i, " and ", j, " is ", q - p);
      CHECK((p == q) == (i == j) && (p != q) == (i != j), "equality", what, " of positions ", i, " and ", j);
      CHECK((p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j), "order", what, " of positions ", i, " and ", j);
      CHECK(p + long(j - i) == q && long(j - i) + p == q && q - long(j - i) == p, "advance", what, " by ", j - i, " from ", i);
      It t = p;
      It& ret = (t += long(j - i));
      CHECK(&ret == &t && t == q, "advance", what, " += ", j - i, " from ", i);
      It& ret2 = (t -= long(j - i));
      CHECK(&ret2 == &t && t == p, "advance", what, " -= ", j - i);
      t = q;
      CHECK(t == q && t - b == j, "assignment", what);
      if(i < n) {
         CHECK(value_at(*p) == at(i) && value_at(b[long(i)]) == at(i), "subscript", what, " at ", i);
         if(j < n) CHECK(value_at(q[long(i - j)]) == at(i), "subscript", what, " at ", i, " from ", j);
         It u = p;
         It old = u++;
         CHECK(old == p && u == p + 1 && u - p == 1, "increment", what, " at ", i);
         old = u--;
         CHECK(old == p + 1 && u == p, "decrement", what, " at ", i);
         CHECK(&++u == &u && u == p + 1 && &--u == &u && u == p, "increment", what, " at ", i);
         CHECK(p == std::next(b, long(i)) && std::prev(e, long(n - i)) == p, "next/prev", what);
      }
   }
   // reversal
   std::reverse_iterator<It> rb(e), re(b);
   CHECK(re - rb == n, "reverse", what, ": rend - rbegin is ", re - rb);
   k = n;
   for(auto it = rb; it != re; ++it) {
      --k;
      CHECK(k >= 0 && value_at(*it) == at(k), "reverse", what, " position ", k);
      if(k >= 0) CHECK(value_at(rb[long(n - 1 - k)]) == at(k), "reverse subscript", what, " position ", k);
   }
   CHECK(k == 0, "reverse", what, " stopped at ", k);
   ev("laws");
}
// Shares of the algorithms, by element type, to keep translation units small.
template <class T> constexpr int share() { return std::is_same_v<T, int> ? 0 : std::is_same_v<T, double> ? 1 : std::is_same_v<T, unsigned> ? 2 : 3; }
// Every way to obtain the iterators of a range agrees.
template <class R, class V> void ranges_of(Rng& r, R& a, const std::vector<V>& v, const std::string& what) {
   constexpr bool FULL = std::is_same_v<V, int> || std::is_same_v<V, std::vector<double>>;
   laws(r, a.begin(), a.end(), v, what);
   const R& ca = a;
   laws(r, ca.begin(), ca.end(), v, what + " const");
   laws(r, a.cbegin(), a.cend(), v, what + " cbegin");
   std::vector<V> w(v.rbegin(), v.rend());
   if constexpr(FULL) if(r.chance(40)) {
      laws(r, a.rbegin(), a.rend(), w, what + " rbegin");
      laws(r, ca.rbegin(), ca.rend(), w, what + " const rbegin");
      laws(r, a.crbegin(), a.crend(), w, what + " crbegin");
      ev("reverse laws");
   }
   size_t k = 0;
   for(auto&& x : a) {
      CHECK(k < v.size() && value_at(x) == V(v[k]), "range for", what, " position ", k);
      ++k;
   }
   CHECK(k == v.size(), "range for", what, " visits ", k, " of ", v.size());
}
// Algorithms that only read.
template <class A, class T> void reading(Rng& r, const A& a, const std::vector<T>& v, const std::string& what) {
   auto b = a.begin(), e = a.end();
   auto vb = v.begin(), ve = v.end();
   T x = v.empty() || r.chance(30) ? rnd<T>(r, 0, 20) : T(v[r.below(v.size())]);
   auto X = S<T>(x);
   CHECK(std::find(b, e, X) - b == std::find(vb, ve, x) - vb, "find", what);
   CHECK(std::count(b, e, X) == std::count(vb, ve, x), "count", what);
   CHECK(std::adjacent_find(b, e) - b == std::adjacent_find(vb, ve) - vb, "adjacent_find", what);
   std::vector<Strict<T>> c(b, e);
   CHECK(c.size() == v.size() && std::equal(b, e, c.begin(), c.end()), "vector", what, " copied into a vector");
   for(size_t i = 0; i < c.size(); ++i) CHECK(c[i].val() == v[i], "vector", what, " element ", i);
   std::vector<Strict<T>> d(v.size());
   std::copy(b, e, d.begin());
   CHECK(std::equal(d.begin(), d.end(), c.begin()), "copy", what);
   std::reverse_copy(b, e, d.begin());
   CHECK(std::equal(d.rbegin(), d.rend(), c.begin()), "reverse_copy", what);
   if constexpr(!std::is_same_v<T, bool>) {
      CHECK(std::max_element(b, e) - b == std::max_element(vb, ve) - vb && std::min_element(b, e) - b == std::min_element(vb, ve) - vb, "max_element", what);
      CHECK(std::is_sorted(b, e) == std::is_sorted(vb, ve) && std::is_sorted_until(b, e) - b == std::is_sorted_until(vb, ve) - vb, "is_sorted", what);
      T sum = std::accumulate(vb, ve, T(0));
      CHECK(std::accumulate(b, e, S<T>(T(0))).val() == sum, "accumulate", what);
      if(std::is_sorted(vb, ve)) {
         CHECK(std::lower_bound(b, e, X) - b == std::lower_bound(vb, ve, x) - vb && std::upper_bound(b, e, X) - b == std::upper_bound(vb, ve, x) - vb, "lower_bound", what);
         CHECK(bool(std::binary_search(b, e, X)) == std::binary_search(vb, ve, x), "binary_search", what);
         ev("sorted ranges");
      }
      if(v.size() > 1) {
         i64 i = r.in(0, i64(v.size()) - 1), m = r.in(1, i64(v.size()) - i);
         CHECK(std::search(b, e, b + long(i), b + long(i + m)) - b == std::search(vb, ve, vb + i, vb + i + m) - vb, "search", what);
         CHECK(std::lexicographical_compare(b + long(i), e, b, e) == std::lexicographical_compare(vb + i, ve, vb, ve), "lexicographical_compare", what);
      }
      if(a.size() > 0_sl || true) {
         Array1D<T> w(b, e);
         CHECK(eq(vec(w), v), "array from iterators", what, " gives ", show(vec(w)));
         auto zb = std::reverse_iterator(e), ze = std::reverse_iterator(b);
         Array1D<T> z(zb, ze);
         CHECK(eq(vec(z), std::vector<T>(v.rbegin(), v.rend())), "array from iterators", what, " reversed gives ", show(vec(z)));
      }
   }
   ev("reading");
}

// Storage of which the iterated elements are the positions idx.
template <class T, class A, class Base> void writing(Rng& r, A& a, Base& base, const Idx& idx, const std::string& what0) {
   auto before = vec(base);
   std::vector<T> v;
   for(auto i : idx) v.push_back(before[size_t(i)]);
   const i64 n = i64(v.size());
   auto what = what0 + " of " + show(v);
   ranges_of(r, a, v, what);
   reading(r, a, v, what);
   using X = Strict<T>;
   auto lift = [](auto f) { return [f](const X& x, const X& y) { return bool(f(x.val(), y.val())); }; };
   auto less = [](T x, T y) { return x < y; };
   auto more = [](T x, T y) { return x > y; };
   auto key = [](T x, T y) { return int(long(x)) % 4 < int(long(y)) % 4; };
   bool exact = true, touched = true;   // exact: the result is determined by the input alone
   std::function<bool(T, T)> ordered;
   constexpr int ops[4][16] = {{0, 1, 2, 3, 6, 9, 12, 14, 17, 21, 25, 27, 29, 33, 0, 3}, {0, 2, 4, 6, 7, 10, 12, 13, 18, 22, 26, 27, 32, 33, 1, 3},
                               {0, 2, 5, 8, 11, 15, 20, 24, 27, 30, 33, 5, 15, 11, 1, 3}, {2, 3, 6, 9, 16, 19, 23, 27, 28, 31, 33, 16, 19, 23, 2, 3}};
   int op = ops[share<T>()][r.below(16)];
   i64 i = r.in(0, n), j = r.in(0, n);
   if(i > j) std::swap(i, j);
   T c = rnd<T>(r, 0, 20);
   auto b = a.begin(), e = a.end();
   auto vb = v.begin(), ve = v.end();
   logs(what, " op ", op, " ", i, " ", j);
   auto cut = ve;   // elements from here on are unspecified
   bool done = false;
   auto is = [&](auto... k) { return !done && ((op == k) || ...) && (done = true); };
   if constexpr(share<T>() == 0 || share<T>() == 1 || share<T>() == 2) {
      if(is(0, 1)) {
         spp::sort_increasing(a); exact = false, ordered = less; ev("sort_increasing"); 
      }
   }
   if constexpr(share<T>() == 0 || share<T>() == 3) {
      if(is(2, 3)) {
         spp::sort_decreasing(a); exact = false, ordered = more; ev("sort_decreasing"); 
      }
   }
   if constexpr(share<T>() == 1) {
      if(is(4)) {
         spp::sort(a, [](auto x, auto y) { return x < y; }); exact = false, ordered = less; ev("sort"); 
      }
   }
   if constexpr(share<T>() == 2) {
      if(is(5)) {
         spp::sort(a, [&](auto x, auto y) { return Strict<bool>{key(x.val(), y.val())}; }); exact = false, ordered = key; ev("sort key"); 
      }
   }
   if constexpr(share<T>() == 0 || share<T>() == 1 || share<T>() == 2 || share<T>() == 3) {
      if(is(6, 7, 8)) {
         spp::shuffle(a); exact = false; ev("shuffle"); 
      }
   }
   if constexpr(share<T>() == 0 || share<T>() == 3) {
      if(is(9)) {
         std::reverse(b, e), std::reverse(vb, ve); 
      }
   }
   if constexpr(share<T>() == 1) {
      if(is(10)) {
         std::rotate(b, b + long(i), e), std::rotate(vb, vb + i, ve); 
      }
   }
   if constexpr(share<T>() == 2) {
      if(is(11)) {
         std::fill(b + long(i), b + long(j), S<T>(c)), std::fill(vb + i, vb + j, c); 
      }
   }
   if constexpr(share<T>() == 0 || share<T>() == 1) {
      if(is(12)) {
         std::sort(b + long(i), b + long(j), lift(less)), std::sort(vb + i, vb + j, less); 
      }
   }
   if constexpr(share<T>() == 1) {
      if(is(13)) {
         std::stable_sort(b, e, lift(key)), std::stable_sort(vb, ve, key); ev("stable_sort"); 
      }
   }
   if constexpr(share<T>() == 0) {
      if(is(14)) {
         std::nth_element(b, b + long(i), e, lift(less)); exact = false;
         {
            auto w = v;
            std::sort(w.begin(), w.end(), less);
            if(i < n) CHECK(a.begin()[long(i)].val() == w[size_t(i)], "nth_element", what);
            for(i64 k = 0; k < i; ++k) CHECK(!(w[size_t(i - (i == n))] < a.begin()[long(k)].val()), "nth_element", what);
         }
         
      }
   }
   if constexpr(share<T>() == 2) {
      if(is(15)) {
         std::partial_sort(b, b + long(i), e, lift(less)); exact = false;
         {
            auto w = v;
            std::sort(w.begin(), w.end(), less);
            for(i64 k = 0; k < i; ++k) CHECK(a.begin()[long(k)].val() == w[size_t(k)], "partial_sort", what);
         }
         
      }
   }
   if constexpr(share<T>() == 3) {
      if(is(16)) {
         {
         auto p = std::unique(b, e);
         auto q = std::unique(vb, ve);
         CHECK(p - b == q - vb, "unique", what);
         cut = q;
         exact = true;
         
      }
      }
   }
   if constexpr(share<T>() == 0) {
      if(is(17)) {
         {
         auto p = std::remove(b, e, S<T>(c));
         auto q = std::remove(vb, ve, c);
         CHECK(p - b == q - vb, "remove", what);
         cut = q;
         
      }
      }
   }
   if constexpr(share<T>() == 1) {
      if(is(18)) {
         {
         auto p = std::partition(b, e, [&](const X& x) { return x.val() < c; });
         i64 m = std::count_if(vb, ve, [&](T x) { return x < c; });
         CHECK(p - b == m, "partition", what);
         for(i64 k = 0; k < n; ++k) CHECK((a.begin()[long(k)].val() < c) == (k < m), "partition", what, " element ", k);
         exact = false;
         
      }
      }
   }
   if constexpr(share<T>() == 3) {
      if(is(19)) {
         std::replace(b, e, S<T>(c), S<T>(T(c + 1))), std::replace(vb, ve, c, T(c + 1)); 
      }
   }
   if constexpr(share<T>() == 2) {
      if(is(20)) {
         std::transform(b, e, b, [&](const X& x) { return S<T>(T(x.val() + c)); }), std::transform(vb, ve, vb, [&](T x) { return T(x + c); }); 
      }
   }
   if constexpr(share<T>() == 0) {
      if(is(21)) {
         std::copy_backward(b, b + long(i), b + long(j)), std::copy_backward(vb, vb + i, vb + j); 
      }
   }
   if constexpr(share<T>() == 1) {
      if(is(22)) {
         std::copy(b + long(i), b + long(j), b), std::copy(vb + i, vb + j, vb); 
      }
   }
   if constexpr(share<T>() == 3) {
      if(is(23)) {
         std::make_heap(b, e, lift(less)), std::sort_heap(b, e, lift(less)); exact = false, ordered = less; ev("heap"); 
      }
   }
   if constexpr(share<T>() == 2) {
      if(is(24)) {
         std::swap_ranges(b, b + long(n / 2), b + long(n - n / 2)), std::swap_ranges(vb, vb + n / 2, vb + (n - n / 2)); 
      }
   }
   if constexpr(share<T>() == 0) {
      if(is(25)) {
         std::reverse(a.rbegin(), a.rend()), std::reverse(vb, ve); 
      }
   }
   if constexpr(share<T>() == 1) {
      if(is(26)) {
         std::sort(a.rbegin(), a.rend(), lift(less)); exact = false, ordered = more; ev("reverse sort"); 
      }
   }
   if constexpr(share<T>() == 0 || share<T>() == 1 || share<T>() == 2 || share<T>() == 3) {
      if(is(27)) {
         for(auto& x : a) x = S<T>(T(x.val() + 1)); for(auto& x : v) x = T(x + 1); ev("range for write"); 
      }
   }
   if constexpr(share<T>() == 3) {
      if(is(28)) {
         std::generate(b, e, [k = T(0)]() mutable { return S<T>(k++); }), std::iota(vb, ve, T(0)); 
      }
   }
   if constexpr(share<T>() == 0) {
      if(is(29)) {
         std::inplace_merge(b, b + long(n / 2), (std::sort(b, b + long(n / 2), lift(less)), std::sort(b + long(n / 2), e, lift(less)), e), lift(less)); exact = false, ordered = less; ev("inplace_merge"); 
      }
   }
   if constexpr(share<T>() == 2) {
      if(is(30)) {
         std::partial_sum(b, e, b), std::partial_sum(vb, ve, vb); 
      }
   }
   if constexpr(share<T>() == 3) {
      if(is(31)) {
         std::ranges::reverse(a), std::reverse(vb, ve); ev("ranges"); 
      }
   }
   if constexpr(share<T>() == 1) {
      if(is(32)) {
         std::ranges::sort(a, lift(less)); exact = false, ordered = less; ev("ranges"); 
      }
   }
   if(!done) {if(n) *(b + long(n - 1)) = S<T>(c), b[0] = S<T>(T(c + 1)), v[size_t(n - 1)] = c, v[0] = T(c + 1); }
   (void)touched;
   auto after = vec(base);
   std::vector<T> got;
   std::vector<char> in(before.size());
   for(auto k : idx) in[size_t(k)] = 1, got.push_back(after[size_t(k)]);
   for(size_t k = 0; k < before.size(); ++k) CHECK(in[k] || same_bits(before[k], after[k]), "touched outside", what, " op ", op, " changed element ", k, " of the storage, which is not iterated");
   if(exact) {
      got.resize(size_t(cut - vb)), v.resize(size_t(cut - vb));
      CHECK(eq(got, v), "result", what, " op ", op, " gives ", show(got), " instead of ", show(v));
   } else {
      auto x = got, y = v;
      std::sort(x.begin(), x.end()), std::sort(y.begin(), y.end());
      CHECK(eq(x, y), "permutation", what, " op ", op, " gives ", show(got), " which is not a permutation of ", show(v));
      if(ordered)
         for(size_t k = 1; k < got.size(); ++k) CHECK(!ordered(got[k], got[k - 1]), "order", what, " op ", op, " gives ", show(got), " out of order at ", k);
      if(op >= 6 && op <= 8 && std::set<T>(v.begin(), v.end()).size() > 40) CHECK(!eq(got, v), "shuffle", "shuffling ", n, " elements leaves their order");
   }
   ev("writing");
}

template <class T, int G> void one(Case& c) {
   Rng& r = c.r;
   i64 n = r.chance(6) ? 7 : r.chance(10) ? r.in(40, 200) : rsize(r, 20);
   i64 range = r.pick({i64(1), i64(3), i64(20), i64(50)});
   auto gen = [&](i64 m) {
      auto v = rvec<T>(r, m, 0, range);
      if(r.chance(15)) std::sort(v.begin(), v.end());
      return v;
   };
   constexpr int kinds[3][4] = {{0, 1, 2, 6}, {3, 4, 5, 7}, {8, 8, 8, 8}};
   int kind = kinds[G][r.below(4)];
   c.note(str(kind, " ", n, " ", r.next()));
   c.nontrivial = n > 0;
   auto perm = [&](i64 m, i64 total) {
      Idx p = arith(0, total, 1);
      for(i64 i = total - 1; i > 0; --i) std::swap(p[size_t(i)], p[size_t(r.in(0, i))]);
      p.resize(size_t(m));
      return p;
   };
   ev(str("kind ", kind));
   switch(kind) {
      case 0: if constexpr(G == 0) { auto a = mk1<Array1D<T>>(gen(n)); writing<T>(r, a, a, arith(0, n, 1), "array"); break; }
      case 1: if constexpr(G == 0) { auto a = mk1<Array1D<T, Aligned>>(gen(n)); writing<T>(r, a, a, arith(0, n, 1), "aligned array"); break; }
      case 2: if constexpr(G == 0) { FixedArray1D<T, 7> a; fill1(a, gen(7)); writing<T>(r, a, a, arith(0, 7, 1), "fixed array"); break; }
      case 3: if constexpr(G == 1) {
         i64 k = r.in(1, 3);
         auto a = mk1<Array1D<T>>(gen(k * n + 3));
         auto s = a(seqN{long(1), long(n), long(k)});
         writing<T>(r, s, a, arith(1, n, k), "strided slice");
         break;
      }
      case 4: if constexpr(G == 1) {
         auto a = mk1<Array1D<T, Aligned>>(gen(n));
         auto s = a(place::reverse);
         writing<T>(r, s, a, arith(n - 1, n, -1), "reversed slice");
         break;
      }
      case 5: if constexpr(G == 1) {
         auto a = mk1<Array1D<T>>(gen(n + 4));
         auto p = perm(n, n + 4);
         auto s = a(implicit(p));
         writing<T>(r, s, a, p, "listed slice");
         break;
      }
      case 6: if constexpr(G == 0) {
         auto b = gen(n + 2);
         T* q = b.data() + 1;
         T* q0 = b.data();
         auto at = attach1D(q0, long(n + 2));
         auto s = attach1D(q, long(n));
         writing<T>(r, s, at, arith(1, n, 1), "attached memory");
         break;
      }
      case 7: if constexpr(G == 1) {
         i64 m = r.in(1, 6);
         n = std::max<i64>(n % 9, 1);
         auto a = mk2<Array2D<T>>([&] { Mat<T> x(n, m); x.d = gen(n * m); return x; }());
         auto base = a.view1D();
         switch(r.below(4)) {
            case 0: { i64 k = r.in(0, n - 1); auto s = a.row(long(k)); writing<T>(r, s, base, arith(k * m, m, 1), "row"); break; }
            case 1: { i64 k = r.in(0, m - 1); auto s = a.col(long(k)); writing<T>(r, s, base, arith(k, n, m), "column"); break; }
            case 2: { i64 k = r.in(0, m - 1); auto s = a.col(long(k))(place::reverse); writing<T>(r, s, base, arith(k + (n - 1) * m, n, -m), "reversed column"); break; }
            default: { auto s = a.view1D(); writing<T>(r, s, base, arith(0, n * m, 1), "view of matrix"); }
         }
         break;
      }
      default: if constexpr(G == 2) {   // expressions and constant objects: reading only
         auto v = gen(n);
         any1<T>(r, v, all1{}, [&](auto& a) {
            ranges_of(r, a, v, str("operand of ", show(v)));
            reading(r, a, v, str("operand of ", show(v)));
            auto w = v;
            for(auto&& x : w) x = T(x + x);
            auto ex = a + a;
            ranges_of(r, ex, w, "sum of operands");
            reading(r, ex, w, str("sum of operands ", show(v)));
            ev("expression");
         });
      }
   }
}

template <class T, int G> void two(Case& c) {
   Rng& r = c.r;
   i64 nr = r.chance(6) ? 0 : r.in(1, 7), nc = nr ? r.in(1, 7) : 0;
   i64 range = r.pick({i64(1), i64(3), i64(20), i64(50)});
   constexpr int kinds[3][4] = {{0, 1, 2, 5}, {3, 4, 6, 6}, {8, 8, 8, 8}};
   int kind = kinds[G][r.below(4)];
   c.note(str("2D ", kind, " ", nr, "x", nc, " ", r.next()));
   c.nontrivial = nr > 0;
   ev(str("2D kind ", kind));
   auto gen = [&](i64 p, i64 q) { return rmat<T>(r, p, q, 0, range); };
   auto map = [&](const Idx& ri, const Idx& ci, i64 width) {
      Idx p;
      for(auto i : ri)
         for(auto j : ci) p.push_back(i * width + j);
      return p;
   };
   auto perm = [&](i64 m, i64 total) {
      Idx p = arith(0, total, 1);
      for(i64 i = total - 1; i > 0; --i) std::swap(p[size_t(i)], p[size_t(r.in(0, i))]);
      p.resize(size_t(m));
      return p;
   };
   // Rows and columns visited through RowIt and ColIt, and written through them.
   auto lines = [&](auto& a, auto& base, const Idx& idx) {
      if(!nr) return;
      auto before = vec(base);
      auto line = [&](bool row, i64 k) {
         std::vector<T> v;
         if(row) for(i64 j = 0; j < nc; ++j) v.push_back(before[size_t(idx[size_t(k * nc + j)])]);
         else for(i64 i = 0; i < nr; ++i) v.push_back(before[size_t(idx[size_t(i * nc + k)])]);
         return v;
      };
      std::vector<std::vector<T>> rows, cols;
      for(i64 i = 0; i < nr; ++i) rows.push_back(line(true, i));
      for(i64 j = 0; j < nc; ++j) cols.push_back(line(false, j));
      RowIt ri(a);
      ranges_of(r, ri, rows, "rows");
      ColIt ci(a);
      ranges_of(r, ci, cols, "columns");
      const auto& ca = a;
      RowIt cri(ca);
      ranges_of(r, cri, rows, "constant rows");
      ColIt cci(ca);
      ranges_of(r, cci, cols, "constant columns");
      // write one line through the iterator
      bool row = r.chance(50), back = r.chance(50);
      i64 m = row ? nr : nc, k = r.in(0, m - 1);
      T x = rnd<T>(r, 30, 60);
      auto put = [&](auto&& l) { l = S<T>(x); };
      if(row) {
         if(back) put(*(ri.rbegin() + long(m - 1 - k)));
         else put(*(ri.begin() + long(k)));
      } else {
         if(back) put(*(ci.rbegin() + long(m - 1 - k)));
         else put(ci.begin()[long(k)]);
      }
      auto want = before;
      for(i64 i = 0; i < nr; ++i)
         for(i64 j = 0; j < nc; ++j)
            if((row ? i : j) == k) want[size_t(idx[size_t(i * nc + j)])] = x;
      CHECK(eq(vec(base), want), "line write", "writing ", row ? "row " : "column ", k, " through its iterator gives ", show(vec(base)), " instead of ", show(want));
      // sort every row or column in place
      if(r.chance(50)) {
         for(auto l : RowIt(a)) spp::sort_increasing(l);
         for(i64 i = 0; i < nr; ++i) {
            std::vector<T> v;
            for(i64 j = 0; j < nc; ++j) v.push_back(want[size_t(idx[size_t(i * nc + j)])]);
            std::sort(v.begin(), v.end());
            for(i64 j = 0; j < nc; ++j) want[size_t(idx[size_t(i * nc + j)])] = v[size_t(j)];
         }
      } else {
         for(auto l : ColIt(a)) spp::sort_decreasing(l);
         for(i64 j = 0; j < nc; ++j) {
            std::vector<T> v;
            for(i64 i = 0; i < nr; ++i) v.push_back(want[size_t(idx[size_t(i * nc + j)])]);
            std::sort(v.rbegin(), v.rend());
            for(i64 i = 0; i < nr; ++i) want[size_t(idx[size_t(i * nc + j)])] = v[size_t(i)];
         }
      }
      CHECK(eq(vec(base), want), "line sort", "sorting lines through iterators gives ", show(vec(base)), " instead of ", show(want));
      ev("lines");
   };
   auto both = [&](auto& a, auto& base, const Idx& idx, const char* what) {
      writing<T>(r, a, base, idx, what);
      lines(a, base, idx);
   };
   switch(kind) {
      case 0: if constexpr(G == 0) { auto a = mk2<Array2D<T>>(gen(nr, nc)); both(a, a, arith(0, nr * nc, 1), "matrix"); break; }
      case 1: if constexpr(G == 0) { auto a = mk2<Array2D<T, Aligned>>(gen(nr, nc)); both(a, a, arith(0, nr * nc, 1), "aligned matrix"); break; }
      case 2: if constexpr(G == 0) { nr = 3, nc = 4; FixedArray2D<T, 3, 4> a; fill2(a, gen(3, 4)); both(a, a, arith(0, 12, 1), "fixed matrix"); break; }
      case 3: if constexpr(G == 1) {
         auto a = mk2<Array2D<T>>(gen(nr + 2, nc + 2));
         auto s = a.blockN(1, 1, long(nr), long(nc));
         both(s, a, map(arith(1, nr, 1), arith(1, nc, 1), nc + 2), "block");
         break;
      }
      case 4: if constexpr(G == 1) {
         auto a = mk2<Array2D<T>>(gen(nr + 2, nc + 1));
         auto p = perm(nr, nr + 2), q = perm(nc, nc + 1);
         auto s = a(implicit(p), implicit(q));
         both(s, a, map(p, q, nc + 1), "listed rows and columns");
         break;
      }
      case 5: if constexpr(G == 0) {
         auto b = rvec<T>(r, nr * nc + 2, 0, range);
         T* q = b.data() + 1;
         T* q0 = b.data();
         auto at = attach1D(q0, long(nr * nc + 2));
         auto s = attach2D(q, long(nr), long(nc));
         both(s, at, arith(1, nr * nc, 1), "attached matrix");
         break;
      }
      case 6: if constexpr(G == 1) {
         auto a = mk1<Array1D<T>>(rvec<T>(r, 2 * nr * nc + 1, 0, range));
         auto h = a(seqN{long(0), long(nr * nc), 2L});
         auto s = h.view2D(long(nr), long(nc));
         both(s, a, arith(0, nr * nc, 2), "strided slice as matrix");
         break;
      }
      default: if constexpr(G == 2) {
         auto m = gen(nr, nc);
         any2<T>(r, m, all2{}, [&](auto& a) {
            std::vector<T> v = m.d;
            ranges_of(r, a, v, str("2D operand of ", show(m)));
            reading(r, a, v, str("2D operand of ", show(m)));
            if(nr) {
               std::vector<std::vector<T>> rows, cols;
               for(i64 i = 0; i < nr; ++i) rows.emplace_back(v.begin() + i * nc, v.begin() + (i + 1) * nc);
               for(i64 j = 0; j < nc; ++j) {
                  cols.emplace_back();
                  for(i64 i = 0; i < nr; ++i) cols.back().push_back(m(i, j));
               }
               const auto& ca = a;
               RowIt cri(ca);
               ranges_of(r, cri, rows, "constant rows of an operand");
               ColIt cci(ca);
               ranges_of(r, cci, cols, "constant columns of an operand");
            }
            ev("2D expression");
         });
      }
   }
}

inline void indexes(Case& c) {
   Rng& r = c.r;
   i64 n = r.chance(10) ? r.in(50, 200) : r.in(0, 12);
   c.note(str("indexes ", n, " ", r.next()));
   c.nontrivial = true;
   auto count = [](i64 m) {
      std::vector<long> v;
      for(i64 i = 0; i < m; ++i) v.push_back(long(i));
      return v;
   };
   auto e = irange(long(n));
   ranges_of(r, e, count(n), str("irange ", n));
   Array1D<double> a(1L * n);
   size_t k = 0;
   for(auto i : irange(a)) { CHECK(i.val() == long(k), "irange", "irange of an array gives ", i.val(), " at ", k); ++k; }
   CHECK(i64(k) == n, "irange", "irange of an array of ", n, " visits ", k);
   if(n) {
      k = 0;
      for(auto i : irange_m1(a)) { CHECK(i.val() == long(k), "irange_m1", i.val()); ++k; }
      CHECK(i64(k) == n - 1, "irange_m1", "irange_m1 of an array of ", n, " visits ", k);
   }
   i64 p = r.chance(10) ? 0 : r.in(1, 9), q = p ? r.in(1, 9) : 0;
   Array2D<int> m(1L * p, 1L * q);
   std::vector<std::pair<long, long>> want, got;
   for(i64 i = 0; i < p; ++i)
      for(i64 j = 0; j < q; ++j) want.emplace_back(i, j);
   for(auto [i, j] : IndexRange2D{m}) {
      got.emplace_back(i.val(), j.val());
      CHECK(got.size() <= want.size(), "IndexRange2D", "IndexRange2D of ", p, "x", q, " visits too many indexes");
   }
   CHECK(got == want, "IndexRange2D", "IndexRange2D of a matrix ", p, "x", q, " visits ", got.size(), " indexes or in another order");
   got.clear();
   IndexRange2D range{long(p), long(q)};
   auto it = range.begin();
   auto end = range.end();
   while(it != end) {
      auto old = r.chance(50) ? it++ : it;
      auto [i, j] = *old;
      got.emplace_back(i.val(), j.val());
      if(it == old) ++it;
      CHECK(got.size() <= want.size(), "IndexRange2D", "IndexRange2D ", p, "x", q, " visits too many indexes");
   }
   CHECK(got == want, "IndexRange2D", "IndexRange2D ", p, "x", q, " visits ", got.size(), " indexes or in another order");
   if(p) {
      k = 0;
      for(auto i : irange_row(m)) { CHECK(i.val() == long(k), "irange_row", i.val()); ++k; }
      for(auto i : irange_col(m)) { CHECK(i.val() == long(k) - p, "irange_col", i.val()); ++k; }
      CHECK(i64(k) == p + q, "irange_row", "irange_row and irange_col visit ", k, " of ", p + q);
      for(auto i : irange_row_m1(m)) { CHECK(i.val() == long(k) - p - q, "irange_row_m1", i.val()); ++k; }
      for(auto i : irange_col_m1(m)) { CHECK(i.val() == long(k) - p - q - p + 1, "irange_col_m1", i.val()); ++k; }
      CHECK(i64(k) == 2 * p + 2 * q - 2, "irange_row_m1", "irange_row_m1 and irange_col_m1 visit ", k);
   }
   ev("indexes");
}

int main(int argc, char** argv) {
   return h::run(argc, argv, [](Case& c) {
      // 4 types by 6 groups of kinds; neighbouring K go to different translation units.
      dispatch<24>(c, []<int K>(Case& c) {
         using T = std::tuple_element_t<K / 6, std::tuple<int, double, unsigned, long double>>;
         constexpr int G = K % 6 / 2;
         if(K == 6 && c.r.chance(30)) return indexes(c);
         if constexpr(K % 2 == 0) one<T, G>(c);
         else two<T, G>(c);
      });
   });
}
