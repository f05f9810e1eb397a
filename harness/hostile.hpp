// Arguments around and far from the limits of their domains.
#pragma once
#include "operands.hpp"

namespace h {
using namespace spp;
using i128 = __int128;

constexpr i64 MAXL = std::numeric_limits<long>::max();
constexpr i64 MINL = std::numeric_limits<long>::min();

// A number near 0, near n, or far from both; often inside [0, n).
i64 near(Rng& r, i64 n) {
   int k = int(r.below(22));
   switch(k) {
   case 0: return -1;
   case 1: return n;
   case 2: return n + 1;
   case 3: return -n;
   case 4: return MAXL - r.in(0, 2);
   case 5: return MINL + r.in(0, 2);
   case 6: return (i64(1) << 32) + r.in(0, n);
   case 7: return (i64(1) << r.in(30, 62)) + r.in(-2, 2);
   case 8: return -(i64(1) << r.in(30, 62)) + r.in(-2, 2);
   case 9: return i64(2147483647) + r.in(0, 1);
   case 10: return r.in(-2 * n - 2, 2 * n + 2);
   case 11: return 0;
   case 12: return n - 1;
   default: return n > 0 ? r.in(0, n - 1) : r.in(-1, 1);
   }
}
bool inside(i64 i, i64 n) { return i >= 0 && i < n; }

// Calls f(index) with the index i of an extent n in one of the forms the library takes.
template <class F> void index_forms(Rng& r, i64 i, i64 n, F f) {
   int k = int(r.below(5));
   bool small = i >= -2147483647 - 1 && i <= 2147483647;
   i128 back = i128(n) - 1 - i;
   if(k == 0 && small) return f(int(i));
   if(k == 1 && small) return f(Strict<int>{int(i)});
   if(k == 2) return f(Strict<long>{long(i)});
   if(k == 3 && back >= MINL && back <= MAXL) {
      logs("last-form");
      return f(place::last - long(back));
   }
   f(long(i));
}
template <class F> void int_forms(Rng& r, i64 i, F f) {
   if(r.chance(40) && i >= -2147483647 - 1 && i <= 2147483647) return f(int(i));
   f(long(i));
}

Idx random_list(Rng& r, i64 n) {
   Idx v;
   i64 k = r.in(0, 5);
   for(i64 i = 0; i < k; ++i) v.push_back(r.chance(85) && n ? r.in(0, n - 1) : near(r, n));
   return v;
}
bool all_inside(const Idx& v, i64 n) {
   return std::all_of(v.begin(), v.end(), [n](i64 i) { return inside(i, n); });
}
// A list for complement/remove: mostly increasing.
Idx rising_list(Rng& r, i64 n) {
   Idx v;
   if(r.chance(25)) return random_list(r, n);
   for(i64 i = 0; i < n && v.size() < 8; ++i)
      if(r.chance(40)) v.push_back(i);
   if(!v.empty() && r.chance(30)) {
      size_t k = r.below(v.size());
      int w = int(r.below(3));
      if(w == 0) v[k] = near(r, n);
      if(w == 1) v.insert(v.begin() + long(k), v[k]);   // repeated
      if(w == 2) std::swap(v[k], v[0]);
   }
   return v;
}
bool rising(const Idx& v, i64 n) {
   for(size_t i = 0; i < v.size(); ++i)
      if(!inside(v[i], n) || (i && v[i - 1] >= v[i])) return false;
   return true;
}

// A selection of an extent n: f(maker, valid, count, name). The maker may itself report.
template <int Which, class F> void selection(Rng& r, i64 n, F f) {
   if constexpr(Which == 0) {   // seqN
      i64 first = near(r, n);
      i64 stride = r.pick({i64(1), i64(1), i64(2), i64(-1), i64(-2), i64(0), i64(3)});
      if(r.chance(20)) stride = near(r, n);
      i64 most = stride == 0 ? 3 : inside(first, n) ? (stride > 0 ? (n - 1 - first) / stride + 1 : first / (stride == MINL ? MAXL : -stride) + 1) : r.in(0, n + 2);
      i64 cnt = r.pick({most, most, most - 1, most + 1, i64(0), i64(1), i64(2), i64(3), i64(5)});
      if(r.chance(12)) cnt = near(r, n);
      bool ctor = first >= 0 && cnt >= 0;
      i128 e = i128(first) + i128(stride) * (i128(cnt) - 1);
      bool ok = ctor && (cnt == 0 || (inside(first, n) && e >= 0 && e < n));
      auto text = str("seqN(", first, ",", cnt, ",", stride, ")");
      int form = int(r.below(3));
      if(form == 0 && stride == 1) f([=] { return seqN{long(first), long(cnt)}; }, ok, cnt, text);
      else if(form == 1) f([=] { return seqN{First{long(first)}, Size{long(cnt)}, Stride{long(stride)}}; }, ok, cnt, text);
      else f([=] { return seqN{long(first), long(cnt), long(stride)}; }, ok, cnt, text);
   } else if constexpr(Which == 1) {   // seq
      i64 first = near(r, n);
      i64 lst = near(r, n);
      if(r.chance(30) && inside(first, n)) lst = first;
      i64 stride = r.pick({i64(1), i64(1), i64(2), i64(-1), i64(-2), i64(0), i64(3)});
      if(r.chance(15)) stride = near(r, n);
      bool ctor = first >= 0 && lst >= 0 && (stride > 0 ? first <= lst : stride < 0 ? first >= lst : first == lst);
      bool ok = ctor && inside(first, n) && inside(lst, n);
      i64 cnt = ok ? (stride ? (lst - first) / stride + 1 : 1) : 0;
      auto text = str("seq(", first, ",", lst, ",", stride, ")");
      int form = int(r.below(3));
      if(form == 0 && stride == 1) f([=] { return seq{long(first), long(lst)}; }, ok, cnt, text);
      else if(form == 1) f([=] { return seq{First{long(first)}, Endmost{long(lst)}, Stride{long(stride)}}; }, ok, cnt, text);
      else f([=] { return seq{long(first), long(lst), long(stride)}; }, ok, cnt, text);
   } else if constexpr(Which == 2) {
      i64 s = near(r, n);
      bool ok = s > 0;
      i64 cnt = ok && n ? (n - 1) / s + 1 : 0;
      if(r.chance(50)) f([=] { return place::skipN{long(s)}; }, ok, cnt, str("skipN(", s, ")"));
      else f([=] { return place::skipN{Stride{long(s)}}; }, ok, cnt, str("skipN(Stride ", s, ")"));
   } else if constexpr(Which == 3) {
      i64 k = near(r, n);
      bool ok = k >= 0 && k <= n;
      if(r.chance(50)) f([=] { return place::firstN{long(k)}; }, ok, k, str("firstN(", k, ")"));
      else f([=] { return place::firstN{Count{long(k)}}; }, ok, k, str("firstN(Count ", k, ")"));
   } else if constexpr(Which == 4) {
      i64 k = near(r, n);
      bool ok = k >= 0 && k <= n;
      if(r.chance(50)) f([=] { return place::lastN{long(k)}; }, ok, k, str("lastN(", k, ")"));
      else f([=] { return place::lastN{Count{long(k)}}; }, ok, k, str("lastN(Count ", k, ")"));
   } else if constexpr(Which == 5) {
      auto v = random_list(r, n);
      f([=] { return implicit(v); }, all_inside(v, n), i64(v.size()), "list" + show(v));
   } else if constexpr(Which == 6) {
      auto v = rising_list(r, n);
      f([=] { return place::complement{implicit(v)}; }, rising(v, n), n - i64(v.size()), "complement" + show(v));
   } else {
      int k = int(r.below(4));
      if(k == 0) f([] { return place::all; }, true, n, "all");
      if(k == 1) f([] { return place::even; }, true, (n + 1) / 2, "even");
      if(k == 2) f([] { return place::odd; }, true, n / 2, "odd");
      if(k == 3) f([] { return place::reverse; }, true, n, "reverse");
   }
}
template <class F> void any_selection(Rng& r, i64 n, F f) {
   switch(r.below(9)) {
   case 0: case 8: return selection<0>(r, n, f);
   case 1: return selection<1>(r, n, f);
   case 2: return selection<2>(r, n, f);
   case 3: return selection<3>(r, n, f);
   case 4: return selection<4>(r, n, f);
   case 5: return selection<5>(r, n, f);
   case 6: return selection<6>(r, n, f);
   default: return selection<7>(r, n, f);
   }
}
template <class F> void few_selection(Rng& r, i64 n, F f) {
   switch(r.below(3)) {
   case 0: return selection<0>(r, n, f);
   case 1: return selection<1>(r, n, f);
   default: return selection<5>(r, n, f);
   }
}

// Shape of a reshaping: rows*cols must be exactly n.
std::pair<i64, i64> shape_of(Rng& r, i64 n) {
   int k = int(r.below(9));
   if(k < 4 && n > 0) {
      i64 p = r.in(1, n);
      while(n % p) --p;
      if(k == 1) return {-p, -(n / p)};
      if(k == 2) return {p, n / p + 1};
      return {p, n / p};
   }
   if(k == 4) {
      i64 a = (i64(1) << r.in(1, 62));
      i64 b = (i64(1) << r.in(1, 62));
      return {a, b};
   }
   if(k == 5) return {0, r.in(0, 4)};
   if(k == 6) return {r.in(0, 4), 0};
   i64 a = near(r, n);
   i64 b = near(r, n ? 3 : 1);
   return {a, b};
}
bool shapes(i64 a, i64 b, i64 n) { return a >= 0 && b >= 0 && i128(a) * b == n; }
} // namespace h
