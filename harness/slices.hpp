// Random valid slice selections with the index list they denote.
#pragma once
#include "common.hpp"

namespace h {

using Idx = std::vector<i64>;

inline std::vector<spp::ImplicitInt> implicit(const Idx& v) {
   std::vector<spp::ImplicitInt> r;
   for(auto i : v) r.emplace_back(long(i));
   return r;
}

inline Idx arith(i64 first, i64 n, i64 stride) {
   Idx v;
   for(i64 k = 0; k < n; ++k) v.push_back(first + k * stride);
   return v;
}

// The indexes a slice object, or a pair of them, stands for.
inline Idx positions(const spp::seqN& s) { return arith(s.start().val(), s.size().val(), s.stride().val()); }
inline Idx positions(const std::vector<spp::ImplicitInt>& v) {
   Idx r;
   for(auto i : v) r.push_back(i.get().val());
   return r;
}
inline Idx idx_of(const auto& s) { return positions(s); }
template <class A, class B> std::pair<Idx, Idx> idx_of(const std::pair<A, B>& s) { return {positions(s.first), positions(s.second)}; }

__attribute__((noinline)) inline void overwrite_stack(int d = 2) {
   volatile unsigned char b[1024];
   for(size_t i = 0; i < sizeof b; ++i) b[i] = 0x5A;
   if(d) overwrite_stack(d - 1);
   b[0] = b[1];
}

// The slice that a selection reports is the one it was made with, also when the selection it is
// taken from is a temporary and the slice is kept.
template <class A, class W> void slice_reports(const A& a, const W& want, const char* name) {
   if constexpr(requires { a.get_slice(); }) {
      CHECK(idx_of(a.get_slice()) == want, "get_slice", "get_slice() of ", name, " reports other indexes");
      if constexpr(std::is_copy_constructible_v<A>) {
         auto&& kept = A(a).get_slice();
         overwrite_stack();
         CHECK(idx_of(kept) == want, "get_slice", "kept get_slice() of a temporary ", name, " reports other indexes");
         auto&& kept2 = static_cast<const A&&>(A(a)).get_slice();
         overwrite_stack();
         CHECK(idx_of(kept2) == want, "get_slice", "kept get_slice() of a constant temporary ", name, " reports other indexes");
         A tmp(a);
         auto moved = std::move(tmp).get_slice();
         CHECK(idx_of(moved) == want, "get_slice", "moved get_slice() of ", name, " reports other indexes");
      }
      ev("get_slice");
   }
}

// Picks a selection valid for extent n and calls f(selection, indexes, name).
template <class F> void select(Rng& r, i64 n, F f, bool allow_empty = true) {
   using namespace spp;
   int k = int(r.below(16));
   if(n == 0) {
      k = int(r.pick({0, 3, 4, 5, 6, 7, 8, 9, 10, 11}));
   }
   i64 lo = allow_empty ? 0 : 1;
   switch(k) {
   case 0: case 12: {   // seqN
      i64 first = n ? r.in(0, n - 1) : r.in(0, 3);
      i64 stride = r.pick({i64(1), i64(2), i64(3), i64(-1), i64(-2), i64(0), i64(5), i64(-4)});
      i64 maxn = n == 0 ? 0 : stride == 0 ? 4 : stride > 0 ? (n - 1 - first) / stride + 1 : first / -stride + 1;
      i64 cnt = n == 0 ? 0 : r.in(std::min(lo, maxn), maxn);
      auto v = arith(first, cnt, stride);
      if(cnt == 0) v.clear();
      if(k == 0) {
         if(stride == 1 && r.chance(50)) f(seqN{long(first), long(cnt)}, v, "seqN1");
         else f(seqN{long(first), long(cnt), long(stride)}, v, "seqN");
      } else {
         f(seqN{First{long(first)}, Size{long(cnt)}, Stride{long(stride)}}, v, "seqN-named");
      }
      break;
   }
   case 1: case 2: {   // seq
      i64 first = r.in(0, n - 1), lst = r.in(0, n - 1);
      i64 stride = first < lst ? r.in(1, 4) : first > lst ? -r.in(1, 4) : r.in(-2, 2);
      i64 cnt = stride == 0 ? 1 : (lst - first) / stride + 1;
      auto v = arith(first, cnt, stride);
      if(k == 1) {
         seq q{long(first), long(lst), long(stride)};
         CHECK(q.first().val() == first && q.last().val() == lst && q.stride().val() == stride && positions(q.to_slice()) == v, "seq",
               "seq{", first, ", ", lst, ", ", stride, "} reports other bounds");
         if(stride == 1) f(seq{long(first), long(lst)}, v, "seq1");
         else f(seq{long(first), long(lst), long(stride)}, v, "seq");
      } else {
         f(seq{First{long(first)}, Endmost{long(lst)}, Stride{long(stride)}}, v, "seq-named");
      }
      break;
   }
   case 3: f(place::all, arith(0, n, 1), "all"); break;
   case 4: f(place::even, arith(0, (n + 1) / 2, 2), "even"); break;
   case 5:
      if(!allow_empty && n < 2) f(place::even, arith(0, (n + 1) / 2, 2), "even");
      else f(place::odd, arith(1, n / 2, 2), "odd");
      break;
   case 6: f(place::reverse, arith(n - 1, n, -1), "reverse"); break;
   case 7: {
      i64 s = r.in(1, 5);
      if(r.chance(30)) s = n + r.in(1, 2);
      auto v = arith(0, (n + s - 1) / s, s);
      if(r.chance(50)) f(place::skipN{long(s)}, v, "skipN");
      else f(place::skipN{Stride{long(s)}}, v, "skipN-named");
      break;
   }
   case 8: {
      i64 cnt = r.in(std::min(lo, n), n);
      if(r.chance(50)) f(place::firstN{long(cnt)}, arith(0, cnt, 1), "firstN");
      else f(place::firstN{Count{long(cnt)}}, arith(0, cnt, 1), "firstN-named");
      break;
   }
   case 9: {
      i64 cnt = r.in(std::min(lo, n), n);
      if(r.chance(50)) f(place::lastN{long(cnt)}, arith(n - cnt, cnt, 1), "lastN");
      else f(place::lastN{Count{long(cnt)}}, arith(n - cnt, cnt, 1), "lastN-named");
      break;
   }
   case 10: case 13: {   // complement of an increasing list
      Idx ex, keep;
      int p = int(r.pick({0, 20, 50, 90, 100}));
      for(i64 i = 0; i < n; ++i) (r.chance(p) ? ex : keep).push_back(i);
      if(!allow_empty && keep.empty() && n) {
         keep.push_back(ex.back());
         ex.pop_back();
      }
      if(ex.size() == 2 && k == 13) f(place::complement{long(ex[0]), long(ex[1])}, keep, "complement-list");
      else f(place::complement{implicit(ex)}, keep, "complement");
      break;
   }
   default: {   // index list: any order, repetitions
      Idx v;
      i64 cnt = n == 0 ? 0 : r.in(lo, std::min<i64>(2 * n, 12));
      if(r.chance(50) && n) {   // a permutation prefix: no repetitions
         Idx p = arith(0, n, 1);
         for(i64 i = n - 1; i > 0; --i) std::swap(p[size_t(i)], p[size_t(r.in(0, i))]);
         p.resize(size_t(std::min(cnt, n)));
         v = p;
      } else {
         for(i64 i = 0; i < cnt; ++i) v.push_back(r.in(0, n - 1));
      }
      f(implicit(v), v, "vector");
   }
   }
}

inline Idx compose(const Idx& outer, const Idx& inner) {
   Idx v;
   for(auto i : inner) v.push_back(outer[size_t(i)]);
   return v;
}
inline bool injective(const Idx& v) {
   return std::set<i64>(v.begin(), v.end()).size() == v.size();
}

} // namespace h
