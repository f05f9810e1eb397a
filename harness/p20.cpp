// P20: random and semi-random generation: range, non-zero, termination, coverage, extent of writing, reproducibility.
#include "operands.hpp"
using namespace h;
using namespace spp;

template <class T> constexpr bool INTEGRAL = std::is_integral_v<T>;
template <class T> std::string sh(T x) {
   return show<T>(x);
}

// A non-empty closed range.
template <class T> std::pair<T, T> range(Rng& r, bool semi) {
   T lo, hi;
   if constexpr(INTEGRAL<T>) {
      using L = std::numeric_limits<T>;
      switch(r.below(9)) {
      case 0: lo = hi = T(r.in(0, 5)); break;
      case 1: lo = T(r.in(0, 3)), hi = T(lo + T(r.in(1, 7))); break;
      case 2: lo = L::min(), hi = T(L::min() + T(r.in(0, 5))); break;
      case 3: hi = L::max(), lo = T(L::max() - T(r.in(0, 5))); break;
      case 4: lo = 0, hi = L::max(); break;
      case 5:
         lo = L::min(), hi = L::max();
         if(semi && r.chance(40)) lo = T(lo / 4), hi = T(hi / 4);
         else if(r.chance(30)) lo = T(lo + T(r.below(3))), hi = T(hi - T(r.below(3)));
         break;
      case 6: lo = 0, hi = 1; break;
      case 7:
         if constexpr(std::is_signed_v<T>) { lo = T(r.in(-6, 0)), hi = T(r.in(0, 6)); break; }
         [[fallthrough]];
      default:
         if constexpr(std::is_signed_v<T>) lo = T(r.in(-6, 6));
         else lo = T(r.in(0, 12));
         hi = T(lo + T(r.in(0, 9)));
      }
   } else {
      T tiny, big;
      if constexpr(std::is_same_v<T, float> || std::is_same_v<T, double> || std::is_same_v<T, long double>) {
         tiny = std::numeric_limits<T>::denorm_min(), big = std::numeric_limits<T>::max() / 4;
      } else {
         tiny = T(std::numeric_limits<double>::min()), big = T(std::numeric_limits<double>::max() / 4);
      }
      switch(r.below(9)) {
      case 0: lo = 0, hi = 1; break;
      case 1: lo = hi = T(double(r.in(-20, 20)) / 4); break;
      case 2: lo = 0, hi = tiny; break;
      case 3: lo = -tiny, hi = 0; break;
      case 4: lo = -big, hi = big; break;
      case 5: lo = T(-1), hi = T(double(r.below(1000)) * 1e-9); break;
      case 6: lo = T(1e6 + double(r.below(100))), hi = lo + T(0.5); break;
      case 7: lo = -T(0.), hi = T(double(r.below(100)) / 64); break;
      default: lo = T(double(r.in(-1000, 1000)) / 64), hi = lo + T(double(r.in(0, 1000)) / 64);
      }
   }
   return {lo, hi};
}

template <class T> void inside(T x, T lo, T hi, bool not0, const char* f, const std::string& s) {
   CHECK(x >= lo && x <= hi, str("range ", f), f, s, " produced ", sh(x), " outside [", sh(lo), ",", sh(hi), "]");
   if(not0) CHECK(!(x == T(0)), str("zero ", f), f, s, " produced zero in [", sh(lo), ",", sh(hi), "]");
}

// Every value of a small integer range must have been seen.
template <class T> void covers(const std::vector<T>& v, T lo, T hi, bool not0, const char* f) {
   if constexpr(INTEGRAL<T>) {
      std::set<T> seen(v.begin(), v.end());
      size_t want = 0;
      for(T x = lo;; ++x) {
         if(!(not0 && x == T(0))) {
            ++want;
            CHECK(seen.count(x), str("coverage ", f), f, " never produced ", sh(x), " of [", sh(lo), ",", sh(hi), "] in ", v.size(), " draws");
         }
         if(x == hi) break;
      }
      CHECK(seen.size() == want, str("coverage ", f), f, " produced ", seen.size(), " distinct values of ", want);
      ev(str("covered ", f));
   }
}
template <class T> bool small(T lo, T hi) {
   if constexpr(INTEGRAL<T>) return u64(hi) - u64(lo) <= 12;
   else return false;
}
template <class T> bool only0(T lo, T hi) { return lo == T(0) && hi == T(0); }

template <class T> void scalar(Case& c) {
   Rng& r = c.r;
   auto [lo, hi] = range<T>(r, false);
   auto [sl, sg] = range<T>(r, true);
   std::string s = str("(", sh(lo), ",", sh(hi), ")");
   c.note("scalar" + s);
   c.nontrivial = true;
   for(int k = 0; k < 4; ++k) {
      inside<T>(rands(S<T>(lo), S<T>(hi)).val(), lo, hi, false, "rands", s);
      inside<T>(rands(Low<T>{lo}, High<T>{hi}).val(), lo, hi, false, "rands named", s);
      inside<T>(rands<T>().val(), T(0), T(1), false, "rands default", "");
      inside<T>(rands_not0<T>().val(), T(0), T(1), true, "rands_not0 default", "");
      if(!only0(lo, hi)) {
         inside<T>(rands_not0(S<T>(lo), S<T>(hi)).val(), lo, hi, true, "rands_not0", s);
         inside<T>(rands_not0(Low<T>{lo}, High<T>{hi}).val(), lo, hi, true, "rands_not0 named", s);
      }
      unsigned sd = r.chance(20) ? r.pick({0u, 1u, ~0u, 100000u}) : unsigned(r.next());
      Seed seed{sd};
      std::string q = str("(", sh(sl), ",", sh(sg), ",seed ", sd, ")");
      auto twice = [&](auto f, T a, T b, bool nz, const char* name) {
         T x = f().val(), y = f().val();
         inside<T>(x, a, b, nz, name, q);
         CHECK(same_bits<T>(x, y), str("repeat ", name), name, q, " gave ", sh(x), " then ", sh(y));
         ev(name);
      };
      twice([&] { return semi_rands(S<T>(sl), S<T>(sg), seed); }, sl, sg, false, "semi_rands");
      twice([&] { return semi_rands(Low<T>{sl}, High<T>{sg}, seed); }, sl, sg, false, "semi_rands named");
      twice([&] { return semi_rands<T>(seed); }, T(0), T(1), false, "semi_rands default");
      twice([&] { return semi_rands_not0<T>(seed); }, T(0), T(1), true, "semi_rands_not0 default");
      twice([&] { return semi_rands<T>(); }, T(0), T(1), false, "semi_rands default seed");
      twice([&] { return semi_rands(S<T>(sl), S<T>(sg)); }, sl, sg, false, "semi_rands default seed");
      if(!only0(sl, sg)) {
         twice([&] { return semi_rands_not0(S<T>(sl), S<T>(sg), seed); }, sl, sg, true, "semi_rands_not0");
         twice([&] { return semi_rands_not0(Low<T>{sl}, High<T>{sg}, seed); }, sl, sg, true, "semi_rands_not0 named");
      }
      ev("scalar draws");
   }
   if(r.chance(15) && small(lo, hi)) {
      std::vector<T> v;
      for(int k = 0; k < 700; ++k) v.push_back(rands(S<T>(lo), S<T>(hi)).val());
      covers<T>(v, lo, hi, false, "rands");
      if(!only0(lo, hi)) {
         for(auto& x : v) x = rands_not0(S<T>(lo), S<T>(hi)).val();
         covers<T>(v, lo, hi, true, "rands_not0");
      }
   }
   CHECK(throws([&] { (void)rands_not0(S<T>(T(0)), S<T>(T(0))); }), "rejected", "rands_not0(0,0) not reported");
   CHECK(throws([&] { (void)semi_rands_not0(S<T>(T(0)), S<T>(T(0)), Seed{3U}); }), "rejected", "semi_rands_not0(0,0) not reported");
   if(lo < hi) CHECK(throws([&] { (void)rands(S<T>(hi), S<T>(lo)); }) && throws([&] { (void)semi_rands(S<T>(hi), S<T>(lo)); }), "rejected", "reversed range not reported");
}

// Calls f(slice, positions) on a mutable object of one of several kinds inside a larger guarded storage.
template <class T, class F> void target1(Rng& r, i64 n, F f) {
   int k = int(r.below(7));
   auto base = rvec<T>(r, 2 * n + 5, 0, 60);
   Idx p;
   auto run = [&](auto& a, auto&& s, const char* name) {
      f(s, name);
      auto after = vec(a);
      std::vector<bool> in(size_t(sz(a)));
      for(auto i : p) in[size_t(i)] = true;
      for(i64 i = 0; i < sz(a); ++i)
         if(!in[size_t(i)]) CHECK(same<T>(after[size_t(i)], base[size_t(i)]), "elsewhere", "element ", i, " outside the target changed from ", show<T>(base[size_t(i)]), " to ", show<T>(after[size_t(i)]), " (", name, ")");
      ev(name);
   };
   if(k == 0) {
      base.resize(size_t(n));
      auto a = mk1<Array1D<T>>(base);
      p = arith(0, n, 1);
      run(a, a, "target dyn");
   } else if(k == 1) {
      base.resize(size_t(n));
      auto a = mk1<Array1D<T, Aligned>>(base);
      p = arith(0, n, 1);
      run(a, a, "target aligned");
   } else if(k == 2) {
      auto a = mk1<Array1D<T>>(base);
      p = arith(1, n, 2);
      run(a, a(seqN{1, long(n), 2}), "target strided");
   } else if(k == 3) {
      auto a = mk1<Array1D<T>>(base);
      p = arith(n + 2, n, -1);
      run(a, a(seqN{long(n + 2), long(n), -1}), "target reversed");
   } else if(k == 4) {
      auto a = mk1<Array1D<T>>(base);
      p = arith(0, 2 * n + 5, 1);
      for(i64 i = 2 * n + 4; i > 0; --i) std::swap(p[size_t(i)], p[size_t(r.in(0, i))]);
      p.resize(size_t(n));
      run(a, a(implicit(p)), "target list");
   } else if(k == 5) {
      auto a = mk1<Array1D<T>>(base);
      if constexpr(!std::is_same_v<T, bool>) {
         T* q = reinterpret_cast<T*>(a.blas_data()) + 2;
         p = arith(2, n, 1);
         run(a, attach1D(q, long(n)), "target attached");
      } else {
         p = arith(2, n, 1);
         run(a, a(seqN{2, long(n)}), "target strided");
      }
   } else {
      base.resize(size_t(3 * (n + 1)));
      for(auto&& x : base) x = rnd<T>(r, 0, 60);
      Array2D<T> a(1L * (n + 1), 3L);
      fill1(a, base);
      p = arith(4, n, 3);
      if(n == 0) p.clear();
      run(a, a.col(1)(seqN{n ? 1L : 0L, long(n)}), "target column");
   }
}
template <class T, class F> void target2(Rng& r, i64 nr, i64 nc, F f) {
   int k = nr ? int(r.below(4)) : 0;
   Mat<T> base(k == 0 ? nr : nr + 2, k == 0 ? nc : nc + 2);
   for(auto&& x : base.d) x = rnd<T>(r, 0, 60);
   auto a = mk2<Array2D<T>>(base);
   std::vector<bool> in(base.d.size());
   auto mark = [&](i64 i0, i64 j0) {
      for(i64 i = 0; i < nr; ++i)
         for(i64 j = 0; j < nc; ++j) in[size_t((i + i0) * base.c + j + j0)] = true;
   };
   if(k == 0) {
      mark(0, 0);
      f(a, "target 2D");
   } else if(k == 1) {
      mark(1, 1);
      f(a.blockN(1, 1, long(nr), long(nc)), "target block");
   } else if(k == 2) {
      mark(1, 2);
      f(a(seqN{long(nr), long(nr), -1}, seqN{2, long(nc)}), "target 2D reversed");
   } else {
      mark(2, 0);
      f(a(implicit(arith(2, nr, 1)), implicit(arith(0, nc, 1))), "target 2D lists");
   }
   for(size_t i = 0; i < base.d.size(); ++i)
      if(!in[i]) CHECK(same<T>(a.un(long(i)).val(), base.d[i]), "elsewhere", "element ", i, " outside the 2D target changed");
   ev(k ? "target 2D slice" : "target 2D");
}

template <class T> std::vector<T> sentinel(Rng&, i64 n, T x) { return std::vector<T>(size_t(n), x); }

template <class A, class T> void all_in(const A& a, T lo, T hi, bool nz, const char* f, const std::string& s) {
   for(T x : vec(a)) inside<T>(x, lo, hi, nz, f, s);
   ev(f);
}

template <class T> void filled(Case& c) {
   Rng& r = c.r;
   i64 n = r.chance(10) ? 0 : r.chance(10) ? 300 : r.in(1, 20);
   bool semi = r.chance(50), nz = r.chance(45);
   auto [lo, hi] = range<T>(r, semi);
   if(nz && only0(lo, hi)) hi = T(1);
   int form = int(r.below(3));
   if(form == 2) lo = T(0), hi = T(1);
   unsigned sd = unsigned(r.next());
   std::string s = str("(n=", n, ",", sh(lo), ",", sh(hi), ", form ", form, ")");
   c.note(str(semi, nz, s));
   c.nontrivial = n > 0;
   Seed seed{sd};
   bool cov = form != 2 && small(lo, hi) && r.chance(40);
   if(cov) n = semi ? 20000 : 700;
   auto go = [&](auto&& a) {
      // what was there must go: put a value outside the range
      if(n && (lo > T(0) || hi < T(1))) {
         T out = lo > T(0) ? T(0) : T(1);
         a = S<T>(out);
      }
      if(semi) {
         auto f = [&](auto&& b) {
            if(nz) form == 0 ? semi_random_not0(b, S<T>(lo), S<T>(hi), seed) : form == 1 ? semi_random_not0(b, Low<T>{lo}, High<T>{hi}, seed) : semi_random_not0(b);
            else form == 0 ? semi_random(b, S<T>(lo), S<T>(hi), seed) : form == 1 ? semi_random(b, Low<T>{lo}, High<T>{hi}, seed) : semi_random(b);
         };
         f(a);
         auto v = vec(a);
         all_in(a, lo, hi, nz, nz ? "semi_random_not0(A)" : "semi_random(A)", s);
         std::remove_cvref_t<decltype(a.eval())> again(a);
         again = S<T>(T(1));
         f(again);
         CHECK(eq(vec(again), v), "repeat semi_random(A)", "semi_random of the same seed, shape and range differs ", s, " ", show(v), " then ", show(vec(again)));
         ev("repeated");
      } else {
         if(nz) form == 0 ? random_not0(a, S<T>(lo), S<T>(hi)) : form == 1 ? random_not0(a, Low<T>{lo}, High<T>{hi}) : random_not0(a);
         else form == 0 ? random(a, S<T>(lo), S<T>(hi)) : form == 1 ? random(a, Low<T>{lo}, High<T>{hi}) : random(a);
         all_in(a, lo, hi, nz, nz ? "random_not0(A)" : "random(A)", s);
      }
      if(cov) covers<T>(vec(a), lo, hi, nz, semi ? "semi_random(A)" : "random(A)");
   };
   if(cov) {
      Array1D<T> a(1L * n);
      go(a);
   } else if(r.chance(60)) {
      target1<T>(r, n, [&](auto&& a, const char* name) { (void)name; go(a); });
   } else {
      i64 nr = n ? r.in(1, 6) : 0, nc = n ? r.in(1, 6) : 0;
      target2<T>(r, nr, nc, [&](auto&& a, const char* name) { (void)name; go(a); });
   }
}

template <class T> void several(Case& c) {
   Rng& r = c.r;
   auto [lo, hi] = range<T>(r, false);
   bool nz = r.chance(50);
   if(nz && only0(lo, hi)) hi = T(1);
   bool dflt = r.chance(40), named = r.chance(50);
   if(dflt) lo = T(0), hi = T(1);
   Array1D<T> a(r.in(0, 9));
   Array2D<T> b(2L, r.in(1, 5));
   Array1D<T> base(9L);
   auto d = base(seqN{8, 5, -2});
   T out = lo > T(0) ? T(0) : hi < T(1) ? T(1) : T(0);
   a = S<T>(out), b = S<T>(out), base = S<T>(T(3));
   d = S<T>(out);
   std::string s = str("(A,B,C,", sh(lo), ",", sh(hi), ")");
   c.note(s);
   c.nontrivial = true;
   if(nz) dflt ? random_not0(a, b, d) : named ? random_not0(a, b, d, Low<T>{lo}, High<T>{hi}) : random_not0(a, b, d, S<T>(lo), S<T>(hi));
   else dflt ? random(a, b, d) : named ? random(a, b, d, Low<T>{lo}, High<T>{hi}) : random(a, b, d, S<T>(lo), S<T>(hi));
   all_in(a, lo, hi, nz, "random(A,B,C)", s);
   all_in(b, lo, hi, nz, "random(A,B,C)", s);
   all_in(d, lo, hi, nz, "random(A,B,C)", s);
   for(i64 i = 1; i < 9; i += 2) CHECK(base.un(long(i)).val() == T(3), "elsewhere", "random(A,B,C) wrote outside its third target");
   if(dflt) {
      a = S<T>(T(3)), b = S<T>(T(3)), base = S<T>(T(3));
      if(nz) semi_random_not0(a, b, d);
      else semi_random(a, b, d);
      all_in(a, T(0), T(1), nz, "semi_random(A,B,C)", s);
      all_in(b, T(0), T(1), nz, "semi_random(A,B,C)", s);
      all_in(d, T(0), T(1), nz, "semi_random(A,B,C)", s);
      for(i64 i = 1; i < 9; i += 2) CHECK(base.un(long(i)).val() == T(3), "elsewhere", "semi_random(A,B,C) wrote outside its third target");
   }
}

template <class T> void lazy(Case& c) {
   Rng& r = c.r;
   bool semi = r.chance(50), nz = r.chance(45), dflt = r.chance(30);
   auto [lo, hi] = range<T>(r, semi);
   if(nz && only0(lo, hi)) hi = T(1);
   if(dflt) lo = T(0), hi = T(1);
   unsigned sd = unsigned(r.next());
   Seed seed{sd};
   std::string s = str("(", sh(lo), ",", sh(hi), " dflt ", dflt, ")");
   c.note(str("lazy", semi, nz, s));
   c.nontrivial = true;
   auto L = S<T>(lo), H = S<T>(hi);
   auto LN = Low<T>{lo};
   auto HN = High<T>{hi};
   auto one = [&](auto make, i64 n, const char* f) {
      auto e = make();
      CHECK(sz(e) == n, "size", f, " has size ", sz(e), " expected ", n);
      Array1D<T> a(e);
      CHECK(sz(a) == n, "size", f, " evaluates to size ", sz(a), " expected ", n);
      all_in(a, lo, hi, nz, f, s);
      if(semi) {
         Array1D<T> b(make());
         CHECK(eq(vec(a), vec(b)), str("repeat ", f), f, s, " differs between two constructions: ", show(vec(a)), " ", show(vec(b)));
         ev("repeated lazy");
      }
      if(n) inside<T>(e.un(long(r.below(u64(n)))).val(), lo, hi, nz, f, s);
   };
   auto two = [&](auto make, i64 nr, i64 nc, const char* f) {
      auto e = make();
      CHECK(e.rows().val() == nr && e.cols().val() == nc && sz(e) == nr * nc, "shape", f, " has shape ", e.rows().val(), "x", e.cols().val(), " expected ", nr, "x", nc);
      Array2D<T> a(e);
      CHECK(a.rows().val() == nr && a.cols().val() == nc, "shape", f, " evaluates to another shape");
      all_in(a, lo, hi, nz, f, s);
      if(semi) {
         Array2D<T> b(make());
         CHECK(eq(mat(a), mat(b)), str("repeat ", f), f, s, " differs between two constructions");
         ev("repeated lazy 2D");
      }
      if(nr) inside<T>(e.un(long(r.below(u64(nr))), long(r.below(u64(nc)))).val(), lo, hi, nz, f, s);
   };
   i64 n = rsize(r, 30), nr = r.in(0, 7), nc = nr ? r.in(1, 7) : 0;
   long N = long(n), R = long(nr), C = long(nc);
   Size SN{N};
   Rows RN{R};
   Cols CN{C};
   bool named = r.chance(50);
   if(!semi && !nz) {
      if(dflt) {
         named ? one([&] { return random<T>(SN); }, n, "random<T>(Size)") : one([&] { return random<T>(N); }, n, "random<T>(n)");
         named ? two([&] { return random<T>(RN, CN); }, nr, nc, "random<T>(Rows,Cols)") : two([&] { return random<T>(R, C); }, nr, nc, "random<T>(m,n)");
      } else {
         named ? one([&] { return random<T>(SN, LN, HN); }, n, "random(Size,Low,High)") : one([&] { return random<T>(N, L, H); }, n, "random(n,l,h)");
         named ? two([&] { return random<T>(RN, CN, LN, HN); }, nr, nc, "random(Rows,Cols,Low,High)") : two([&] { return random<T>(R, C, L, H); }, nr, nc, "random(m,n,l,h)");
      }
   } else if(!semi) {
      if(dflt) {
         named ? one([&] { return random_not0<T>(SN); }, n, "random_not0<T>(Size)") : one([&] { return random_not0<T>(N); }, n, "random_not0<T>(n)");
         named ? two([&] { return random_not0<T>(RN, CN); }, nr, nc, "random_not0<T>(Rows,Cols)") : two([&] { return random_not0<T>(R, C); }, nr, nc, "random_not0<T>(m,n)");
      } else {
         named ? one([&] { return random_not0<T>(SN, LN, HN); }, n, "random_not0(Size,Low,High)") : one([&] { return random_not0<T>(N, L, H); }, n, "random_not0(n,l,h)");
         named ? two([&] { return random_not0<T>(RN, CN, LN, HN); }, nr, nc, "random_not0(Rows,Cols,Low,High)") : two([&] { return random_not0<T>(R, C, L, H); }, nr, nc, "random_not0(m,n,l,h)");
      }
   } else if(!nz) {
      if(dflt) {
         named ? one([&] { return semi_random<T>(SN, seed); }, n, "semi_random<T>(Size)") : one([&] { return semi_random<T>(N, seed); }, n, "semi_random<T>(n)");
         named ? two([&] { return semi_random<T>(RN, CN, seed); }, nr, nc, "semi_random<T>(Rows,Cols)") : two([&] { return semi_random<T>(R, C, seed); }, nr, nc, "semi_random<T>(m,n)");
      } else {
         named ? one([&] { return semi_random<T>(SN, LN, HN, seed); }, n, "semi_random(Size,Low,High)") : one([&] { return semi_random<T>(N, L, H, seed); }, n, "semi_random(n,l,h)");
         named ? two([&] { return semi_random<T>(RN, CN, LN, HN, seed); }, nr, nc, "semi_random(Rows,Cols,Low,High)") : two([&] { return semi_random<T>(R, C, L, H, seed); }, nr, nc, "semi_random(m,n,l,h)");
      }
   } else {
      if(dflt) {
         named ? one([&] { return semi_random_not0<T>(SN, seed); }, n, "semi_random_not0<T>(Size)") : one([&] { return semi_random_not0<T>(N, seed); }, n, "semi_random_not0<T>(n)");
         named ? two([&] { return semi_random_not0<T>(RN, CN, seed); }, nr, nc, "semi_random_not0<T>(Rows,Cols)") : two([&] { return semi_random_not0<T>(R, C, seed); }, nr, nc, "semi_random_not0<T>(m,n)");
      } else {
         named ? one([&] { return semi_random_not0<T>(SN, LN, HN, seed); }, n, "semi_random_not0(Size,Low,High)") : one([&] { return semi_random_not0<T>(N, L, H, seed); }, n, "semi_random_not0(n,l,h)");
         named ? two([&] { return semi_random_not0<T>(RN, CN, LN, HN, seed); }, nr, nc, "semi_random_not0(Rows,Cols,Low,High)") : two([&] { return semi_random_not0<T>(R, C, L, H, seed); }, nr, nc, "semi_random_not0(m,n,l,h)");
      }
   }
   if(small(lo, hi) && r.chance(30)) {   // coverage of the lazy forms
      long big = semi ? 20000 : 700;
      Array1D<T> a(1L * big);
      if(!semi && !nz) a = random<T>(big, L, H);
      else if(!semi) a = random_not0<T>(big, L, H);
      else if(!nz) a = semi_random<T>(big, L, H, seed);
      else a = semi_random_not0<T>(big, L, H, seed);
      all_in(a, lo, hi, nz, "assigned lazy", s);
      covers<T>(vec(a), lo, hi, nz, semi ? "semi_random(n)" : "random(n)");
   }
}

void booleans(Case& c) {
   Rng& r = c.r;
   c.note(r.next());
   c.nontrivial = true;
   auto both = [&](const auto& v, const char* f) {
      bool t = false, n = false;
      for(auto x : v) (x ? t : n) = true;
      CHECK(t && n, str("coverage ", f), f, " of bool never produced ", t ? "false" : "true");
      ev(str("bool ", f));
   };
   std::vector<bool> v;
   for(int k = 0; k < 80; ++k) v.push_back(rands<bool>().val());
   both(v, "rands");
   v.clear();
   for(int k = 0; k < 4000; ++k) v.push_back(semi_rands<bool>(Seed{unsigned(r.next())}).val());
   both(v, "semi_rands");
   Array1D<bool> a(100L);
   Array2D<bool> b(10L, 10L);
   random(a, b);
   both(vec(a), "random(A)");
   both(vec(b), "random(A)");
   Array1D<bool> d(4000L), e(4000L);
   semi_random(d);
   semi_random(e);
   both(vec(d), "semi_random(A)");
   CHECK(eq(vec(d), vec(e)), "repeat bool", "semi_random of bool differs between runs");
   d = semi_random<bool>(4000, Seed{7U});
   e = semi_random<bool>(Size{4000}, Seed{7U});
   both(vec(d), "semi_random(n)");
   CHECK(eq(vec(d), vec(e)), "repeat bool", "semi_random<bool> differs between runs");
   a = random<bool>(100);
   both(vec(a), "random(n)");
   b = random<bool>(10, 10);
   both(vec(b), "random(m,n)");
   Array1D<bool> base(31L);
   base = true_sb;
   auto s = base(seqN{1, 15, 2});
   random(s);
   for(i64 i = 0; i < 31; i += 2) CHECK(base.un(long(i)).val(), "elsewhere", "random of a bool slice wrote outside");
}

#ifdef STRICT_QUAD_PRECISION
inline constexpr int NT = 8;
#else
inline constexpr int NT = 7;
#endif
template <int K> struct TypeOf { using type = std::tuple_element_t<K < 7 ? K : 0, std::tuple<int, double, unsigned, float, long, long double, unsigned long>>; };
#ifdef STRICT_QUAD_PRECISION
template <> struct TypeOf<7> { using type = float128; };
#endif

int main(int argc, char** argv) {
   leak_monitor = true;
   return run(argc, argv, [](Case& c) {
      dispatch<NT>(c, []<int K>(Case& c) {
         using T = typename TypeOf<K>::type;
         int k = int(c.r.below(100));
         if(k < 4) booleans(c);
         else if(k < 30) scalar<T>(c);
         else if(k < 60) filled<T>(c);
         else if(k < 70) several<T>(c);
         else lazy<T>(c);
      });
   });
}
