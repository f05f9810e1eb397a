// P29: every operation of the catalogue gives the same digest whatever the operand is stored in.
#include "work.hpp"
using namespace w;

#ifdef STRICT_QUAD_PRECISION
using types = std::tuple<float128>;
#else
using types = std::tuple<double, int, unsigned, float, long double, bool>;
#endif
constexpr int NT = std::tuple_size_v<types>;

// Each type meets the plain array and a third of the other kinds in each group of operations; all of them over the types.
template <int T, int G> using some1 = kinds<0, 1 + (T + G) % 3, 4 + (T + G) % 3, 7 + (T + G) % 3>;
template <int T, int G> using some2 = kinds<0, 1 + (T + G) % 4, 5 + (T + G) % 4>;
template <int... Q> bool has(kinds<Q...>, int k) { return ((k == Q) || ...); }

// The kind of a mutable attached array, which hold1/hold2 only make for const memory.
template <class T, class F> void attached1(const std::vector<T>& v, F f) {
   std::vector<char> raw((v.size() + 1) * sizeof(T));
   T* p = reinterpret_cast<T*>(raw.data());
   for(size_t i = 0; i < v.size(); ++i) p[i] = v[i];
   auto s = attach1D(p, long(v.size()));
   f(s);
}
template <class T, class F> void attached2(const Mat<T>& m, F f) {
   std::vector<char> raw((m.d.size() + 1) * sizeof(T));
   T* p = reinterpret_cast<T*>(raw.data());
   for(size_t i = 0; i < m.d.size(); ++i) p[i] = m.d[i];
   auto s = attach2D(p, long(m.r), long(m.c));
   f(s);
}

template <class F> void compare(Case& c, const char* what, int kind, const char* kname, const Dig& ref, F again) {
   Dig d;
   again(kind, d);
   ++g.checks;
   g.checks += d.items;
   if(d.h == ref.h) return;
   Dig x, y;
   x.text = y.text = true;
   again(0, x);
   again(kind, y);
   // the first line that differs
   std::istringstream p(x.t), q(y.t);
   std::string l, m, op;
   while(true) {
      bool b1 = bool(std::getline(p, l)), b2 = bool(std::getline(q, m));
      if(l != m || !b1 || !b2) break;
   }
   op = l.substr(0, l.find(':'));
   (void)c;
   fail(str("differs ", what, " ", op), str(what, " of ", kname, ": ", m.substr(0, 900), " but of dyn: ", l.substr(0, 900)));
}

template <class T, int G, int TI> void one(Case& c) {
   using mine = some1<TI, G>;
   Rng& r = c.r;
   i64 n = r.chance(15) ? 7 : rsize(r, 30);
   auto v = values<T>(r, n);
   auto w2 = values<T>(r, n);
   c.note(u64(n) * 16 + G);
   for(T x : v) c.note(u64(std::hash<double>{}(double(x))));
   u64 s1 = r.next(), s2 = r.next();
   logs("1D n=", n, " group ", G, " ", show(v), " with ", show(w2));
   auto again = [&](int kind, Dig& d) {
      Rng q(s2);
      auto f = [&](auto& a) { read1<G>(d, Rng(s1), a, w2); };
      auto go = [&]<int... K>(kinds<K...>) { (void)((K == kind && (hold1<K, T>(q, v, f), true)) || ...); };
      go(mine{});
   };
   Dig ref;
   again(0, ref);
   ev("1D groups", 1);
   for(int k = 1; k < 10; ++k) {
      if(!has(mine{}, k) || !fits1(k, v)) continue;
      ev(str("1D ", kname1[k]));
      compare(c, "1D", k, kname1[k], ref, again);
   }
   c.nontrivial = n > 0;
}
template <class T, int G, int TI> void two(Case& c) {
   using mine = some2<TI, G>;
   Rng& r = c.r;
   i64 nr = rsize(r, 9), nc = nr ? r.in(1, 9) : 0;
   if(nr > 9) nr = 9;
   if(r.chance(20)) nr = 3, nc = 4;
   auto v = values<T>(r, nr, nc);
   auto w2 = values<T>(r, nr, nc);
   c.note(u64(nr * 64 + nc) * 16 + G);
   for(T x : v.d) c.note(u64(std::hash<double>{}(double(x))));
   u64 s1 = r.next(), s2 = r.next();
   logs("2D group ", G, " ", show(v), " with ", show(w2));
   auto again = [&](int kind, Dig& d) {
      Rng q(s2);
      auto f = [&](auto& a) { read2<G>(d, Rng(s1), a, w2); };
      auto go = [&]<int... K>(kinds<K...>) { (void)((K == kind && (hold2<K, T>(q, v, f), true)) || ...); };
      go(mine{});
   };
   Dig ref;
   again(0, ref);
   ev("2D groups", 1);
   for(int k = 1; k < 9; ++k) {
      if(!has(mine{}, k) || !fits2(k, v)) continue;
      ev(str("2D ", kname2[k]));
      compare(c, "2D", k, kname2[k], ref, again);
   }
   c.nontrivial = nr > 0;
}
template <int T> using wr1 = std::conditional_t<T % 2 == 0, kinds<0, 1, 3, 5, 8>, kinds<0, 2, 4, 9>>;   // and attached memory, 6
template <int T> using wr2 = std::conditional_t<T % 2 == 0, kinds<0, 1, 3, 7>, kinds<0, 2, 4, 8>>;     // and attached memory, 5
template <class T, int TI> void writes(Case& c) {
   Rng& r = c.r;
   u64 s1 = r.next(), s2 = r.next();
   if(r.chance(50)) {
      i64 n = r.chance(15) ? 7 : rsize(r, 30);
      auto v = values<T>(r, n), w2 = values<T>(r, n);
      c.note(u64(n) * 16 + 9), c.note(s1);
      logs("1D write n=", n, " ", show(v), " with ", show(w2));
      auto again = [&](int kind, Dig& d) {
         Rng q(s2);
         auto f = [&](auto& a) { write1(d, Rng(s1), a, w2); };
         if(kind == 6) return attached1(v, f);
         auto go = [&]<int... K>(kinds<K...>) { (void)((K == kind && (hold1<K, T>(q, v, f), true)) || ...); };
         go(wr1<TI>{});
      };
      Dig ref;
      again(0, ref);
      for(int k = 1; k < 10; ++k) {
         if((k != 6 && !has(wr1<TI>{}, k)) || !fits1(k, v)) continue;
         ev(str("1D write ", kname1[k]));
         compare(c, "1D write", k, kname1[k], ref, again);
      }
      c.nontrivial = n > 0;
   } else {
      i64 nr = r.in(1, 7), nc = r.in(1, 7);
      if(r.chance(20)) nr = 3, nc = 4;
      auto v = values<T>(r, nr, nc), w2 = values<T>(r, nr, nc);
      c.note(u64(nr * 64 + nc)), c.note(s1);
      logs("2D write ", show(v), " with ", show(w2));
      auto again = [&](int kind, Dig& d) {
         Rng q(s2);
         auto f = [&](auto& a) { write2(d, Rng(s1), a, w2); };
         if(kind == 5) return attached2(v, f);
         auto go = [&]<int... K>(kinds<K...>) { (void)((K == kind && (hold2<K, T>(q, v, f), true)) || ...); };
         go(wr2<TI>{});
      };
      Dig ref;
      again(0, ref);
      for(int k = 1; k < 9; ++k) {
         if((k != 5 && !has(wr2<TI>{}, k)) || !fits2(k, v)) continue;
         ev(str("2D write ", kname2[k]));
         compare(c, "2D write", k, kname2[k], ref, again);
      }
      c.nontrivial = true;
   }
}

int main(int argc, char** argv) {
   return h::run(argc, argv, [](Case& c) {
      dispatch<(G1 + G2 + 1) * NT>(c, []<int K>(Case& c) {
         using T = std::tuple_element_t<K % NT, types>;
         constexpr int G = K / NT;
         if constexpr(G < G1) one<T, G, K % NT>(c);
         else if constexpr(G < G1 + G2) two<T, G - G1, K % NT>(c);
         else writes<T, K % NT>(c);
      });
   });
}
