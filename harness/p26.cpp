// P26: threads that read shared arrays and threads that work on objects of their own, under ThreadSanitizer and
// compared with what each computes alone.
#include "private.hpp"
#include <atomic>
#include <barrier>
#include <thread>
using namespace w;

// The order in which steps of the threads happened; relaxed, so that it orders nothing for the race detector.
struct Order {
   std::atomic<unsigned> next{0};
   unsigned char who[512];
   void step(int t) {
      unsigned k = next.fetch_add(1, std::memory_order_relaxed);
      if(k < 512) __atomic_store_n(&who[k], (unsigned char)t, __ATOMIC_RELAXED);
   }
};
inline Order order;

struct Script {
   int role = 0;
   u64 seed = 0;
   int rounds = 1;
   u64 digest = 0, items = 0;
   std::string error;
};

// Random numbers: whatever they are, they lie in range; semi-random ones repeat.
template <class T> void chance(Rng& r, Dig& d) {
   T lo = T(r.in(0, 5)), hi = T(lo + T(r.in(1, 50)));
   auto L = S<T>(lo), H = S<T>(hi);
   bool ok = true;
   auto within = [&](auto x) { ok = ok && x >= L && x <= H; };
   d.op("rands");
   for(int i = 0; i < 5; ++i) within(rands(L, H)), within(rands_not0(L, H));
   i64 n = r.in(1, 20);
   auto a = random<T>(long(n), L, H).eval();
   for(auto x : a) within(x);
   Array2D<T> m(1L * n, 3L);
   random(m, a, L, H);
   for(auto x : m.view1D()) within(x);
   for(auto x : a) within(x);
   d.b(ok);
   d.op("semi_random");
   auto s = semi_random<T>(long(n), L, H).eval();
   d.a(s);
   semi_random(a, L, H), semi_random(m, L, H);
   d.a(a), d.a(m);
   d.op("shuffle");
   auto b = s;
   shuffle(b);
   sort_increasing(b), sort_increasing(s);
   d.b(bool(b == s)), d.a(b);
}
// Reported errors, each caught in its own thread.
template <class T> void errors(Rng& r, Dig& d) {
   auto v = values<T>(r, r.in(1, 9));
   auto a = mk1<Array1D<T>>(v);
   i64 n = sz(a);
   for(int k = 0; k < 3; ++k) {
      d.op("error");
      try {
         switch(r.below(5)) {
         case 0: d.s(a.at(long(n + 1))); break;
         case 1: a.remove(long(n)); break;
         case 2: a = const1D<T>(n + 1, S<T>(T(1))); break;
         case 3: d.s(sum(Array1D<T>{})), d.s(spp::min(Array1D<T>{})); break;
         case 4: a.insert(-1L, a); break;
         }
         d.b(true);
      } catch(const StrictException& e) {
         d.str(e.what());
      }
      d.a(a);
   }
}

template <class T, class Read> void act(int t, Script& s, const Read& read) {
   try {
      Dig d;
      Case c{0, Rng(s.seed), 0, false};
      for(int k = 0; k < s.rounds; ++k) {
         order.step(t);
         switch(s.role) {
         case 0: read(d, Rng(c.r.next())); break;
         case 1: edits<T>(c, d); break;
         case 2: chance<T>(c.r, d); break;
         case 3: io<T>(c, d); break;
         case 4: errors<T>(c.r, d); break;
         case 5: scalars<T>(c, d); break;
         }
         order.step(t);
      }
      s.digest = d.h, s.items = d.items;
   } catch(const std::exception& e) {
      s.error = e.what();
      s.digest = 1;
   }
}

template <class T, class Read> void race(Case& c, const char* what, Read read) {
   Rng& r = c.r;
   static const char* role[] = {"read shared", "edit own", "random", "text", "errors", "scalars"};
   int n = int(r.in(2, 5));
   std::vector<Script> s;
   int readers = 0;
   u64 common = r.next();
   for(int t = 0; t < n; ++t) {
      Script x;
      x.role = t < 2 && r.chance(85) ? 0 : int(r.below(6));
      x.seed = r.chance(30) ? common : r.next();
      x.rounds = int(r.in(1, 3));
      readers += x.role == 0;
      s.push_back(x);
   }
   bool first = r.chance(30);   // alone before the threads run together, or after
   std::vector<Script> alone = s;
   auto one_by_one = [&] {
      for(int t = 0; t < n; ++t) act<T>(t, alone[size_t(t)], read);
   };
   if(first) one_by_one();
   order.next = 0;
   {
      std::barrier<> start(n);
      std::vector<std::thread> th;
      std::vector<u64> delay;
      for(int t = 0; t < n; ++t) delay.push_back(r.chance(30) ? r.below(3000) : 0);
      for(int t = 0; t < n; ++t)
         th.emplace_back([&, t] {
            start.arrive_and_wait();
            for(volatile u64 k = delay[size_t(t)]; k > 0; k = k - 1) {}
            act<T>(t, s[size_t(t)], read);
         });
      for(auto& x : th) x.join();
   }
   unsigned steps = std::min(512u, order.next.load());
   u64 o = 0;
   int switches = 0;
   for(unsigned k = 0; k < steps; ++k) {
      o = mix(o ^ order.who[k]);
      switches += k && order.who[k] != order.who[k - 1];
   }
   if(!first) one_by_one();
   for(int t = 0; t < n; ++t) {
      const Script &x = s[size_t(t)], &y = alone[size_t(t)];
      CHECK(x.error.empty() && y.error.empty(), str("concurrent error ", role[x.role]), what, ": thread ", t, " of ", n, " reported '", x.error, "', alone '", y.error, "'");
      CHECK(x.digest == y.digest && x.items == y.items, str("concurrent result ", role[x.role]), what, ": thread ", t, " of ", n, " (", role[x.role], ", seed ", x.seed,
            ") obtained another result together than alone");
      ev(str("thread ", role[x.role]));
      g.checks += x.items;
      c.note(u64(x.role * 31) + x.digest);
   }
   logs(what, " ", n, " threads, ", readers, " readers, ", switches, " switches");
   if(switches > n) ev("interleaved");
   ev(what);
   if(readers > 1) ev("several readers of one object");
   c.note(o);
   c.nontrivial = true;
}

template <class T, int G> void one(Case& c) {
   Rng& r = c.r;
   i64 n = r.chance(15) ? 7 : rsize(r, 20);
   auto v = values<T>(r, n), w2 = values<T>(r, n);
   auto f = [&](auto& a) {
      const auto& ca = a;
      race<T>(c, "shared 1D", [&](Dig& d, Rng q) { read1<G>(d, q, ca, w2); });
   };
   if(r.chance(60)) hold1<1 + G, T>(r, v, f);
   else hold1<0, T>(r, v, f);
}
template <class T, int G> void two(Case& c) {
   Rng& r = c.r;
   i64 nr = rsize(r, 7), nc = nr ? r.in(1, 7) : 0;
   if(nr > 7) nr = 7;
   if(r.chance(20)) nr = 3, nc = 4;
   auto v = values<T>(r, nr, nc), w2 = values<T>(r, nr, nc);
   auto f = [&](auto& a) {
      const auto& ca = a;
      race<T>(c, "shared 2D", [&](Dig& d, Rng q) { read2<G>(d, q, ca, w2); });
   };
   if(r.chance(60)) hold2<1 + G % 7, T>(r, v, f);
   else hold2<0, T>(r, v, f);
}
// Shared lazy objects: expressions, slices of slices, views, generators.
template <class T> void lazy(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(1, 12);
   const auto a = mk1<Array1D<T>>(values<T>(r, n)), b = mk1<Array1D<T>>(values<T>(r, n));
   const auto m = mk2<Array2D<T>>(values<T>(r, 3, n));
   const auto x = S<T>(T(3));
   const auto e1 = (a + b) * x - abs(a);
   const auto e2 = merge(a, e1, b)(place::reverse);
   const auto e3 = e1(place::even)(place::reverse);
   const auto e4 = m.view1D()(place::odd);
   const auto e5 = transpose(m).row(0);
   const auto e6 = col_reduce(m, [](auto z) { return sum(z); });
   const auto e7 = sequence<T>(n, x, x);
   const auto e8 = exclude(e1, long(n / 2));
   const auto e9 = m.rows({2, 0}).view1D();
   const auto mm = m.row(1).view2D(1L, long(n));
   race<T>(c, "shared lazy", [&](Dig& d, Rng q) {
      auto go = [&](const auto& e) {
         d.a(e), d.a(e.eval());
         for(auto z : e) d.s(z);
         if(sz(e)) d.s(sum(e)), d.s(spp::max(e)), d.s(e[last]);
         d.a(e + e), d.b(bool(e == e));
         auto copy = e;
         d.a(copy);
      };
      for(i64 k = q.in(2, 6); k > 0; --k) {
         d.op("lazy");
         switch(q.below(10)) {
         case 0: go(e1); break;
         case 1: go(e2); break;
         case 2: go(e3); break;
         case 3: go(e4); break;
         case 4: go(e5); break;
         case 5: go(e6); break;
         case 6: go(e7); break;
         case 7: go(e8); break;
         case 8: go(e9); break;
         case 9: d.a(mm), d.a(mm.row(0) + e1), d.a(transpose(mm)); break;
         }
      }
   });
}

constexpr int N0 = 2 * (G1 + G2);
int main(int argc, char** argv) {
   leak_monitor = false;
   return h::run(argc, argv, [](Case& c) {
      dispatch<N0 + 2>(c, []<int K>(Case& c) {
         if constexpr(K == N0) lazy<double>(c);
         else if constexpr(K == N0 + 1) lazy<int>(c);
         else {
            constexpr int k = K % (G1 + G2);
            using T = std::conditional_t<K / (G1 + G2), int, double>;
            if constexpr(k < G1) one<T, k>(c);
            else two<T, k - G1>(c);
         }
      });
   });
}
