// P06: value semantics of owning arrays: a pool of arrays with model values, compared after every step.
#include "common.hpp"
#include <memory>
using namespace h;
using namespace spp;

template <class A> constexpr bool two = A::dimension().val() == 2;
template <class A> constexpr bool dyn = bool(A::is_dynamic());

template <class A>
struct H {
   using T = bt<A>;
   struct V {
      i64 r = 0, c = 0;
      std::vector<T> d;
   };
   static V model(const A& a) {
      V v;
      if constexpr(two<A>) {
         v.r = a.rows().val();
         v.c = a.cols().val();
      } else {
         v.r = sz(a);
         v.c = 1;
      }
      v.d = vec(a);
      return v;
   }
   static bool eqv(const V& a, const V& b) { return a.r == b.r && a.c == b.c && eq(a.d, b.d); }
   static V shape(Rng& r) {
      V v;
      if constexpr(dyn<A>) {
         // few shapes, so that assignments between members of the pool are usually legal
         if constexpr(two<A>) {
            int k = int(r.below(7));
            v.r = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 4 : k == 6 ? 9 : 3;
            v.c = k == 0 ? 0 : k == 1 ? 5 : k == 2 ? 3 : k == 6 ? 11 : 4;
         } else {
            v.r = r.pick({0, 1, 7, 7, 8, 33});
            v.c = 1;
         }
      } else {
         A a;
         v = model(a);
      }
      v.d = rvec<T>(r, v.r * v.c);
      return v;
   }
   static std::unique_ptr<A> make(const V& v) {
      std::unique_ptr<A> a;
      if constexpr(!dyn<A>) a = std::make_unique<A>();
      else if constexpr(two<A>) a = std::make_unique<A>(long(v.r), long(v.c));
      else a = std::make_unique<A>(long(v.r));
      fill1(*a, v.d);
      return a;
   }
   static void moved(const A& a, V& m, const char* what) {
      V v = model(a);
      if constexpr(dyn<A>) {
         CHECK(v.d.empty() && v.r == 0 && (!two<A> || v.c == 0) && bool(a.empty()) && a.data() == nullptr, "moved-from", what,
               ": moved-from dynamic array is not empty: ", v.r, "x", v.c, show(v.d));
         m = V{};
         m.c = two<A> ? 0 : 1;
      } else {
         CHECK(std::all_of(v.d.begin(), v.d.end(), [](T x) { return x == T{}; }), "moved-from", what,
               ": moved-from fixed array is not zero: ", show(v.d));
         for(auto&& x : m.d) x = T{};
      }
   }
   static void history(Case& c) {
      Rng& r = c.r;
      std::vector<std::unique_ptr<A>> p;
      std::vector<V> m;
      for(int i = 0; i < 4; ++i) {
         m.push_back(shape(r));
         p.push_back(make(m.back()));
      }
      i64 ops = r.in(2, 14);
      i64 copies = 0;
      for(i64 o = 0; o < ops; ++o) {
         size_t i = r.below(p.size()), j = r.below(p.size());
         int op = int(r.below(13));
         bool fit = m[i].r == m[j].r && m[i].c == m[j].c;
         c.note(u64(op) * 64 + i * 8 + j);
         logs("op", op, " ", i, ",", j);
         ev(str("op.", op));
         switch(op) {
         case 0: {   // copy construct
            p.push_back(std::make_unique<A>(*p[j]));
            m.push_back(m[j]);
            ++copies;
            break;
         }
         case 1: {   // move construct
            auto q = std::make_unique<A>(std::move(*p[j]));
            V mv = m[j];
            if(dyn<A> && !mv.d.empty()) ev("moved.nonempty");
            moved(*p[j], m[j], "move construction");
            p.push_back(std::move(q));
            m.push_back(mv);
            ++copies;
            break;
         }
         case 2:   // copy assign
            if(fit) {
               auto& ref = (*p[i] = *p[j]);
               CHECK(&ref == p[i].get(), "assign.ret", "copy assignment does not return its target");
               m[i] = m[j];
               ev(i == j ? "self-copy" : "copy-assign");
               ++copies;
            }
            break;
         case 3:   // move assign
            if(fit) {
               A& s = *p[j];
               auto& ref = (*p[i] = std::move(s));
               CHECK(&ref == p[i].get(), "assign.ret", "move assignment does not return its target");
               if(i != j) {
                  m[i] = m[j];
                  moved(s, m[j], "move assignment");
                  ev("move-assign");
               } else {
                  ev("self-move");
               }
               ++copies;
            }
            break;
         case 4: case 5:   // swap
            if constexpr(dyn<A>) {
               const void* di = p[i]->data();
               const void* dj = p[j]->data();
               p[i]->swap(*p[j]);
               std::swap(m[i], m[j]);
               if(i != j) CHECK(p[i]->data() == dj && p[j]->data() == di, "swap.storage", "swap did not exchange storage");
               ev(i == j ? "self-swap" : "swap");
               ++copies;
            } else {
               std::swap(*p[i], *p[j]);
               std::swap(m[i], m[j]);
               ev(i == j ? "self-swap" : "swap");
               ++copies;
            }
            break;
         case 6: case 7: case 8:   // mutate one element: must be visible only here
            if(!m[i].d.empty()) {
               i64 k = r.in(0, i64(m[i].d.size()) - 1);
               T x = rnd<T>(r, 100, 120);
               p[i]->un(long(k)) = Strict<T>{x};
               m[i].d[size_t(k)] = x;
               ev("mutate");
            }
            break;
         case 9:   // swap with a temporary / replace by a fresh value
            if constexpr(dyn<A>) {
               V v = shape(r);
               auto q = make(v);
               p[i]->swap(std::move(*q));
               CHECK(eqv(model(*q), m[i]), "swap.temp", "swap with an rvalue lost contents");
               m[i] = v;
            } else {
               V v = shape(r);
               *p[i] = *make(v);
               m[i] = v;
            }
            break;
         case 10:   // round trip through by-value function
            if(fit) {
               auto f = [](A a) { return a; };
               *p[i] = f(*p[j]);
               m[i] = m[j];
               ++copies;
            }
            break;
         case 11:   // resize_and_assign from another of the pool, copy and move
            if constexpr(dyn<A>) {
               if(i == j || r.chance(50)) {
                  p[i]->resize_and_assign(*p[j]);
                  m[i] = m[j];
               } else {
                  p[i]->resize_and_assign(std::move(*p[j]));
                  m[i] = m[j];
                  moved(*p[j], m[j], "resize_and_assign of an rvalue");
               }
               ++copies;
            }
            break;
         case 12: {   // eval and equality
            auto e = p[j]->eval();
            CHECK(bool(e == *p[j]) && eq(vec(e), m[j].d), "eval", "eval() differs");
            if(!m[j].d.empty()) {
               e.un(0) = Strict<T>{T(99)};
               CHECK(eq(vec(*p[j]), m[j].d), "eval.alias", "eval() aliases its source");
            }
            break;
         }
         }
         std::set<const void*> ptrs;
         for(size_t k = 0; k < p.size(); ++k) {
            V v = model(*p[k]);
            CHECK(eqv(v, m[k]), "state", "array ", k, " after op", op, "(", i, ",", j, "): got ", v.r, "x", v.c, show(v.d), " expected ", m[k].r,
                  "x", m[k].c, show(m[k].d));
            if(!m[k].d.empty()) {
               CHECK(ptrs.insert(p[k]->data()).second, "alias", "two arrays share storage");
            }
            for(size_t l = 0; l < k; ++l) {
               bool e = bool(*p[k] == *p[l]);
               bool want = m[k].r == m[l].r && m[k].c == m[l].c
                        && std::equal(m[k].d.begin(), m[k].d.end(), m[l].d.begin());
               CHECK(e == want, "equality", "operator== says ", e);
            }
         }
         if(p.size() > 8) {
            p.erase(p.begin());
            m.erase(m.begin());
         }
      }
      c.nontrivial = copies > 0;
      c.note(p.size());
   }
};

int main(int argc, char** argv) {
   return run(argc, argv, [](Case& c) {
      dispatch<8>(c, []<int K>(Case& c) {
         if constexpr(K == 0) H<Array1D<int>>::history(c);
         if constexpr(K == 1) H<Array1D<double, Aligned>>::history(c);
         if constexpr(K == 2) H<Array2D<int>>::history(c);
         if constexpr(K == 3) H<Array2D<double, Aligned>>::history(c);
         if constexpr(K == 4) H<FixedArray1D<int, 5>>::history(c);
         if constexpr(K == 5) H<FixedArray1D<double, 9, Aligned>>::history(c);
         if constexpr(K == 6) H<FixedArray2D<long, 3, 4>>::history(c);
         if constexpr(K == 7) H<FixedArray2D<float, 5, 2, Aligned>>::history(c);
      });
   });
}
