// P04: edit histories of dynamic 1D arrays against a std::vector model.
#include "common.hpp"
using namespace h;
using namespace spp;

template <class T, AlignmentFlag AF>
struct H {
   using A1 = Array1D<T, AF>;
   using V = std::vector<T>;

   static std::vector<ImplicitInt> idx(const std::vector<i64>& v) {
      std::vector<ImplicitInt> r;
      for(auto i : v) r.emplace_back(long(i));
      return r;
   }
   static std::vector<i64> subset(Rng& r, i64 n) {
      std::vector<i64> v;
      int p = int(r.pick({10, 50, 90}));
      for(i64 i = 0; i < n; ++i) {
         if(r.chance(p)) v.push_back(i);
      }
      return v;
   }
   static Strict<T> S(T x) { return Strict<T>{x}; }

   // Sources that read the target in less direct ways: relative to its size, through its raw storage, through merges.
   template <class F> static void self_source(Rng& r, A1& a, const V& m, V& src, int how, F use) {
      i64 n = i64(m.size());
      if(n == 0) how = how == 0 ? 0 : 1;
      switch(how) {
      case 0: {
         src = V(m.rbegin(), m.rend());
         use(generate(irange(long(n)), [&a](auto i) { return a.un(a.size() - 1_sl - i); }));
         break;
      }
      case 1:
         src = m;
         src.insert(src.end(), m.begin(), m.end());
         use(merge(a, a));
         break;
      case 2: {
         i64 p = r.in(0, n - 1), k = r.in(1, n - p);
         src = m;
         src.erase(src.begin() + p, src.begin() + p + k);
         use(exclude(a, long(p), long(k)));
         break;
      }
      case 3: {
         auto* q = a.blas_data();
         src = m;
         use(attach1D(q, long(n)));
         break;
      }
      case 4:
         src = m;
         use(a.view2D(1L, long(n)).row(0));
         break;
      case 5: {
         i64 k = r.in(0, n);
         src = V(m.end() - k, m.end());
         use(a(place::lastN{long(k)}));
         break;
      }
      default:
         src = V(m.rbegin(), m.rend());
         for(size_t i = 0; i < m.size(); ++i) src[i] = T(src[i] - m[i]);
         use(a(place::reverse) - a.view1D());
      }
      ev(str("self-source.", how));
   }

   static void insert_src(Case& c, A1& a, V& m) {
      Rng& r = c.r;
      i64 n = i64(m.size());
      i64 pos = r.pick({i64(0), n, n / 2, r.in(0, n)});
      V src;
      int how = int(r.below(11));
      auto put = [&](auto const& s) {
         int k = int(r.below(4));
         if(k == 0) {
            pos = 0;
            a.insert_front(s);
         } else if(k == 1) {
            pos = n;
            a.insert_back(s);
         } else if(k == 2) {
            a.insert(Pos{long(pos)}, s);
         } else {
            a.insert(long(pos), s);
         }
      };
      switch(how) {
      case 0:
         src = rvec<T>(r, rsize(r, 20));
         put(mk1<A1>(src));
         break;
      case 1:   // another alignment
         src = rvec<T>(r, rsize(r, 20));
         put(mk1<Array1D<T, AF == Aligned ? Unaligned : Aligned>>(src));
         break;
      case 2:   // itself
         src = m;
         put(a);
         break;
      case 3:   // reversed self
         src = V(m.rbegin(), m.rend());
         put(a(place::reverse));
         break;
      case 4: {   // expression over self
         for(auto x : m) src.push_back(T(x + x));
         put(a + a);
         break;
      }
      case 5: {   // even elements of self
         for(size_t i = 0; i < m.size(); i += 2) src.push_back(m[i]);
         put(a(place::even));
         break;
      }
      case 6: {   // index list of self
         std::vector<i64> ii;
         if(n) {
            for(i64 k = r.in(0, 6); k > 0; --k) ii.push_back(r.in(0, n - 1));
         }
         for(auto i : ii) src.push_back(m[size_t(i)]);
         put(a(idx(ii)));
         break;
      }
      case 9:
      case 10: self_source(r, a, m, src, int(r.below(7)), put); break;
      case 7: {   // sequence
         i64 k = r.in(1, 7);
         for(i64 i = 0; i < k; ++i) src.push_back(T(T(3) + T(i) * T(2)));
         put(sequence(Size{long(k)}, Start{T(3)}, Incr{T(2)}));
         break;
      }
      default: {
         T x = rnd<T>(r);
         src = {x};
         int k = int(r.below(6));
         if(k == 0) a.insert(long(pos), S(x));
         if(k == 1) a.insert(Pos{long(pos)}, Value<T>{x});
         if(k == 2) { pos = 0; a.insert_front(S(x)); }
         if(k == 3) { pos = 0; a.insert_front(Value<T>{x}); }
         if(k == 4) { pos = n; a.insert_back(S(x)); }
         if(k == 5) { pos = n; a.insert_back(Value<T>{x}); }
      }
      }
      logs("insert", how, " pos ", pos, " ", show(src));
      ev(str("insert.src", how));
      m.insert(m.begin() + pos, src.begin(), src.end());
   }

   static void replace(Case& c, A1& a, V& m) {
      Rng& r = c.r;
      int how = int(r.below(10));
      V nv;
      switch(how) {
      case 8:
      case 9: self_source(r, a, m, nv, int(r.below(7)), [&](auto const& s) { a.resize_and_assign(s); }); break;
      case 0:
         nv = rvec<T>(r, rsize(r));
         a.resize_and_assign(mk1<A1>(nv));
         break;
      case 1: {
         nv = rvec<T>(r, rsize(r));
         auto b = mk1<A1>(nv);
         a.resize_and_assign(b);
         expect1(b, nv, "replace.source", "source of resize_and_assign");
         break;
      }
      case 2: {
         nv = rvec<T>(r, rsize(r));
         auto b = mk1<A1>(nv);
         a.resize_and_assign(std::move(b));
         CHECK(sz(b) == 0, "replace.moved", "moved-from source has size ", sz(b));
         break;
      }
      case 3:
         nv = V(m.rbegin(), m.rend());
         a.resize_and_assign(a(place::reverse));
         break;
      case 4:
         for(size_t i = 1; i < m.size(); i += 2) nv.push_back(T(m[i] * T(3)));
         a.resize_and_assign(a(place::odd) * S(T(3)));
         break;
      case 5: {
         i64 k = r.in(0, i64(m.size()));
         nv.assign(m.end() - k, m.end());
         a.resize_and_assign(a(place::lastN{long(k)}));
         break;
      }
      case 6: {
         if(m.empty()) break;
         // the list is read while the target is being replaced
         i64 k = r.in(1, 9);
         std::vector<i64> ii;
         for(i64 t = 0; t < k; ++t) ii.push_back(r.in(0, i64(m.size()) - 1));
         for(auto i : ii) nv.push_back(m[size_t(i)]);
         a.resize_and_assign(a(idx(ii)));
         break;
      }
      default:
         nv = m;
         a.resize_and_assign(a);
      }
      if(how == 6 && m.empty()) return;
      logs("replace", how, " -> ", show(nv));
      ev(str("replace.", how));
      m = nv;
   }

   static void assign(Case& c, A1& a, V& m) {
      Rng& r = c.r;
      int how = int(r.below(11));
      i64 n = i64(m.size());
      switch(how) {
      case 0: {
         T x = rnd<T>(r);
         a = S(x);
         std::fill(m.begin(), m.end(), x);
         break;
      }
      case 1: {
         auto v = rvec<T>(r, n);
         a = mk1<A1>(v);
         m = v;
         break;
      }
      case 2: {
         auto v = rvec<T>(r, n);
         auto b = mk1<A1>(v);
         a = b;
         m = v;
         break;
      }
      case 3: {
         auto v = rvec<T>(r, n);
         auto b = mk1<A1>(v);
         a = std::move(b);
         CHECK(sz(b) == 0, "assign.moved", "moved-from has size ", sz(b));
         m = v;
         break;
      }
      case 4: {
         auto v = rvec<T>(r, n);
         auto b = mk1<Array1D<T, AF == Aligned ? Unaligned : Aligned>>(v);
         a = b;
         m = v;
         break;
      }
      case 5:
         a = a + a;
         for(auto& x : m) x = T(x + x);
         break;
      case 6: {
         auto v = rvec<T>(r, n);
         auto b = mk1<A1>(v);
         a = b - a;
         for(size_t i = 0; i < m.size(); ++i) m[i] = T(v[i] - m[i]);
         break;
      }
      case 7: {
         auto v = rvec<T>(r, 2 * n + 3);
         auto b = mk1<A1>(v);
         a = b(seqN{1, long(n), 2});
         for(i64 i = 0; i < n; ++i) m[size_t(i)] = v[size_t(1 + 2 * i)];
         break;
      }
      case 8:
         if(n == 3) {
            T x = rnd<T>(r), y = rnd<T>(r), z = rnd<T>(r);
            a = {S(x), S(y), S(z)};
            m = {x, y, z};
         }
         break;
      case 9:
         if(n) {
            i64 i = r.in(0, n - 1);
            T x = rnd<T>(r);
            int k = int(r.below(4));
            if(k == 0) a[long(i)] = S(x);
            if(k == 1) a.at(long(i)) = S(x);
            if(k == 2) a[last - long(n - 1 - i)] = S(x);
            if(k == 3) a.un(index_t{long(i)}) = S(x);
            m[size_t(i)] = x;
         }
         break;
      default:
         a = a;
      }
      logs("assign", how);
      ev(str("assign.", how));
   }

   static void history(Case& c) {
      Rng& r = c.r;
      V m;
      A1 a;
      // construction
      int k = int(r.below(8));
      i64 n = rsize(r);
      T x = rnd<T>(r);
      if(k == 0) { a.resize_and_assign(A1(long(n))); m.assign(size_t(n), T{}); }
      if(k == 1) { a.resize_and_assign(A1(Size{long(n)})); m.assign(size_t(n), T{}); }
      if(k == 2) { a.resize_and_assign(A1(long(n), S(x))); m.assign(size_t(n), x); }
      if(k == 3) { a.resize_and_assign(A1(Size{long(n)}, Value<T>{x})); m.assign(size_t(n), x); }
      if(k == 4) { a.resize_and_assign(A1{S(x), S(T{}), S(x)}); m = {x, T{}, x}; }
      if(k == 5) {
         m = rvec<T>(r, n);
         auto b = mk1<Array1D<T>>(m);
         a.resize_and_assign(A1(b.begin(), b.end()));
      }
      if(k == 6) {
         auto v = rvec<T>(r, n);
         auto b = mk1<A1>(v);
         m.assign(v.rbegin(), v.rend());
         a.resize_and_assign(A1(b(place::reverse)));
      }
      if(k == 7) {
         auto v = rvec<T>(r, n);
         auto b = mk1<A1>(v);
         for(auto y : v) m.push_back(T(y + x));
         a.resize_and_assign(A1(b + S(x)));
      }
      logs("construct", k, " ", show(m));
      ev(str("construct.", k));
      expect1(a, m, "state", "after construction");
      i64 ops = r.pick({i64(1), i64(3), i64(8), i64(20)});
      i64 eff = 0;
      for(i64 o = 0; o < ops; ++o) {
         n = i64(m.size());
         if(n > 300) {
            a.resize(40);
            m.resize(40);
            n = 40;
         }
         int op = int(r.below(14));
         c.note(u64(op) * 1000 + m.size());
         switch(op) {
         case 0: case 1: case 2:
            insert_src(c, a, m);
            ++eff;
            break;
         case 3: {
            i64 nn = r.pick({i64(0), n, n + 1, std::max<i64>(n - 1, 0), rsize(r), n * 2});
            a.resize(long(nn));
            logs("resize ", nn);
            ev("resize.keep");
            m.resize(size_t(nn));
            ++eff;
            break;
         }
         case 4: {
            i64 nn = rsize(r);
            a.resize(long(nn), false);
            logs("resize-drop ", nn);
            ev("resize.drop");
            CHECK(sz(a) == nn, "resize.drop.size", "size after resize");
            if(nn != n) {
               // contents are dropped: only the size is promised; overwrite all
               m = rvec<T>(r, nn);
               fill1(a, m);
            }
            ++eff;
            break;
         }
         case 5: case 6: {
            if(!n) break;
            i64 pos = r.in(0, n - 1);
            i64 cnt = r.in(1, n - pos);
            int k2 = int(r.below(9));
            logs("remove", k2, " ", pos, " ", cnt);
            ev(str("remove.", k2));
            if(k2 == 0) a.remove(long(pos), long(cnt));
            if(k2 == 1) a.remove(Pos{long(pos)}, Count{long(cnt)});
            if(k2 == 2) { a.remove(long(pos)); cnt = 1; }
            if(k2 == 3) { a.remove(last - long(n - 1 - pos)); cnt = 1; }
            if(k2 == 4) { pos = 0; cnt = r.in(1, n); a.remove_front(long(cnt)); }
            if(k2 == 5) { pos = 0; cnt = r.in(1, n); a.remove_front(Count{long(cnt)}); }
            if(k2 == 6) { cnt = r.in(1, n); pos = n - cnt; a.remove_back(long(cnt)); }
            if(k2 == 7) { cnt = r.in(1, n); pos = n - cnt; a.remove_back(Count{long(cnt)}); }
            if(k2 == 8) { a.remove(Pos{long(pos)}); cnt = 1; }
            m.erase(m.begin() + pos, m.begin() + pos + cnt);
            ++eff;
            break;
         }
         case 7: {
            auto s = subset(r, n);
            logs("remove-list of ", s.size());
            ev("remove.list");
            a.remove(idx(s));
            for(auto it = s.rbegin(); it != s.rend(); ++it) m.erase(m.begin() + *it);
            ++eff;
            break;
         }
         case 8: case 9:
            replace(c, a, m);
            ++eff;
            break;
         case 10: case 11:
            assign(c, a, m);
            break;
         case 13: {   // an edit that cannot be carried out is reported and is no step of the history
            int k2 = int(r.below(8));
            auto w = mk1<A1>(rvec<T>(r, n + 1));
            bool reported = true;
            if(k2 == 0) reported = throws([&] { a.insert(long(n + 1), S(T(1))); });
            if(k2 == 1) reported = throws([&] { a.insert(-1L, w); });
            if(k2 == 2) reported = throws([&] { a.remove(long(n)); });
            if(k2 == 3) reported = throws([&] { a.remove(long(n / 2), long(n - n / 2 + 1)); });
            if(k2 == 4) reported = throws([&] { a.remove_back(long(n + 1)); });
            if(k2 == 5) reported = throws([&] { a.resize(-1L); });
            if(k2 == 6) reported = throws([&] { a = w; });
            if(k2 == 7) reported = throws([&] { a.remove(idx(std::vector<i64>{n / 2, n / 2})); });
            logs("rejected", k2);
            ev("rejected");
            CHECK(reported, "rejected", "impossible edit ", k2, " accepted on ", show(m));
            break;
         }
         case 12: {   // swap with a fresh one
            auto v = rvec<T>(r, rsize(r));
            auto b = mk1<A1>(v);
            a.swap(b);
            expect1(b, m, "swap.other", "swapped-out contents");
            m = v;
            logs("swap ", show(v));
            ev("swap");
            break;
         }
         }
         CHECK(sz(a) == i64(m.size()), "state.size", "size ", sz(a), " expected ", m.size());
         expect1(a, m, "state", "after operation " + str(op));
         CHECK(bool(a.empty()) == m.empty(), "state.empty", "empty()");
      }
      c.nontrivial = eff >= 1 && ops >= 1;
      c.note(m.size());
   }
};

int main(int argc, char** argv) {
   return run(argc, argv, [](Case& c) {
      dispatch<6>(c, []<int K>(Case& c) {
         if constexpr(K == 0) H<int, Unaligned>::history(c);
         if constexpr(K == 1) H<double, Aligned>::history(c);
         if constexpr(K == 2) H<long, Unaligned>::history(c);
         if constexpr(K == 3) H<float, Aligned>::history(c);
         if constexpr(K == 4) H<unsigned, Unaligned>::history(c);
         if constexpr(K == 5) H<double, Unaligned>::history(c);
      });
   });
}
