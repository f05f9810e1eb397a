// P28: storage is contiguous, row-major and aligned, after any history.
#include "operands.hpp"
#include <cstring>
#include <memory>
using namespace h;
using namespace spp;

template <class A> constexpr bool two = A::dimension().val() == 2;
template <class A> constexpr bool dyn = bool(A::is_dynamic());
template <class A> constexpr bool aligned_of = false;
template <class T> constexpr bool aligned_of<Array1D<T, Aligned>> = true;
template <class T> constexpr bool aligned_of<Array2D<T, Aligned>> = true;
template <class T, auto N> constexpr bool aligned_of<FixedArray1D<T, N, Aligned>> = true;
template <class T, auto M, auto N> constexpr bool aligned_of<FixedArray2D<T, M, N, Aligned>> = true;

template <class A> struct V {
   i64 r = 0, c = two<A> ? 0 : 1;
   std::vector<bt<A>> d;
};

template <class A> struct H {
   using T = bt<A>;
   static inline std::vector<std::unique_ptr<char[]>> junk;

   // What the storage of a must look like when it holds m.
   static void look(A& a, const V<A>& m, const std::string& what) {
      const A& ca = a;
      i64 n = i64(m.d.size());
      CHECK(sz(a) == n, "size", what, ": size ", sz(a), " expected ", n);
      auto* p = a.data();
      auto* cp = ca.data();
      auto* q = a.blas_data();
      auto* cq = ca.blas_data();
      static_assert(sizeof(*p) == sizeof(T));
      static_assert(bool(A::is_fixed()) != bool(A::is_dynamic()) && A::alignment() == (aligned_of<A> ? 64 : 0));
      double by = double(n) * double(sizeof(T));
      CHECK(ca.bytes().val() == n * i64(sizeof(T)) && ca.kbytes().val() == by / 1024 && ca.mbytes().val() == by / 1048576 &&
               ca.gbytes().val() == by / 1073741824,
            "bytes", what, ": ", n, " elements of ", sizeof(T), " bytes report ", ca.bytes().val(), " bytes, ", ca.kbytes().val(), " K, ", ca.mbytes().val(),
            " M, ", ca.gbytes().val(), " G");
      CHECK((const void*)p == (const void*)cp && (const void*)q == (const void*)p && (const void*)cq == (const void*)p, "pointer", what,
            ": data(), data() const, blas_data() and blas_data() const differ");
      if constexpr(aligned_of<A>) {
         if(p) ev("aligned");
         CHECK(reinterpret_cast<std::uintptr_t>(p) % 64 == 0, "alignment", what, ": storage of ", n, " elements at ", (const void*)p);
      }
      if(n == 0) {
         CHECK(p == nullptr, "empty", what, ": an empty array has a data pointer");
         CHECK(bool(a.empty()) && !blas_array(a), "empty", what, ": empty array");
         ev("empty");
         return;
      }
      CHECK(p != nullptr, "pointer", what, ": no data pointer");
      // the memory itself
      for(i64 i = 0; i < n; ++i) {
         CHECK((const void*)&p[i] == (const void*)&a.un(long(i)) && (const void*)&cp[i] == (const void*)&ca.un(long(i)), "contiguous", what,
               ": element ", i, " is not at its place");
         T x;
         std::memcpy(&x, reinterpret_cast<const char*>(p) + size_t(i) * sizeof(T), sizeof(T));
         CHECK(same_bits<T>(x, T(m.d[size_t(i)])), "contents", what, ": memory of element ", i, " holds ", show<T>(x), " expected ", show<T>(T(m.d[size_t(i)])));
         CHECK(same_bits<T>(q[i], x) && same_bits<T>(p[i].val(), x), "contents", what, ": element ", i, " through the pointers");
      }
      if constexpr(two<A>) {
         CHECK(a.rows().val() == m.r && a.cols().val() == m.c, "shape", what, ": shape");
         for(i64 i = 0; i < m.r; ++i)
            for(i64 j = 0; j < m.c; ++j) {
               CHECK((const void*)&a.un(long(i), long(j)) == (const void*)(p + i * m.c + j), "row-major", what, ": element (", i, ",", j, ") of ", m.r, "x", m.c);
            }
         CHECK((const void*)&a.row(0).un(0) == (const void*)p && (const void*)&a.view1D().un(long(n - 1)) == (const void*)(p + (n - 1)), "row-major", what,
               ": row and view");
      }
      i64 k = 0;
      for(auto it = a.begin(); it != a.end(); ++it, ++k) {
         CHECK((const void*)&*it == (const void*)(p + k), "iterator", what, ": iterator at ", k);
      }
      CHECK((const void*)std::to_address(a.begin()) == (const void*)p, "iterator", what, ": to_address(begin())");
   }
   // writes through each of the pointers are seen by the array and the reverse
   static void poke(Rng& r, A& a, V<A>& m) {
      if(m.d.empty()) return;
      i64 k = r.in(0, i64(m.d.size()) - 1);
      T x = rnd<T>(r, 100, 120);
      switch(r.below(4)) {
      case 0: a.blas_data()[k] = x; break;
      case 1: a.data()[k] = Strict<T>{x}; break;
      case 2: a.un(long(k)) = Strict<T>{x}; break;
      case 3: std::memcpy(reinterpret_cast<char*>(a.data()) + size_t(k) * sizeof(T), &x, sizeof(T)); break;
      }
      m.d[size_t(k)] = x;
      ev("written");
   }
   static void exported(Rng& r, A& a, const V<A>& m) {
      auto e = blas_array(a);
      if(m.d.empty()) {
         CHECK(e == nullptr, "export.empty", "export of an empty array");
         return;
      }
      i64 n = i64(m.d.size());
      CHECK((const void*)e.get() != (const void*)a.data(), "export.alias", "the exported copy is the array");
      for(i64 i = 0; i < n; ++i) CHECK(same_bits<T>(e[size_t(i)], T(m.d[size_t(i)])), "export", "element ", i, " of the exported copy");
      i64 k = r.in(0, n - 1);
      e[size_t(k)] = T(e[size_t(k)] + T(1));
      look(a, m, "after writing the exported copy");
      ev("exported");
   }
   static V<A> shape(Rng& r) {
      V<A> v;
      if constexpr(dyn<A>) {
         if constexpr(two<A>) {
            if(r.chance(10)) v.r = v.c = 0;
            else v.r = r.in(1, 9), v.c = r.in(1, 9);
            if(r.chance(5)) v.r = r.in(20, 60), v.c = r.in(20, 60);
         } else {
            v.r = rsize(r);
         }
      } else if constexpr(two<A>) {
         v.r = A::rows().val(), v.c = A::cols().val();
      } else {
         v.r = A::size().val();
      }
      v.d = rvec<T>(r, v.r * v.c);
      return v;
   }
   static std::unique_ptr<A> make(Rng& r, const V<A>& v) {
      // the heap must not hand out aligned blocks by accident
      for(int i = int(r.below(3)); i > 0; --i) junk.push_back(std::make_unique<char[]>(size_t(r.in(1, 100))));
      if(junk.size() > 40) junk.erase(junk.begin(), junk.begin() + 20);
      std::unique_ptr<A> a;
      if constexpr(!dyn<A>) {
         a = std::make_unique<A>();
      } else if constexpr(two<A>) {
         switch(r.below(4)) {
         case 0: a = std::make_unique<A>(Rows{long(v.r)}, Cols{long(v.c)}); break;
         case 1: a = std::make_unique<A>(long(v.r), long(v.c), Strict<T>{T(1)}); break;
         default: a = std::make_unique<A>(long(v.r), long(v.c));
         }
      } else {
         switch(r.below(4)) {
         case 0: a = std::make_unique<A>(Size{long(v.r)}); break;
         case 1: a = std::make_unique<A>(long(v.r), Strict<T>{T(1)}); break;
         default: a = std::make_unique<A>(long(v.r));
         }
      }
      fill1(*a, v.d);
      return a;
   }
   static void history(Case& c) {
      Rng& r = c.r;
      std::vector<std::unique_ptr<A>> p;
      std::vector<V<A>> m;
      for(int i = 0; i < 3; ++i) {
         m.push_back(shape(r));
         p.push_back(make(r, m.back()));
         look(*p.back(), m.back(), "new array");
      }
      for(i64 o = r.in(2, 12); o > 0; --o) {
         size_t i = r.below(3), j = r.below(3);
         int op = int(r.below(14));
         bool fit = m[i].r == m[j].r && m[i].c == m[j].c;
         c.note(u64(op) * 64 + i * 8 + j);
         c.note(m[i].d.size());
         logs("op", op, " ", i, ",", j);
         switch(op) {
         case 0:
            p[i] = std::make_unique<A>(*p[j]);
            m[i] = V<A>(m[j]);
            ev("copied");
            break;
         case 1: {
            if(i == j) break;
            const void* was = p[j]->data();
            p[i] = std::make_unique<A>(std::move(*p[j]));
            m[i] = m[j];
            if constexpr(dyn<A>) {
               CHECK(p[i]->data() == was, "move", "moving did not take the storage");
               m[j] = V<A>();
            } else {
               for(auto&& x : m[j].d) x = T{};
            }
            ev("moved");
            break;
         }
         case 2:
            if(fit) *p[i] = *p[j], m[i] = V<A>(m[j]);
            break;
         case 3:
            if(fit && i != j) {
               *p[i] = std::move(*p[j]);
               m[i] = m[j];
               if constexpr(dyn<A>) m[j] = V<A>();
               else for(auto&& x : m[j].d) x = T{};
            }
            break;
         case 4:
            if constexpr(dyn<A>) p[i]->swap(*p[j]);
            else if(i != j) std::swap(*p[i], *p[j]);
            std::swap(m[i], m[j]);
            ev("swapped");
            break;
         case 5: case 6: case 7: case 8: case 9:
            if constexpr(dyn<A>) edit(r, *p[i], m[i], op);
            break;
         case 10: exported(r, *p[i], m[i]); break;
         case 11: {
            m[i] = shape(r);
            p[i] = make(r, m[i]);
            break;
         }
         case 12:   // from an expression
            if(!m[j].d.empty()) {
               p[i] = std::make_unique<A>(*p[j] + *p[j]);
               m[i] = V<A>(m[j]);
               for(auto&& x : m[i].d) x = T(x + x);
               ev("expression");
            }
            break;
         case 13:   // in a container that moves its elements around
            {
               std::vector<A> w;
               std::vector<V<A>> wm;
               for(i64 k = r.in(1, 5); k > 0; --k) {
                  auto v = shape(r);
                  w.push_back(*make(r, v));
                  wm.push_back(v);
               }
               for(size_t k = 0; k < w.size(); ++k) look(w[k], wm[k], str("array ", k, " of a vector"));
               ev("container");
            }
            break;
         }
         for(size_t k = 0; k < 3; ++k) look(*p[k], m[k], str("array ", k, " after op", op, "(", i, ",", j, ")"));
         size_t k = r.below(3);
         poke(r, *p[k], m[k]);
         look(*p[k], m[k], "after a write");
      }
      // on the stack, at any offset the frame gives it
      {
         struct {
            char pad;
            A a;
            char pad2;
            A b;
         } s{};
         CHECK((const void*)s.b.data() == nullptr || (const void*)s.b.data() != (const void*)s.a.data(), "pointer", "two members share storage");
         if constexpr(!dyn<A>) {
            auto v = shape(r);
            fill1(s.b, v.d);
            look(s.b, v, "member");
            A t = s.b;
            look(t, v, "local");
            ev("member");
         }
      }
      c.nontrivial = true;
   }
   static void edit(Rng& r, A& a, V<A>& m, int op) {
      auto& d = m.d;
      if constexpr(!two<A>) {
         i64 n = m.r;
         if(op == 5) {
            i64 k = rsize(r);
            bool keep = k <= n || r.chance(20);
            a.resize(long(k), false);
            if(k != n) {
               d = rvec<T>(r, k);
               fill1(a, d);
            }
            m.r = k;
            (void)keep;
            ev("resized");
         } else if(op == 6) {
            i64 k = n ? r.in(0, n) : 0;
            if(n == 0) return;
            a.resize(long(k));
            d.resize(size_t(k));
            m.r = k;
            ev("resized");
         } else if(op == 7) {
            i64 at = r.in(0, n);
            auto x = rvec<T>(r, rsize(r, 20));
            a.insert(long(at), mk1<Array1D<T>>(x));
            d.insert(d.begin() + at, x.begin(), x.end());
            m.r = i64(d.size());
            ev("inserted");
         } else if(op == 8) {
            if(!n) return;
            i64 at = r.in(0, n - 1), k = r.in(1, n - at);
            a.remove(long(at), long(k));
            d.erase(d.begin() + at, d.begin() + at + k);
            m.r = n - k;
            ev("removed");
         } else {
            auto x = rvec<T>(r, rsize(r));
            hold1<2, T>(r, x, [&](auto& s) { a.resize_and_assign(s); });
            d = x;
            m.r = i64(x.size());
            ev("replaced");
         }
      } else {
         i64 n = m.r, k = m.c;
         auto row = [&](i64 i) { return d.begin() + i * k; };
         if(op == 5) {
            i64 nr = r.in(1, 12), nc = r.in(1, 12);
            if(r.chance(10)) nr = nc = 0;
            a.resize(long(nr), long(nc), false);
            if(nr != n || nc != k) {
               d = rvec<T>(r, nr * nc);
               fill1(a, d);
            }
            m.r = nr, m.c = nc;
            ev("resized");
         } else if(op == 6) {
            if(d.empty()) return;
            i64 nr = r.in(1, n), nc = r.in(1, k);
            a.resize(long(nr), long(nc));
            std::vector<T> e;
            for(i64 i = 0; i < nr; ++i) e.insert(e.end(), row(i), row(i) + nc);
            d = e;
            m.r = nr, m.c = nc;
            ev("resized");
         } else if(op == 7) {
            if(d.empty()) return;
            i64 at = r.in(0, n), q = r.in(1, 3);
            auto x = rmat<T>(r, q, k);
            a.insert_rows(long(at), mk2<Array2D<T>>(x));
            d.insert(row(at), x.d.begin(), x.d.end());
            m.r += q;
            ev("inserted");
         } else if(op == 8) {
            if(d.empty()) return;
            if(r.chance(50)) {
               i64 at = r.in(0, n - 1);
               a.remove_row(long(at));
               d.erase(row(at), row(at + 1));
               if(n == 1) m.r = m.c = 0;
               else --m.r;
            } else {
               i64 at = r.in(0, k - 1);
               a.remove_col(long(at));
               for(i64 i = n - 1; i >= 0; --i) d.erase(d.begin() + i * k + at);
               if(k == 1) m.r = m.c = 0;
               else --m.c;
            }
            ev("removed");
         } else {
            auto x = rmat<T>(r, r.in(1, 8), r.in(1, 8));
            hold2<2, T>(r, x, [&](auto& s) { a.resize_and_assign(s); });
            d = x.d;
            m.r = x.r, m.c = x.c;
            ev("replaced");
         }
      }
   }
};

// Exported copies of everything that is not an array: slices, views, expressions, attached memory.
template <class T> void exports(Case& c) {
   Rng& r = c.r;
   if(r.chance(50)) {
      auto v = rvec<T>(r, rsize(r));
      c.note(v.size());
      any1<T>(r, v, all1{}, [&](auto& a) {
         auto e = blas_array(a);
         CHECK((e == nullptr) == v.empty(), "export", "null for a non-empty array or the reverse");
         for(size_t i = 0; i < v.size(); ++i) CHECK(same_bits<T>(e[i], T(v[i])), "export", "element ", i);
         if(v.size()) {
            for(size_t i = 0; i < v.size(); ++i) e[i] = T(5);
            CHECK(eq(vec(a), v), "export.alias", "writing the exported copy changed the array");
         }
      });
   } else {
      auto v = rmat<T>(r, r.in(1, 9), r.in(1, 9));
      if(r.chance(8)) v = Mat<T>(0, 0);
      if(r.chance(20)) v = rmat<T>(r, 3, 4);
      c.note(u64(v.r * 64 + v.c));
      any2<T>(r, v, all2{}, [&](auto& a) {
         auto e = blas_array(a);
         CHECK((e == nullptr) == v.d.empty(), "export", "null for a non-empty array or the reverse");
         for(size_t i = 0; i < v.d.size(); ++i) CHECK(same_bits<T>(e[i], T(v.d[i])), "export", "element ", i);
         if(v.d.size()) {
            for(size_t i = 0; i < v.d.size(); ++i) e[i] = T(5);
            CHECK(eq(mat(a), v), "export.alias", "writing the exported copy changed the array");
         }
      });
   }
   ev("exported any");
   c.nontrivial = true;
}

int main(int argc, char** argv) {
   return run(argc, argv, [](Case& c) {
      H<Array1D<double>>::junk.reserve(64);
      dispatch<18>(c, []<int K>(Case& c) {
         auto go = [&]<class A>() {
            H<A>::history(c);
            H<A>::junk.clear();
            H<A>::junk.shrink_to_fit();
         };
         if constexpr(K == 0) go.template operator()<Array1D<double>>();
         if constexpr(K == 1) go.template operator()<Array1D<double, Aligned>>();
         if constexpr(K == 2) go.template operator()<Array2D<int>>();
         if constexpr(K == 3) go.template operator()<Array2D<double, Aligned>>();
         if constexpr(K == 4) go.template operator()<FixedArray1D<int, 5>>();
         if constexpr(K == 5) go.template operator()<FixedArray1D<double, 9, Aligned>>();
         if constexpr(K == 6) go.template operator()<FixedArray2D<long, 3, 4>>();
         if constexpr(K == 7) go.template operator()<FixedArray2D<float, 5, 2, Aligned>>();
         if constexpr(K == 8) go.template operator()<Array1D<int, Aligned>>();
         if constexpr(K == 9) go.template operator()<Array1D<long double, Aligned>>();
         if constexpr(K == 10) go.template operator()<Array2D<unsigned, Aligned>>();
         if constexpr(K == 11) go.template operator()<Array2D<long double>>();
         if constexpr(K == 12) go.template operator()<FixedArray1D<float, 1, Aligned>>();
         if constexpr(K == 13) go.template operator()<FixedArray2D<int, 1, 1, Aligned>>();
         if constexpr(K == 14) exports<double>(c);
         if constexpr(K == 15) exports<int>(c);
         if constexpr(K == 16) go.template operator()<FixedArray1D<double, 0, Aligned>>();
         if constexpr(K == 17) go.template operator()<FixedArray2D<float, 0, 0>>();
      });
   });
}
