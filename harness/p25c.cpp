// P25: the same computation during compilation and at run time gives the same values.
#include "common.hpp"
#include <array>
#include <bit>
using namespace h;
using namespace spp;

struct R {
   u64 s;
   constexpr u64 next() {
      s += 0x9e3779b97f4a7c15ULL;
      u64 z = s;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
      return z ^ (z >> 31);
   }
   constexpr long in(long a, long b) { return a + long(next() % u64(b - a + 1)); }
};
struct Out {
   std::array<u64, 420> v{};
   int n = 0;
   template <class T> constexpr void put(Strict<T> x) {
      u64 b = 0;
      if constexpr(sizeof(T) == 8) b = std::bit_cast<u64>(x.val());
      else if constexpr(std::is_same_v<T, float>) b = std::bit_cast<unsigned>(x.val());
      else b = u64(long(x.val()));
      if(n < 420) v[std::size_t(n)] = b;
      ++n;
   }
   constexpr void put(bool x) { put(Strict<bool>{x}); }
   template <class P> constexpr void pair(const P& p) { put(p.first), put(p.second); }
   template <class A> constexpr void all(const A& a) {
      put(a.size());
      u64 hsh = 1469598103934665603ULL;
      for(index_t i = 0_sl; i < a.size(); ++i) {
         Out o;
         o.tiny(a.un(i));
         hsh = (hsh ^ o.v[0]) * 1099511628211ULL;
      }
      put(Strict<unsigned long>{hsh});
   }
   template <class T> constexpr void tiny(Strict<T> x) { put(x); }
};
template <class T> constexpr Strict<T> val(R& r) {
   if constexpr(std::is_floating_point_v<T>) {
      T q = T(r.in(-4000, 4000));
      return Strict<T>{q / T(r.in(1, 97))};
   }
   else if constexpr(std::is_same_v<T, bool>) return Strict<T>{r.in(0, 1) == 1};
   else return Strict<T>{T(r.in(std::is_unsigned_v<T> ? 1 : -9, 9))};
}
template <class T, class A> constexpr void fill(R& r, A& a) {
   for(index_t i = 0_sl; i < a.size(); ++i) a.un(i) = val<T>(r);
}
template <class T> constexpr Strict<T> nz(R& r) {
   auto x = val<T>(r);
   return x == Strict<T>{T(0)} ? Strict<T>{T(1)} : x;
}

template <class T, int G> constexpr Out work(u64 seed) {
   R r{seed * 77 + G};
   Out o;
   constexpr bool B = std::is_same_v<T, bool>;
   if constexpr(G == 0) {   // edit history
      Array1D<T> a(r.in(1, 5));
      fill<T>(r, a);
      Array1D<T> b(r.in(1, 4));
      fill<T>(r, b);
      a.insert(r.in(0, long(a.size().val())), b), o.all(a);
      auto one = val<T>(r);
      a.insert(r.in(0, long(a.size().val())), one), o.all(a);
      a.insert_back(a), o.all(a);
      a.remove(r.in(0, long(a.size().val()) - 1)), o.all(a);
      a.remove(1L, r.in(1, long(a.size().val()) - 2)), o.all(a);
      a.resize(r.in(1, 8)), o.all(a);
      a.insert_front(b(place::reverse)), o.all(a);
      a.remove(last), o.all(a);
      Array1D<T> c(a), d(std::move(b));
      c.swap(d), o.all(c), o.all(d);
      a.resize_and_assign(d(place::even)), o.all(a);
      a = val<T>(r), o.all(a);
      FixedArray1D<T, 5> f;
      fill<T>(r, f);
      FixedArray1D<T, 5> f2 = f;
      f(place::odd) = val<T>(r);
      o.all(f), o.all(f2), o.put(bool(f == f2)), o.put(bool(f2 != f2));
   }
   if constexpr(G == 1) {   // matrices
      long n = r.in(1, 4), k = r.in(1, 4);
      Array2D<T> m(1L * n, 1L * k);
      fill<T>(r, m);
      long p = r.in(1, 2);
      Array2D<T> q(1L * p, 1L * k);
      fill<T>(r, q);
      m.insert_rows(r.in(0, n), q), o.all(m);
      m.insert_col(r.in(0, k), m.col(0)), o.all(m);
      m.remove_row(r.in(0, long(m.rows().val()) - 1)), o.all(m);
      n = r.in(1, 5), k = r.in(1, 5);
      m.resize(1L * n, 1L * k), o.all(m);
      o.all(transpose(m)), o.all(m.row(last)), o.all(m.col(0)), o.all(m.diag(0)), o.all(m.view1D());
      o.all(m(place::reverse, place::even)), o.all(m.rows({0})), o.all(m.block(0, 0, 0, long(m.cols().val()) - 1));
      m.row(0) = val<T>(r), o.all(m);
      m(place::all, place::reverse) = m.eval(), o.all(m);
      if constexpr(!B) {
         o.all(m + m), o.all(m * m);
         o.put(sum(m));
         if(m.size() < 9_sl) o.put(prod(m));
         o.all(row_reduce(m, [](auto x) { return max(x); }));
         o.all(col_reduce(m, [](auto x) { return min(x); }));
      }
      FixedArray2D<T, 2, 3> f;
      fill<T>(r, f);
      o.all(f), o.all(transpose(f)), o.all(f.row(1)), o.all(merge_horizontal(f, f)), o.all(merge_vertical(f, f(place::reverse, place::all)));
   }
   if constexpr(G == 2) {   // reductions, predicates, order
      Array1D<T> a(r.in(1, 7));
      fill<T>(r, a);
      auto x = val<T>(r);
      if constexpr(!B) {
         o.put(sum(a)), o.put(prod(a)), o.put(min(a)), o.put(max(a)), o.pair(min_index(a)), o.pair(max_index(a)), o.put(dot_prod(a, a));
         if constexpr(std::is_floating_point_v<T>) o.put(norm_inf(a)), o.put(norm1(a)), o.put(mean(a));
         o.put(bool(all_pos(a))), o.put(bool(all_non_neg(a)));
         o.put(polynomial(a, Strict<T>{T(1)}));
         auto s = a;
         sort_increasing(s), o.all(s), sort_decreasing(s), o.all(s);
         auto t = a;
         sort_increasing(t(place::even)), o.all(t);
         o.all(in_closed_range(a, Low{x}, High{x + Strict<T>{T(20)}}));
      }
      if constexpr(!B) o.put(bool(has_zero(a))), o.put(bool(all_zeros(a)));
      o.put(bool(any_of(a, x))), o.put(bool(none_of(a, x))), o.put(bool(all_of(a, a[0])));
      for_each(a, [&](auto& z) { z = x; });
      o.all(a);
      if constexpr(std::is_floating_point_v<T>) {
         fill<T>(r, a);
         o.put(bool(within_tol_abs(a, a, Value{Strict<T>{T(1)}}.get())));
      }
   }
   if constexpr(G == 3) {   // expressions
      long n = r.in(1, 6);
      Array1D<T> a(1L * n), b(1L * n);
      fill<T>(r, a), fill<T>(r, b);
      auto x = val<T>(r);
      if constexpr(B) {
         o.all(!a), o.all(a && b), o.all(a || x), o.all(x ^ b);
      } else {
         o.all(+a), o.all(a + b), o.all(a - x), o.all(x * b), o.all(a * b - a), o.all(a / nz<T>(r));
         if constexpr(!std::is_unsigned_v<T>) o.all(-a);
         o.all(abs(a)), o.all(array_cast<double>(a)), o.all(array_cast<bool>(a));
         if constexpr(std::is_integral_v<T>) o.all(~a), o.all(a % nz<T>(r)), o.all(a & b), o.all(a | x), o.all(x ^ b), o.all(abs(a) >> Strict<T>{T(2)});
         else o.all(inv(b + Strict<T>{T(5000)})), o.all(fast_pow_int(a, 3)), o.all(linspace<T>(r.in(2, 6), x, x + Strict<T>{T(3)}));
         a += b, o.all(a), a *= a, o.all(a), a -= x, o.all(a);
         o.all(sequence<T>(r.in(1, 5), x, x)), o.all(e_unit<T>(0, n)), o.all(identity<T>(n));
      }
      o.all(merge(a, b, a)), o.all(merge(a, x)), o.all(exclude(a, r.in(0, n - 1))), o.all(const1D<T>(n, x)), o.all(const2D<T>(2, n, x));
      o.all(a(place::reverse)(place::even)), o.all(a(seqN{0, n})), o.all(a({0})), o.all(a(seq{r.in(0, n - 1), n - 1}));
      o.all((a == b ? a : b));
      o.put(bool(equal(a, b)));
   }
   if constexpr(G == 4) {   // scalars
      for(int k = 0; k < 6; ++k) {
         auto x = val<T>(r), y = val<T>(r);
         o.put(bool(x == y));
         if constexpr(!B) {
            o.put(bool(x < y)), o.put(x + y), o.put(x - y), o.put(x * y), o.put(x / nz<T>(r)), o.put(abss(x)), o.put(mins(x, y)), o.put(maxs(x, y)), o.put(signs(x));
            o.put(squares(x)), o.put(cubes(x)), o.put(strict_cast<double>(x)), o.put(strict_cast<int>(x)), o.put(strict_cast<bool>(x));
            auto z = x;
            z += y, o.put(z), z *= y, o.put(z);
            if constexpr(std::is_integral_v<T>) o.put(x % nz<T>(r)), o.put(~x), o.put(x & y), ++z, o.put(z), o.put(z--), o.put(factorial(k));
            else {
               o.put(fast_pows_int(x, 3)), o.put(invs(nz<T>(r)));
            }
         } else o.put(!x), o.put(x && y), o.put(x || y), o.put(x ^ y);
      }
   }
   return o;
}

// Everything evaluated by the compiler.
#ifndef SEEDS
#define SEEDS 8
#endif
template <class T, int G, std::size_t... I> constexpr auto during(std::index_sequence<I...>) { return std::array<Out, sizeof...(I)>{work<T, G>(I + 1)...}; }
template <class T, int G> struct At {
   static constexpr auto table = during<T, G>(std::make_index_sequence<SEEDS>{});
};

template <class T, int G> void compare(Case& c, const char* t) {
   static const char* group[] = {"edits", "matrices", "reductions", "expressions", "scalars"};
   volatile u64 seed = c.id / 30 % SEEDS + 1;
   u64 s = seed;
   Out a = work<T, G>(s);
   const Out& b = At<T, G>::table[s - 1];
   CHECK(a.n == b.n && a.n <= 420, str("constexpr ", group[G]), t, " seed ", s, ": ", a.n, " values at run time, ", b.n, " during compilation");
   for(int i = 0; i < a.n && i < 420; ++i)
      if(a.v[std::size_t(i)] != b.v[std::size_t(i)]) {
         fail(str("constexpr ", group[G]), str(t, " seed ", s, ": value ", i, " is ", std::hex, a.v[std::size_t(i)], " at run time but ", b.v[std::size_t(i)],
              " during compilation"));
         break;
      }
   g.checks += a.n;
   c.note(s * 100 + G * 10 + sizeof(T));
   c.nontrivial = true;
   ev(str("constexpr ", group[G]));
   for(int i = 0; i < a.n && i < 420; ++i) c.note(a.v[std::size_t(i)]);
}

int main(int argc, char** argv) {
   return h::run(argc, argv, [](Case& c) {
      dispatch<30>(c, []<int K>(Case& c) {
         using T = std::tuple_element_t<K / 5, std::tuple<double, int, float, long, unsigned, bool>>;
         static const char* t[] = {"double", "int", "float", "long", "unsigned", "bool"};
         compare<T, K % 5>(c, t[K / 5]);
      });
   });
}
