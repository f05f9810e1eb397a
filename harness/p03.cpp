// P03: a failed operation changes nothing and leaks nothing. Every operation is first made without a fault on a copy (what it
// must come to), then with the k-th allocation failing, for every k, and with the k-th evaluation of its source failing, for
// every k; after each failure target and operands are compared with what they were and the allocations with what was there,
// and the last, undisturbed repetition with the result on the copy. All allocation functions are replaced: a release must
// match the acquisition in form and alignment.
#include "operands.hpp"
#include <new>
#include <optional>
using namespace h;
using namespace spp;

namespace fault {
struct Block {
   void* p = nullptr;
   std::size_t size = 0, align = 0;
   bool array = false;
};
constexpr std::size_t N = 1 << 16;
Block table[N];
long live = 0;
long live_bytes = 0;
long seen = 0;      // allocations since armed
long fail_at = 0;   // 0: none
bool armed = false;
const char* wrong = nullptr;

std::size_t slot(void* p) {
   auto k = (reinterpret_cast<std::uintptr_t>(p) >> 4) * 0x9E3779B97F4A7C15ULL >> 48;
   return k % N;
}
void* acquire(std::size_t n, std::size_t align, bool array) {
   if(armed && ++seen == fail_at) return nullptr;
   void* p = align ? std::aligned_alloc(align, (n + align - 1) / align * align + (n ? 0 : align)) : std::malloc(n ? n : 1);
   if(!p) return nullptr;
   if(live + 1 >= long(N) / 2) std::abort();
   auto i = slot(p);
   while(table[i].p) i = (i + 1) % N;
   table[i] = {p, n, align, array};
   ++live;
   live_bytes += long(n);
   return p;
}
void release(void* p, std::size_t align, bool array) {
   if(!p) return;
   auto i = slot(p);
   while(table[i].p && table[i].p != p) i = (i + 1) % N;
   if(!table[i].p) {
      wrong = "memory released that was not acquired";
      return;
   }
   if(table[i].align != align) wrong = "memory released with another alignment than it was acquired with";
   if(table[i].array != array) wrong = "memory released in another form than it was acquired in";
   --live;
   live_bytes -= long(table[i].size);
   // Close the gap.
   auto j = i;
   for(;;) {
      table[i].p = nullptr;
      for(;;) {
         j = (j + 1) % N;
         if(!table[j].p) {
            std::free(p);
            return;
         }
         auto k = slot(table[j].p);
         if(i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
         break;
      }
      table[i] = table[j];
      i = j;
   }
}
void* need(std::size_t n, std::size_t align, bool array) {
   void* p = acquire(n, align, array);
   if(!p) throw std::bad_alloc{};
   return p;
}
void arm(long k) {
   seen = 0;
   fail_at = k;
   armed = true;
}
void disarm() {
   armed = false;
}
} // namespace fault

void* operator new(std::size_t n) { return fault::need(n, 0, false); }
void* operator new[](std::size_t n) { return fault::need(n, 0, true); }
void* operator new(std::size_t n, std::align_val_t a) { return fault::need(n, std::size_t(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return fault::need(n, std::size_t(a), true); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return fault::acquire(n, 0, false); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return fault::acquire(n, 0, true); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return fault::acquire(n, std::size_t(a), false); }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return fault::acquire(n, std::size_t(a), true); }
void operator delete(void* p) noexcept { fault::release(p, 0, false); }
void operator delete[](void* p) noexcept { fault::release(p, 0, true); }
void operator delete(void* p, std::size_t) noexcept { fault::release(p, 0, false); }
void operator delete[](void* p, std::size_t) noexcept { fault::release(p, 0, true); }
void operator delete(void* p, std::align_val_t a) noexcept { fault::release(p, std::size_t(a), false); }
void operator delete[](void* p, std::align_val_t a) noexcept { fault::release(p, std::size_t(a), true); }
void operator delete(void* p, std::size_t, std::align_val_t a) noexcept { fault::release(p, std::size_t(a), false); }
void operator delete[](void* p, std::size_t, std::align_val_t a) noexcept { fault::release(p, std::size_t(a), true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { fault::release(p, 0, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { fault::release(p, 0, true); }
void operator delete(void* p, std::align_val_t a, const std::nothrow_t&) noexcept { fault::release(p, std::size_t(a), false); }
void operator delete[](void* p, std::align_val_t a, const std::nothrow_t&) noexcept { fault::release(p, std::size_t(a), true); }

// Evaluations of source elements.
long evals = 0, eval_fail = 0;
struct Boom {};
struct Tick {
   template <class T> T operator()(T x) const {
      if(++evals == eval_fail) throw Boom{};
      return x;
   }
};

enum class Out { done, rejected, memory, boom };
const char* name_of(Out o) {
   switch(o) {
   case Out::done: return "done";
   case Out::rejected: return "rejected";
   case Out::memory: return "out of memory";
   default: return "source failed";
   }
}

// Makes the call with the given fault.
template <class A, class F> Out call(A& a, F& op, long alloc_fault, long eval_fault) {
   Out o = Out::done;
   evals = 0;
   eval_fail = eval_fault;
   fault::arm(alloc_fault);
   try {
      op(a);
   } catch(const StrictException&) {
      o = Out::rejected;
   } catch(const std::bad_alloc&) {
      o = Out::memory;
   } catch(const Boom&) {
      o = Out::boom;
   }
   fault::disarm();
   eval_fail = 0;
   return o;
}

template <class A> std::string state(const A& a) {
   if constexpr(A::dimension().val() == 1) return show(vec(a));
   else return show(mat(a));
}

// op(x) for x a copy of a, then for a itself with all faults. operands() describes what must not change.
// May the source's failure leave the target partly assigned? (only for in-place assignment)
template <class A, class F, class G> void attempt(const char* name, A& a, F op, G operands, bool expect_ok) {
   logs(name, " on ", state(a), expect_ok ? "" : " (invalid)");
   const std::string before = state(a), given = operands();
   std::string after;
   long n_evals = 0;
   {
      A copy(a);
      Out o = call(copy, op, 0, 0);
      n_evals = evals;
      CHECK(o == (expect_ok ? Out::done : Out::rejected), "outcome", name, " without a fault: ", name_of(o));
      after = state(copy);
      if(!expect_ok) CHECK(after == before, "target-changed", name, " was rejected but left ", after, " instead of ", before);
      CHECK(operands() == given, "operands-changed", name, " changed its operands");
   }
   CHECK(state(a) == before, "aliased", name, " on a copy changed the original");
   auto same_as_before = [&](A& t, const char* what, long k) {
      CHECK(!fault::wrong, "release", name, ": ", fault::wrong);
      auto s = state(t);
      CHECK(s == before, "target-changed", name, ", ", what, " ", k, ": target is ", s, " instead of ", before);
      auto g2 = operands();
      CHECK(g2 == given, "operands-changed", name, ", ", what, " ", k, ": operands ", g2, " instead of ", given);
   };
   // The source fails.
   for(long k = 1; k <= n_evals; ++k) {
      long n = fault::live, m = fault::live_bytes;
      Out o = call(a, op, 0, k);
      CHECK(fault::live == n && fault::live_bytes == m, "leak", name, ", evaluation ", k, " failing: ", fault::live - n, " blocks and ", fault::live_bytes - m, " bytes more");
      CHECK(o == Out::boom || o == Out::rejected, "outcome", name, ", evaluation ", k, " failing: ", name_of(o));
      same_as_before(a, "evaluation failing", k);
      ev("evaluation failed");
   }
   // Memory fails.
   for(long k = 1;; ++k) {
      long n = fault::live, m = fault::live_bytes;
      Out o = call(a, op, k, 0);
      bool hit = fault::seen >= k;
      long dn = fault::live - n, dm = fault::live_bytes - m;
      if(!hit) {
         CHECK(o == (expect_ok ? Out::done : Out::rejected), "outcome", name, " repeated without a fault: ", name_of(o));
         CHECK(expect_ok || (dn == 0 && dm == 0), "leak", name, " rejected: ", dn, " blocks more");
         break;
      }
      if(o == Out::done) {   // managed without: then it must have done its work
         ev("managed without memory");
         CHECK(expect_ok, "outcome", name, " accepted when memory failed");
         break;
      }
      CHECK(dn == 0 && dm == 0, "leak", name, ", allocation ", k, " failing: ", dn, " blocks and ", dm, " bytes more");
      same_as_before(a, "allocation failing", k);
      ev("allocation failed");
      ev(std::string("memory ") + name);
      CHECK(k < 200, "endless", name, " never completes");
   }
   auto s = state(a);
   CHECK(s == after, "repeated", name, " after failures gives ", s, ", without them ", after);
   CHECK(operands() == given, "operands-changed", name, " changed its operands");
   CHECK(!fault::wrong, "release", name, ": ", fault::wrong);
   ev(std::string(expect_ok ? "done " : "rejected ") + name);
}

std::vector<ImplicitInt> list_of(const Idx& v) {
   std::vector<ImplicitInt> o;
   for(auto i : v) o.push_back(long(i));
   return o;
}
Idx rising(Rng& r, i64 n, bool ok) {
   Idx v;
   for(i64 i = 0; i < n; ++i)
      if(r.chance(40)) v.push_back(i);
   if(!ok) {
      if(v.empty() || r.chance(50)) v.push_back(n);
      else v.push_back(v.back());
   }
   return v;
}
Idx any_list(Rng& r, i64 n, i64 len, bool ok) {
   Idx v;
   for(i64 i = 0; i < len; ++i) v.push_back(n ? r.in(0, n - 1) : 0);
   if(!ok && len) v[r.below(u64(len))] = n;
   return v;
}

template <class T, AlignmentFlag AF> void one(Case& c) {
   Rng& r = c.r;
   using A = Array1D<T, AF>;
   constexpr AlignmentFlag OF = AF == Aligned ? Unaligned : Aligned;
   bool big = r.chance(4);
   i64 n0 = r.in(0, big ? 40 : 6);
   A a = mk1<A>(rvec<T>(r, n0));
   int steps = int(r.in(1, 4));
   for(int step = 0; step < steps; ++step) {
      i64 n = sz(a);
      bool ok = r.chance(80);
      int k = int(r.below(30));
      c.note(u64(k) * 64 + u64(n) * 2 + ok);
      auto x = S<T>(rnd<T>(r));
      i64 m = r.in(0, big ? 20 : 5);
      auto w = rvec<T>(r, m);
      auto b = mk1<Array1D<T, OF>>(w);
      auto bi = mk1<Array1D<int>>(rvec<int>(r, m, 1, 9));
      auto di = mk1<Array1D<int>>(rvec<int>(r, m, 1, 9));
      i64 bad = m && !ok ? r.in(0, m - 1) : -1;
      if(bad >= 0) di[long(bad)] = Strict{0};
      i64 pos = r.in(0, n);
      if(!ok) pos = r.chance(50) ? -1 : n + 1;
      auto nothing = [] { return std::string{}; };
      auto ops = [&] { return show(vec(b)) + show(vec(bi)) + show(vec(di)); };
      auto ticked = [&](const auto& e) { return spp::generate(e, Tick{}); };
      // A source of the element type whose elements report an error at a place.
      auto quotient = [&] {
         return spp::generate(bi / di, [](auto q) {
            if constexpr(std::is_same_v<T, bool>) return q > Strict{1};
            else return Strict<T>(T(q.val()));
         });
      };
      bool q_ok = bad < 0;
      switch(k) {
      case 0: case 1: {
         i64 len = ok ? r.in(0, 9) : -r.in(1, 3);
         bool keep = k == 0;
         if(ok && !keep && len != n) {   // contents of the dropped ones are not specified
            attempt("resize(drop)", a, [&](A& t) { t.resize(long(len), false); t = x; }, nothing, ok);
         } else attempt("resize", a, [&](A& t) { t.resize(long(len), keep); }, nothing, ok);
         break;
      }
      case 2: attempt("insert(x)", a, [&](A& t) { t.insert(long(pos), x); }, nothing, ok); break;
      case 3: attempt("insert(array)", a, [&](A& t) { t.insert(long(pos), b); }, ops, ok); break;
      case 4: attempt("insert(expr)", a, [&](A& t) { t.insert(long(pos), ticked(b)); }, ops, ok); break;
      case 5: attempt("insert(self)", a, [&](A& t) { t.insert(long(pos), ticked(t)); }, nothing, ok); break;
      case 6: attempt("insert(list slice)", a, [&](A& t) { t.insert(long(pos), b(list_of(Idx(size_t(m ? 3 : 0), 0)))); }, ops, ok); break;
      case 7: attempt("insert(quotient)", a, [&](A& t) { t.insert(long(std::min<i64>(std::max<i64>(pos, 0), n)), quotient()); }, ops, q_ok); break;
      case 8: attempt("insert_front", a, [&](A& t) { t.insert_front(ticked(b)); }, ops, true); break;
      case 9:
         if(r.chance(50)) attempt("insert_back(x)", a, [&](A& t) { t.insert_back(x); }, nothing, true);
         else attempt("insert_back", a, [&](A& t) { t.insert_back(ticked(b)); }, ops, true);
         break;
      case 10: case 11: {
         i64 p = n ? r.in(0, n - 1) : 0;
         i64 cnt = n ? r.in(1, n - p) : 1;
         bool good = ok && n;
         if(!good && n) cnt = n - p + 1;
         attempt("remove", a, [&](A& t) { t.remove(long(p), long(cnt)); }, nothing, good);
         break;
      }
      case 12: case 13: {
         auto l = rising(r, n, ok);
         attempt("remove(list)", a, [&](A& t) { t.remove(list_of(l)); }, nothing, ok);
         break;
      }
      case 14: attempt("replace(array)", a, [&](A& t) { t.resize_and_assign(b); }, ops, true); break;
      case 15: attempt("replace(expr)", a, [&](A& t) { t.resize_and_assign(ticked(b)); }, ops, true); break;
      case 16: attempt("replace(quotient)", a, [&](A& t) { t.resize_and_assign(quotient()); }, ops, q_ok); break;
      case 17: {
         auto l = any_list(r, n, n ? r.in(0, 8) : 0, ok);
         bool good = ok || l.empty();
         attempt("replace(list slice of self)", a, [&](A& t) { t.resize_and_assign(t(list_of(l))); }, nothing, good);
         break;
      }
      case 18: attempt("replace(self twice)", a, [&](A& t) { t.resize_and_assign(merge(ticked(t), t(place::reverse))); }, nothing, true); break;
      case 19: attempt("replace(temporary)", a, [&](A& t) { t.resize_and_assign(A(ticked(b))); }, ops, true); break;
      case 20: {
         auto l = any_list(r, m, m ? n : 0, ok);
         bool good = (ok || l.empty()) && i64(l.size()) == n;
         attempt("= list slice", a, [&](A& t) { t = b(list_of(l)); }, ops, good);
         break;
      }
      case 21: {
         i64 len = r.in(0, n);
         auto l = any_list(r, n, len, ok);
         bool good = (ok || l.empty()) && len == m;
         // Repeated targets take the last value in both runs.
         attempt("list slice =", a, [&](A& t) { t(list_of(l)) = b; }, ops, good);
         break;
      }
      case 22: attempt("= array", a, [&](A& t) { t = b; }, ops, n == m); break;
      case 23: attempt("= complement slice", a, [&](A& t) { t(place::complement{list_of(Idx{0})}) = x; }, nothing, n > 0); break;
      // Constructions: the target only takes the result.
      case 24: attempt("construct(n)", a, [&](A& t) { A q(long(ok ? m : -1)); q = x; t.swap(q); }, nothing, ok); break;
      case 25: attempt("construct(n,x)", a, [&](A& t) { A q(Size{long(m)}, Value{x.val()}); t.swap(q); }, nothing, true); break;
      case 26: attempt("construct(expr)", a, [&](A& t) { A q(ticked(b)); t.swap(q); }, ops, true); break;
      case 27: attempt("construct(quotient)", a, [&](A& t) { A q(quotient()); t.swap(q); }, ops, q_ok); break;
      case 28: attempt("construct(list,iterators,eval)", a, [&](A& t) {
         A q{x, x, x};
         A p(b.begin(), b.end());
         auto e = ticked(b).eval();
         A z(merge(q, p, e));
         t.swap(z);
      }, ops, true); break;
      default: attempt("several", a, [&](A& t) {
         A q(t);
         q.insert_back(ticked(b));
         q.insert_front(q);
         q.remove(0);
         t.resize_and_assign(q);
      }, ops, n > 0 || m > 0);
      }
   }
   c.nontrivial = true;
}

template <class T, AlignmentFlag AF> void two(Case& c) {
   Rng& r = c.r;
   using A = Array2D<T, AF>;
   constexpr AlignmentFlag OF = AF == Aligned ? Unaligned : Aligned;
   bool big = r.chance(3);
   i64 p0 = r.in(0, big ? 9 : 4), q0 = p0 ? r.in(1, big ? 9 : 4) : 0;
   A a = mk2<A>(rmat<T>(r, p0, q0));
   int steps = int(r.in(1, 4));
   for(int step = 0; step < steps; ++step) {
      i64 nr = a.rows().val(), nc = a.cols().val();
      bool ok = r.chance(80);
      int k = int(r.below(32));
      c.note(u64(k) * 512 + u64(nr) * 32 + u64(nc) * 2 + ok);
      auto x = S<T>(rnd<T>(r));
      i64 cnt = r.in(1, 3);
      bool empty = nr == 0;
      bool rows = r.chance(50);
      i64 other = empty ? r.in(1, 3) : rows ? nc : nr;
      if(!ok && !empty) ++other;
      auto w = rows ? rmat<T>(r, cnt, other) : rmat<T>(r, other, cnt);
      auto b = mk2<Array2D<T, OF>>(w);
      auto line = mk1<Array1D<T, OF>>(rvec<T>(r, other));
      i64 m = b.rows().val(), l = b.cols().val();
      auto bi = mk2<Array2D<int>>(rmat<int>(r, m, l, 1, 9));
      auto di = mk2<Array2D<int>>(rmat<int>(r, m, l, 1, 9));
      bool zero = r.chance(30);
      i64 zi = r.in(0, m - 1), zj = r.in(0, l - 1);
      if(zero) di(long(zi), long(zj)) = Strict{0};
      bool q_ok = !zero;
      i64 lim = rows ? nr : nc;
      i64 pos = r.in(0, lim);
      bool fits = ok || empty;
      bool good = fits;
      if(fits && r.chance(10)) {
         pos = r.chance(50) ? -1 : lim + 1;
         good = false;
      }
      auto nothing = [] { return std::string{}; };
      auto ops = [&] { return show(mat(b)) + show(vec(line)) + show(mat(bi)) + show(mat(di)); };
      auto ticked = [&](const auto& e) { return spp::generate(e, Tick{}); };
      auto quotient = [&] {
         return spp::generate(bi / di, [](auto q) {
            if constexpr(std::is_same_v<T, bool>) return q > Strict{1};
            else return Strict<T>(T(q.val()));
         });
      };
      switch(k) {
      case 0: case 1: {
         i64 p = r.in(0, 5), q = p ? r.in(1, 5) : 0;
         if(!ok) {
            int how = int(r.below(3));
            if(how == 0) p = -1;
            if(how == 1) p = 0, q = 2;
            if(how == 2) p = 2, q = 0;
         }
         if(k == 1) attempt("2D.resize(drop)", a, [&](A& t) { t.resize(long(p), long(q), false); t = x; }, nothing, ok);
         else attempt("2D.resize", a, [&](A& t) { t.resize(long(p), long(q)); }, nothing, ok);
         break;
      }
      case 2: case 3: attempt(rows ? "insert_rows(array)" : "insert_cols(array)", a, [&](A& t) { if(rows) t.insert_rows(long(pos), b); else t.insert_cols(long(pos), b); }, ops, good); break;
      case 4: case 5: attempt(rows ? "insert_rows(expr)" : "insert_cols(expr)", a, [&](A& t) { if(rows) t.insert_rows(long(pos), ticked(b)); else t.insert_cols(long(pos), ticked(b)); }, ops, good); break;
      case 6: attempt(rows ? "insert_rows(quotient)" : "insert_cols(quotient)", a, [&](A& t) { if(rows) t.insert_rows(long(pos), quotient()); else t.insert_cols(long(pos), quotient()); }, ops, good && q_ok); break;
      case 7: {
         i64 p = std::min<i64>(std::max<i64>(pos, 0), lim);
         attempt(rows ? "insert_rows(self)" : "insert_cols(self)", a, [&](A& t) { if(rows) t.insert_rows(long(p), ticked(t)); else t.insert_cols(long(p), ticked(t)); }, nothing, true);
         break;
      }
      case 8: case 9: attempt(rows ? "insert_row" : "insert_col", a, [&](A& t) { if(rows) t.insert_row(long(pos), line); else t.insert_col(long(pos), line); }, ops, good); break;
      case 10: attempt(rows ? "insert_row(expr)" : "insert_col(expr)", a, [&](A& t) { if(rows) t.insert_row(long(pos), ticked(line)); else t.insert_col(long(pos), ticked(line)); }, ops, good); break;
      case 11: case 12: {
         if(empty) break;
         i64 n = rows ? nr : nc;
         i64 p = r.in(0, n - 1);
         i64 q = r.in(1, n - p);
         if(!ok) q = n - p + 1;
         attempt(rows ? "remove_rows" : "remove_cols", a, [&](A& t) { if(rows) t.remove_rows(long(p), long(q)); else t.remove_cols(long(p), long(q)); }, nothing, ok);
         break;
      }
      case 13: {
         i64 n = rows ? nr : nc;
         i64 p = ok && n ? r.in(0, n - 1) : n;
         attempt(rows ? "remove_row" : "remove_col", a, [&](A& t) { if(rows) t.remove_row(long(p)); else t.remove_col(long(p)); }, nothing, ok && n);
         break;
      }
      case 14: case 15: {
         auto v = rising(r, rows ? nr : nc, ok);
         attempt(rows ? "remove_rows(list)" : "remove_cols(list)", a, [&](A& t) { if(rows) t.remove_rows(list_of(v)); else t.remove_cols(list_of(v)); }, nothing, ok);
         break;
      }
      case 16: attempt("2D.replace(array)", a, [&](A& t) { t.resize_and_assign(b); }, ops, true); break;
      case 17: attempt("2D.replace(expr)", a, [&](A& t) { t.resize_and_assign(ticked(b)); }, ops, true); break;
      case 18: attempt("2D.replace(quotient)", a, [&](A& t) { t.resize_and_assign(quotient()); }, ops, q_ok); break;
      case 19: attempt("2D.replace(transposed self)", a, [&](A& t) { auto e = ticked(t); t.resize_and_assign(transpose(e)); }, nothing, true); break;
      case 20: {
         auto v = any_list(r, nr, empty ? 0 : r.in(1, 4), ok);
         bool fine = ok || v.empty();
         attempt("2D.replace(list slice of self)", a, [&](A& t) { t.resize_and_assign(t.rows(list_of(v))); }, nothing, fine);
         break;
      }
      case 21: attempt("2D.replace(temporary)", a, [&](A& t) { t.resize_and_assign(A(ticked(b))); }, ops, true); break;
      case 22: attempt("2D.= array", a, [&](A& t) { t = b; }, ops, nr == m && nc == l); break;
      case 23: {
         bool fit = nr == 2 && nc == 3;
         int form = int(r.below(3));
         attempt("2D.= list", a, [&](A& t) {
            if(form == 0) t = {{x, x, x}, {x, x, x}};
            if(form == 1) t = {{x, x, x}, {x, x}};
            if(form == 2) t = {{x}, {x}, {x}};
         }, nothing, (form == 0 && fit) || (form == 2 && nr == 3 && nc == 1));
         break;
      }
      case 24: {
         if(empty) break;
         auto v = any_list(r, nr, r.in(1, 3), ok), u = any_list(r, nc, r.in(1, 3), true);
         attempt("2D.list slice = x", a, [&](A& t) { t(list_of(v), list_of(u)) = x; }, nothing, ok);
         break;
      }
      case 25: {
         if(empty) break;
         auto v = any_list(r, m, nr, ok);
         attempt("2D.= list slice", a, [&](A& t) { t = b.rows(list_of(v)); }, ops, ok && l == nc);
         break;
      }
      case 26: attempt("2D.construct(m,n,x)", a, [&](A& t) { A q(long(ok ? m : -m), long(l), x); t.swap(q); }, nothing, ok); break;
      case 27: attempt("2D.construct(expr)", a, [&](A& t) { A q(ticked(b)); t.swap(q); }, ops, true); break;
      case 28: attempt("2D.construct(quotient)", a, [&](A& t) { A q(quotient()); t.swap(q); }, ops, q_ok); break;
      case 29: attempt("2D.construct(list)", a, [&](A& t) {
         if(ok) {
            A q{{x, x}, {x, x}};
            t.swap(q);
         } else {
            A q{{x, x}, {x}};
            t.swap(q);
         }
      }, nothing, ok); break;
      case 30: attempt("2D.construct(eval)", a, [&](A& t) {
         auto e = ticked(b).eval();
         A q(e);
         q.insert_rows(0, e);
         t.swap(q);
      }, ops, true); break;
      default: attempt("2D.several", a, [&](A& t) {
         A q(t);
         if(rows) q.insert_rows(long(pos), ticked(b));
         else q.insert_cols(long(pos), ticked(b));
         q.remove_row(0);
         t.resize_and_assign(q);
      }, ops, good);
      }
   }
   c.nontrivial = true;
}

int main(int argc, char** argv) {
   return h::run(argc, argv, [](Case& c) {
      dispatch<8>(c, []<int K>(Case& cc) {
         if constexpr(K == 0) one<int, Unaligned>(cc);
         else if constexpr(K == 1) two<double, Aligned>(cc);
         else if constexpr(K == 2) one<double, Aligned>(cc);
         else if constexpr(K == 3) two<int, Unaligned>(cc);
         else if constexpr(K == 4) one<bool, Aligned>(cc);
         else if constexpr(K == 5) two<bool, Unaligned>(cc);
         else if constexpr(K == 6) one<long double, Unaligned>(cc);
         else two<long double, Aligned>(cc);
      });
   });
}
