// P02: every call outside its domain reports an error, every call inside it does not. Each call is made with generated
// arguments around and far from the limits of its domain, which is decided by a model of the object's shape.
// With STRICT_DEBUG_OFF only the checks that are always on are exercised.
#include "hostile.hpp"
#ifndef STRICT_ERROR_EXCEPTIONS
#include <csignal>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#endif
#ifdef WITH_EIGEN
#include <strictpp/Eigen/eigen.hpp>
#endif
using namespace h;
using namespace spp;

template <class T> void sink(const T&) {}

// Whether the call reports an error: by an exception, or by ending the process, which is then a child of this one.
#ifdef STRICT_ERROR_EXCEPTIONS
template <class F> bool reports(F& f) {
   try {
      f();
      return false;
   } catch(const StrictException& e) {   // what it says is only evidence: where errors were seen to be reported
      std::string w = e.what();
      auto file = w.rfind('/', w.find(", function"));
      auto line = w.find("line: ");
      if(file != std::string::npos && line != std::string::npos)
         ev("site " + w.substr(file + 1, w.find(',', file) - file - 1) + ":" + w.substr(line + 6, w.find(':', line + 6) - line - 6));
      return true;
   }
}
#else
template <class F> bool reports(F& f) {
   pid_t pid = fork();
   if(pid < 0) std::exit(2);
   if(pid == 0) {
      rlimit none{0, 0};
      setrlimit(RLIMIT_CORE, &none);
      std::signal(SIGABRT, SIG_DFL);
      if(!std::freopen("/dev/null", "w", stderr) || !std::freopen("/dev/null", "w", stdout)) _exit(3);
      try {
         f();
      } catch(const CaseFail&) {   // judged again by the parent
      } catch(...) {
         _exit(4);
      }
      _exit(0);
   }
   int st = 0;
   while(waitpid(pid, &st, 0) < 0) {
   }
   if(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return true;
   CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "not-reported", "the call neither returned nor aborted: status ", st);
   f();
   return false;
}
#endif

// The call f is inside its domain exactly when ok.
template <class F> void offer(bool ok, const char* name, const std::string& args, F f) {
   logs(name, args, ok ? "" : " (invalid)");
   bool t = reports(f);
   ev(std::string(ok ? "ok " : "bad ") + name);
   CHECK(t == !ok, std::string(ok ? "valid-rejected:" : "invalid-accepted:") + name, ok ? "valid call reported: " : "invalid call accepted: ", name, args);
}

////////////////////////////////////////////////////////////////////////////////////////////////////
// Element access and reshaping of any 1D object: what is always checked.
template <class T, class A> void always1(Case& c, A& a, const std::vector<T>& v) {
   Rng& r = c.r;
   i64 n = i64(v.size());
   i64 i = near(r, n);
   bool ok = inside(i, n);
   c.note(u64(i));
   index_forms(r, i, n, [&](auto k) {
      T got{};
      offer(ok, "at", str("(", i, ") of ", n), [&] { got = a.at(k).val(); });
      CHECK(!ok || same(got, v[size_t(i)]), "element", "at(", i, ") gives ", show<T>(got), " expected ", show(v));
      offer(ok, "at", str("(", i, ") of ", n, " const"), [&] { got = std::as_const(a).at(k).val(); });
   });
   auto [p, q] = shape_of(r, n);
   offer(shapes(p, q, n), "view2D", str("(", p, ",", q, ") of ", n), [&] {
      auto w = a.view2D(long(p), long(q));
      if(n) sink(w.un(long(p - 1), long(q - 1)));
   });
   offer(shapes(p, q, n), "const.view2D", str("(", p, ",", q, ") of ", n), [&] { sink(std::as_const(a).view2D(long(p), long(q)).size()); });
   c.nontrivial = true;
}
template <class T, class A> void always2(Case& c, A& a, const Mat<T>& m) {
   Rng& r = c.r;
   i64 i = near(r, m.r);
   i64 j = near(r, m.c);
   if(r.chance(30) && m.r) i = r.in(0, m.r - 1);
   if(r.chance(30) && m.c) j = r.in(0, m.c - 1);
   bool ok = inside(i, m.r) && inside(j, m.c);
   c.note(u64(i) * 31 + u64(j));
   index_forms(r, i, m.r, [&](auto k) {
      int_forms(r, j, [&](auto l) {
         T got{};
         offer(ok, "2D.at", str("(", i, ",", j, ") of ", m.r, "x", m.c), [&] { got = a.at(k, l).val(); });
         CHECK(!ok || same(got, T(m(i, j))), "element", "at(", i, ",", j, ") gives ", show<T>(got));
         offer(ok, "2D.at", str("(", i, ",", j, ") of ", m.r, "x", m.c, " const"), [&] { got = std::as_const(a).at(k, l).val(); });
      });
   });
   auto [p, q] = shape_of(r, m.size());
   offer(shapes(p, q, m.size()), "2D.view2D", str("(", p, ",", q, ") of ", m.r, "x", m.c), [&] {
      auto w = a.view2D(long(p), long(q));
      if(m.size()) sink(w.un(long(p - 1), long(q - 1)));
   });
   offer(shapes(p, q, m.size()), "2D.const.view2D", str("(", p, ",", q, ") of ", m.r, "x", m.c), [&] { sink(std::as_const(a).view2D(long(p), long(q)).size()); });
   c.nontrivial = true;
}

#ifndef STRICT_DEBUG_OFF
template <class T, class A> void reads1(Case& c, A& a, const std::vector<T>& v) {
   Rng& r = c.r;
   i64 n = i64(v.size());
   int k = int(r.below(9));
   c.note(u64(k));
   switch(k) {
   case 0: case 1: {
      i64 i = near(r, n);
      bool ok = inside(i, n);
      index_forms(r, i, n, [&](auto x) {
         T got{};
         offer(ok, "[]", str("[", i, "] of ", n), [&] { got = a[x].val(); });
         CHECK(!ok || same(got, v[size_t(i)]), "element", "[", i, "] gives ", show<T>(got));
         offer(ok, "[]", str("[", i, "] of ", n, " const"), [&] { got = std::as_const(a)[x].val(); });
      });
      break;
   }
   case 2: case 3: case 4:
      any_selection(r, n, [&](auto mk, bool ok, i64 cnt, std::string text) {
         bool cst = r.chance(40);
         offer(ok, ("slice." + text.substr(0, text.find_first_of("([ "))).c_str(), str(" ", text, " of ", n), [&] {
            auto use = [&](auto s) {
               CHECK(sz(s) == cnt, "slice-size", text, " has ", sz(s), " elements, expected ", cnt);
               if(cnt > 0) sink(s[0].val() == s[place::last].val());
            };
            if(cst) use(std::as_const(a)(mk()));
            else use(a(mk()));
         });
      });
      break;
   case 5: {
      i64 pos = near(r, n);
      i64 cnt = r.chance(60) ? r.in(1, n + 1) : near(r, n);
      bool ok = inside(pos, n) && cnt > 0 && cnt <= n - pos;
      int form = int(r.below(3));
      if(form == 0) offer(ok, "exclude", str("(", pos, ",", cnt, ") of ", n), [&] { sink(exclude(a, long(pos), long(cnt)).size()); });
      if(form == 1) offer(ok, "exclude", str("(Pos ", pos, ",Count ", cnt, ") of ", n), [&] { sink(exclude(a, Pos{long(pos)}, Count{long(cnt)}).size()); });
      if(form == 2) {
         i64 b = r.chance(70) ? r.in(-2, n + 1) : near(r, n);
         offer(b >= 0 && b < n, "exclude.last", str("(last-", b, ") of ", n), [&] { sink(exclude(a, place::last - long(b)).size()); });
      }
      break;
   }
   case 6:
      offer(n > 0, "irange_m1", str(" of ", n), [&] { sink(irange_m1(a).size()); });
      offer(true, "irange", str(" of ", n), [&] { sink(irange(a).size()); });
      break;
   case 7: {   // iterators
      i64 k2 = r.in(-2, n + 2);
      i64 b = r.chance(80) ? r.in(-2, n + 2) : near(r, n);
      if(r.chance(50)) {
         auto it = a.begin();
         offer(true, "it+=", str(k2), [&] { it += long(k2); });
         offer(inside(k2, n), "*it", str(" at ", k2, " of ", n), [&] { sink(*it); });
         offer(i128(k2) + b >= 0 && i128(k2) + b < n, "it[]", str("[", b, "] at ", k2, " of ", n), [&] { sink(it[long(b)]); });
      } else {
         auto it = std::as_const(a).end();
         offer(true, "cit-=", str(k2), [&] { it -= long(n - k2); });
         offer(inside(k2, n), "*cit", str(" at ", k2, " of ", n), [&] { sink(*it); });
         offer(i128(k2) + b >= 0 && i128(k2) + b < n, "cit[]", str("[", b, "] at ", k2, " of ", n), [&] { sink(it[long(b)]); });
      }
      break;
   }
   default: {
      T x = rnd<T>(r);
      auto w = rvec<T>(r, n);
      auto other = mk1<Array1D<T>>(w);
      offer(true, "==", "", [&] { sink(a == other); });
      offer(true, "all/any", "", [&] { sink(any_of(a, S<T>(x))); sink(all_of(a, S<T>(x))); });
      if constexpr(!std::is_same_v<T, bool>) offer(true, "reductions", str(" of ", n), [&] { sink(min(a)); sink(max_index(a)); sink(sum(a * Zero<T>)); });
   }
   }
   c.nontrivial = true;
}

template <class T, class A> void reads2(Case& c, A& a, const Mat<T>& m) {
   Rng& r = c.r;
   int k = int(r.below(11));
   c.note(u64(k));
   i64 nr = m.r, nc = m.c;
   auto of = [&] { return str(" of ", nr, "x", nc); };
   switch(k) {
   case 0: {
      i64 i = near(r, nr);
      i64 j = near(r, nc);
      bool ok = inside(i, nr) && inside(j, nc);
      int_forms(r, i, [&](auto x) {
         index_forms(r, j, nc, [&](auto y) {
            T got{};
            offer(ok, "()", str("(", i, ",", j, ")", of()), [&] { got = a(x, y).val(); });
            CHECK(!ok || same(got, T(m(i, j))), "element", "(", i, ",", j, ") gives ", show<T>(got));
            offer(ok, "()", str("(", i, ",", j, ") const", of()), [&] { got = std::as_const(a)(x, y).val(); });
         });
      });
      break;
   }
   case 1: {
      i64 i = near(r, nr);
      bool cst = r.chance(50);
      index_forms(r, i, nr, [&](auto x) {
         offer(inside(i, nr), "row", str("(", i, ")", of()), [&] {
            auto use = [&](auto s) {
               CHECK(sz(s) == nc, "row-size", "row has ", sz(s), " elements");
               sink(s[place::last]);
            };
            if(cst) use(std::as_const(a).row(x));
            else use(a.row(x));
         });
      });
      break;
   }
   case 2: {
      i64 j = near(r, nc);
      bool cst = r.chance(50);
      index_forms(r, j, nc, [&](auto x) {
         offer(inside(j, nc), "col", str("(", j, ")", of()), [&] {
            auto use = [&](auto s) {
               CHECK(sz(s) == nr, "col-size", "column has ", sz(s), " elements");
               sink(s[place::last]);
            };
            if(cst) use(std::as_const(a).col(x));
            else use(a.col(x));
         });
      });
      break;
   }
   case 3: {
      i64 d = r.chance(70) ? r.in(-nr - 1, nc + 1) : near(r, nr);
      bool ok = d >= 0 ? d < nc : d > -nr;
      offer(ok, "diag", str("(", d, ")", of()), [&] {
         auto s = a.diag(long(d));
         CHECK(sz(s) == (d >= 0 ? std::min(nr, nc - d) : std::min(nr + d, nc)), "diag-size", "diagonal has ", sz(s), " elements");
         sink(s[place::last]);
      });
      offer(true, "diag()", of(), [&] { sink(a.diag().size()); });
      break;
   }
   case 4: {
      i64 i = r.chance(60) && nr ? r.in(0, nr - 1) : near(r, nr);
      i64 j = r.chance(60) && nc ? r.in(0, nc - 1) : near(r, nc);
      i64 k2 = r.chance(60) && inside(i, nr) ? r.in(i, nr - 1) : near(r, nr);
      i64 l = r.chance(60) && inside(j, nc) ? r.in(j, nc - 1) : near(r, nc);
      bool ok = inside(i, nr) && inside(j, nc) && inside(k2, nr) && inside(l, nc) && i <= k2 && j <= l;
      index_forms(r, k2, nr, [&](auto x) {
         offer(ok, "block", str("(", i, ",", j, ",", k2, ",", l, ")", of()), [&] {
            auto s = a.block(long(i), long(j), x, long(l));
            CHECK(s.rows().val() == k2 - i + 1 && s.cols().val() == l - j + 1, "block-size", "block is ", s.rows(), "x", s.cols());
            sink(s(place::last, place::last));
         });
      });
      break;
   }
   case 5: {
      i64 i = r.chance(60) && nr ? r.in(0, nr - 1) : near(r, nr);
      i64 j = r.chance(60) && nc ? r.in(0, nc - 1) : near(r, nc);
      i64 p = r.chance(60) && inside(i, nr) ? r.in(0, nr - i) : near(r, nr);
      i64 q = r.chance(60) && inside(j, nc) ? r.in(0, nc - j) : near(r, nc);
      // An empty extent selects nothing wherever it starts.
      bool ok = i >= 0 && j >= 0 && p >= 0 && q >= 0 && (p == 0 || (i < nr && p <= nr - i)) && (q == 0 || (j < nc && q <= nc - j));
      index_forms(r, j, nc, [&](auto x) {
         offer(ok, "blockN", str("(", i, ",", j, ",", p, ",", q, ")", of()), [&] {
            auto s = a.blockN(long(i), x, long(p), long(q));
            if(p && q) sink(s(place::last, place::last));
         });
      });
      break;
   }
   case 6:
      any_selection(r, nr, [&](auto mk, bool ok, i64 cnt, std::string text) {
         offer(ok, "rows()", str(" ", text, of()), [&] {
            auto s = a.rows(mk());
            if(cnt > 0 && nc) sink(s(place::last, place::last));
         });
      });
      break;
   case 7:
      any_selection(r, nc, [&](auto mk, bool ok, i64 cnt, std::string text) {
         offer(ok, "cols()", str(" ", text, of()), [&] {
            auto s = std::as_const(a).cols(mk());
            if(cnt > 0 && nr) sink(s(place::last, 0));
         });
      });
      break;
   case 8:
      any_selection(r, nr, [&](auto mk, bool ok, i64 cnt, std::string text) {
         few_selection(r, nc, [&](auto mk2, bool ok2, i64 cnt2, std::string text2) {
            offer(ok && ok2, "(sl,sl)", str(" ", text, ",", text2, of()), [&] {
               auto s = a(mk(), mk2());
               if(cnt > 0 && cnt2 > 0) sink(s(place::last, place::last));
            });
         });
      });
      break;
   case 9: {
      i64 k2 = r.in(-2, nr + 2);
      i64 b = r.chance(80) ? r.in(-2, nc + 2) : near(r, nc);
      RowIt rows{a};
      auto it = rows.begin();
      it += long(k2);
      offer(inside(k2, nr), "*RowIt", str(" at ", k2, of()), [&] {
         auto s = *it;
         sink(s[place::last]);
      });
      ColIt cols{std::as_const(a)};
      auto jt = cols.begin();
      ++jt;
      offer(i128(b) + 1 >= 0 && i128(b) + 1 < nc, "ColIt[]", str("[", b, "] at 1", of()), [&] {
         auto s = jt[long(b)];
         sink(s[place::last]);
      });
      auto et = a.begin();
      et += long(k2);
      offer(inside(k2, nr * nc), "2D.*it", str(" at ", k2, of()), [&] { sink(*et); });
      break;
   }
   default:
      offer(nr > 0, "irange_row_m1", of(), [&] { sink(irange_row_m1(a).size()); });
      offer(nc > 0, "irange_col_m1", of(), [&] { sink(irange_col_m1(a).size()); });
      offer(true, "irange_row", of(), [&] { sink(irange_row(a).size()); sink(irange_col(a).size()); });
   }
   c.nontrivial = true;
}

////////////////////////////////////////////////////////////////////////////////////////////////////
// Dynamic owners: construction, resizing, insertion, removal, assignment.
template <class T, AlignmentFlag AF> void owner1(Case& c) {
   Rng& r = c.r;
   using A = Array1D<T, AF>;
   i64 n0 = r.in(0, 12);
   auto m = rvec<T>(r, n0);
   A a = mk1<A>(m);
   for(int step = int(r.in(2, 7)); step; --step) {
      i64 n = i64(m.size());
      int k = int(r.below(18));
      c.note(u64(k));
      T x = rnd<T>(r);
      auto keep = m;
      auto remove = [&](i64 pos, i64 cnt) {
         bool ok = inside(pos, n) && cnt > 0 && cnt <= n - pos;
         if(ok) m.erase(m.begin() + pos, m.begin() + pos + cnt);
         return ok;
      };
      auto of = str(" of ", n);
      i64 count = r.chance(70) ? r.in(0, n + 1) : near(r, n);
      i64 pos = r.chance(50) && n ? r.in(0, n - 1) : near(r, n);
      switch(k) {
      case 0: {
         i64 s = r.chance(50) ? r.in(-3, 20) : -r.in(1, MAXL);
         int form = int(r.below(4));
         if(form == 0) offer(s >= 0, "ctor(n)", str(s), [&] { A b(1L * s); CHECK(sz(b) == s, "size", "constructed size"); });
         if(form == 1) offer(s >= 0, "ctor(n,x)", str(s), [&] { A b(1L * s, S<T>(x)); CHECK(sz(b) == s, "size", "constructed size"); });
         if(form == 2) offer(s >= 0, "ctor(Size)", str(s), [&] { A b(Size{1L * s}); });
         if(form == 3) offer(s >= 0, "ctor(Size,Value)", str(s), [&] { A b(Size{1L * s}, Value{x}); });
         break;
      }
      case 1: case 2: {
         i64 s = r.chance(60) ? r.in(0, 16) : -r.in(1, MAXL);
         bool ok = s >= 0;
         if(k == 1) offer(ok, "resize", str(s), [&] { a.resize(1L * s); });
         else offer(ok, "resize.preserve", str(s), [&] { a.resize(1L * s, true); });
         if(ok) {
            m.resize(size_t(s));
            if(k == 1) {
               m = rvec<T>(r, s);
               fill1(a, m);
            }
         }
         break;
      }
      case 3: {
         bool ok = pos >= 0 && pos <= n;
         offer(ok, "insert(pos,x)", str(pos, of), [&] { a.insert(long(pos), S<T>(x)); });
         if(ok) m.insert(m.begin() + pos, x);
         break;
      }
      case 4: {
         if(r.chance(30)) pos = n + r.in(-1, 1);
         bool ok = pos >= 0 && pos <= n;
         offer(ok, "insert(Pos,Value)", str(pos, of), [&] { a.insert(Pos{long(pos)}, Value{x}); });
         if(ok) m.insert(m.begin() + pos, x);
         break;
      }
      case 5: {
         if(r.chance(30)) pos = n + r.in(-1, 1);
         bool ok = pos >= 0 && pos <= n;
         auto w = rvec<T>(r, r.in(0, 4));
         auto b = mk1<Array1D<T>>(w);
         if(r.chance(50)) offer(ok, "insert(pos,array)", str(pos, of), [&] { a.insert(long(pos), b(place::all)); });
         else offer(ok, "insert(Pos,array)", str(pos, of), [&] { a.insert(Pos{long(pos)}, b); });
         if(ok) m.insert(m.begin() + pos, w.begin(), w.end());
         break;
      }
      case 6: case 7: {
         bool ok = remove(pos, count);
         if(k == 6) offer(ok, "remove(pos,count)", str("(", pos, ",", count, ")", of), [&] { a.remove(long(pos), long(count)); });
         else offer(ok, "remove(Pos,Count)", str("(", pos, ",", count, ")", of), [&] { a.remove(Pos{long(pos)}, Count{long(count)}); });
         break;
      }
      case 8: {
         bool ok = remove(pos, 1);
         offer(ok, "remove(pos)", str(pos, of), [&] { a.remove(long(pos)); });
         break;
      }
      case 9: {
         bool ok = remove(0, count);
         offer(ok, "remove_front", str(count, of), [&] { a.remove_front(long(count)); });
         break;
      }
      case 10: {
         bool ok = count > 0 && count <= n && remove(n - count, count);
         offer(ok, "remove_back", str(count, of), [&] { a.remove_back(long(count)); });
         break;
      }
      case 11: {
         i64 b = r.chance(70) ? r.in(-1, n) : near(r, n);
         bool ok = b >= 0 && b < n && remove(n - 1 - b, 1);
         offer(ok, "remove(last-k)", str(b, of), [&] { a.remove(place::last - long(b)); });
         break;
      }
      case 12: {
         auto v = rising_list(r, n);
         bool ok = rising(v, n);
         offer(ok, "remove(list)", str(show(v), of), [&] { a.remove(implicit(v)); });
         if(ok)
            for(size_t i = v.size(); i; --i) m.erase(m.begin() + v[i - 1]);
         break;
      }
      case 13: {
         int len = int(r.in(0, 4));
         T y = T(1), z = T(0);
         bool ok = n == len;
         offer(ok, "= list", str(len, of), [&] {
            if(len == 0) a = std::initializer_list<Strict<T>>{};
            if(len == 1) a = {S<T>(x)};
            if(len == 2) a = {S<T>(x), S<T>(y)};
            if(len == 3) a = {S<T>(x), S<T>(y), S<T>(z)};
            if(len == 4) a = {S<T>(x), S<T>(y), S<T>(z), S<T>(y)};
         });
         if(ok) m = std::vector<T>{x, y, z, y}, m.resize(size_t(len));
         break;
      }
      case 14: case 15: {
         i64 l = r.chance(60) ? n : std::max<i64>(0, n + r.in(-2, 2));
         auto w = rvec<T>(r, l);
         auto b = mk1<A>(w);
         auto b2 = mk1<Array1D<T>>(w);
         bool ok = l == n;
         int form = int(r.below(4));
         if(form == 0) offer(ok, "= array", str(l, of), [&] { a = b; });
         if(form == 1) offer(ok, "= slice", str(l, of), [&] { a = b2(place::all); });
         if(form == 2) offer(ok, "= expression", str(l, of), [&] { a = generate(b2, [](auto y) { return y; }); });
         if(form == 3) offer(ok, "= lazy", str(l, of), [&] { a = const1D<T>(long(l), S<T>(x)); });
         if(form == 3) w.assign(size_t(l), x);
         if(ok) m = w;
         break;
      }
      case 16: {
         i64 l = r.chance(50) ? n : std::max<i64>(0, n + r.in(-2, 2));
         auto w = rvec<T>(r, l, 1, 5);
         auto b = mk1<Array1D<T>>(w);
         bool ok = l == n;
         int form = int(r.below(4));
         if constexpr(!std::is_same_v<T, bool>) {
            // Assigning a fresh value of known elements first keeps the arithmetic in range.
            fill1(a, std::vector<T>(size_t(n), T(40)));
            m.assign(size_t(n), T(40));
            if(form == 0) offer(ok, "+=", str(l, of), [&] { a += b; });
            if(form == 1) offer(ok, "-=", str(l, of), [&] { a -= b(place::all); });
            if(form == 2) offer(ok, "*=", str(l, of), [&] { a *= generate(b, [](auto y) { return y; }); });
            if(form == 3) offer(ok, "/=", str(l, of), [&] { a /= b; });
            if(ok)
               for(i64 i = 0; i < n; ++i) m[size_t(i)] = form == 0 ? T(40 + w[size_t(i)]) : form == 1 ? T(40 - w[size_t(i)]) : form == 2 ? T(40 * w[size_t(i)]) : T(T(40) / w[size_t(i)]);
         } else {
            offer(ok, "=", str(l, of), [&] { a = b ^ b; });
            if(ok) m.assign(size_t(n), T(false));
         }
         break;
      }
      default: {
         i64 p = r.in(0, n);
         i64 q = r.in(0, n);
         bool ok = q >= p;
         offer(ok, "ctor(b,e)", str(p, ",", q, of), [&] {
            A b(a.begin() + long(p), a.begin() + long(q));
            CHECK(sz(b) == q - p, "size", "size of array from iterators");
         });
      }
      }
      expect1(a, m, "state", "contents after the call");
   }
   c.nontrivial = true;
}

template <class T, AlignmentFlag AF> void owner2(Case& c) {
   Rng& r = c.r;
   using A = Array2D<T, AF>;
   i64 r0 = r.in(0, 5);
   i64 c0 = r0 ? r.in(1, 5) : 0;
   auto m = rmat<T>(r, r0, c0);
   A a = mk2<A>(m);
   auto legal = [](i64 p, i64 q) { return p >= 0 && q >= 0 && (p == 0) == (q == 0) && i128(p) * q <= 400; };
   for(int step = int(r.in(2, 7)); step; --step) {
      i64 nr = m.r, nc = m.c;
      int k = int(r.below(19));
      c.note(u64(k));
      T x = rnd<T>(r);
      auto of = str(" of ", nr, "x", nc);
      i64 pr = r.chance(50) && nr ? r.in(0, nr - 1) : near(r, nr);
      i64 pc = r.chance(50) && nc ? r.in(0, nc - 1) : near(r, nc);
      i64 cr = r.chance(70) ? r.in(0, nr + 1) : near(r, nr);
      i64 cc = r.chance(70) ? r.in(0, nc + 1) : near(r, nc);
      auto drop_rows = [&](i64 pos, i64 cnt) {
         bool ok = inside(pos, nr) && cnt > 0 && cnt <= nr - pos;
         if(ok) {
            m.d.erase(m.d.begin() + pos * nc, m.d.begin() + (pos + cnt) * nc);
            m.r -= cnt;
            if(!m.r) m.c = 0;
         }
         return ok;
      };
      auto drop_cols = [&](i64 pos, i64 cnt) {
         bool ok = inside(pos, nc) && cnt > 0 && cnt <= nc - pos;
         if(ok) {
            Mat<T> t(nc - cnt ? nr : 0, nc - cnt);
            for(i64 i = 0; i < t.r; ++i)
               for(i64 j = 0; j < t.c; ++j) t(i, j) = m(i, j < pos ? j : j + cnt);
            m = t;
         }
         return ok;
      };
      switch(k) {
      case 0: {
         i64 p, q;
         int w = int(r.below(5));
         p = w == 4 ? i64(1) << r.in(31, 62) : r.in(-3, 6);
         q = w == 4 ? i64(1) << r.in(33, 62) : r.in(-3, 6);
         if(w == 3) p = near(r, 3), q = p > 5 ? -1 : p > 0 ? 2 : near(r, 3);
         bool ok = legal(p, q);
         if(!ok && p > 0 && q > 0 && i128(p) * q <= MAXL) break;   // representable but enormous: allocation decides
         int form = int(r.below(4));
         auto text = str("(", p, ",", q, ")");
         if(form == 0) offer(ok, "2D.ctor", text, [&] { A b(1L * p, 1L * q); });
         if(form == 1) offer(ok, "2D.ctor(Rows,Cols)", text, [&] { A b(Rows{1L * p}, Cols{1L * q}); });
         if(form == 2) offer(ok, "2D.ctor(m,n,x)", text, [&] { A b(1L * p, 1L * q, S<T>(x)); });
         if(form == 3) offer(ok, "2D.ctor(named,x)", text, [&] { A b(Rows{1L * p}, Cols{1L * q}, Value{x}); });
         break;
      }
      case 1: case 2: {
         i64 p = r.in(-1, 6), q = r.in(-1, 6);
         int w = int(r.below(6));
         if(w == 4) p = i64(1) << r.in(31, 62), q = i64(1) << r.in(33, 62);
         if(w == 5) p = -nr, q = -nc;
         bool ok = legal(p, q);
         if(!ok && p > 0 && q > 0 && i128(p) * q <= MAXL) break;
         auto text = str("(", p, ",", q, ")", of);
         if(k == 1) offer(ok, "2D.resize", text, [&] { a.resize(1L * p, 1L * q); });
         else offer(ok, "2D.resize.preserve", text, [&] { a.resize(1L * p, 1L * q, true); });
         if(ok) {
            m = rmat<T>(r, p, q);
            CHECK(a.rows().val() == p && a.cols().val() == q, "state", "shape after resize");
            fill2(a, m);
         }
         break;
      }
      case 3: {
         bool ok = drop_rows(pr, cr);
         if(r.chance(50)) offer(ok, "remove_rows", str("(", pr, ",", cr, ")", of), [&] { a.remove_rows(long(pr), long(cr)); });
         else offer(ok, "remove_rows(Pos,Count)", str("(", pr, ",", cr, ")", of), [&] { a.remove_rows(Pos{long(pr)}, Count{long(cr)}); });
         break;
      }
      case 4: {
         bool ok = drop_cols(pc, cc);
         if(r.chance(50)) offer(ok, "remove_cols", str("(", pc, ",", cc, ")", of), [&] { a.remove_cols(long(pc), long(cc)); });
         else offer(ok, "remove_cols(Pos,Count)", str("(", pc, ",", cc, ")", of), [&] { a.remove_cols(Pos{long(pc)}, Count{long(cc)}); });
         break;
      }
      case 5: {
         bool ok = drop_rows(pr, 1);
         offer(ok, "remove_row", str(pr, of), [&] { a.remove_row(long(pr)); });
         break;
      }
      case 6: {
         bool ok = drop_cols(pc, 1);
         offer(ok, "remove_col", str(pc, of), [&] { a.remove_col(long(pc)); });
         break;
      }
      case 7: {
         i64 b = r.chance(70) ? r.in(-1, nr) : near(r, nr);
         bool ok = b >= 0 && b < nr && drop_rows(nr - 1 - b, 1);
         offer(ok, "remove_row(last-k)", str(b, of), [&] { a.remove_row(place::last - long(b)); });
         break;
      }
      case 8: {
         i64 b = r.chance(70) ? r.in(-1, nc) : near(r, nc);
         bool ok = b >= 0 && b < nc && drop_cols(nc - 1 - b, 1);
         offer(ok, "remove_col(last-k)", str(b, of), [&] { a.remove_col(place::last - long(b)); });
         break;
      }
      case 9: {
         int w = int(r.below(4));
         bool ok = w == 0 ? drop_rows(0, cr) : w == 1 ? cr > 0 && cr <= nr && drop_rows(nr - cr, cr) : w == 2 ? drop_cols(0, cc) : cc > 0 && cc <= nc && drop_cols(nc - cc, cc);
         if(w == 0) offer(ok, "remove_rows_front", str(cr, of), [&] { a.remove_rows_front(long(cr)); });
         if(w == 1) offer(ok, "remove_rows_back", str(cr, of), [&] { a.remove_rows_back(long(cr)); });
         if(w == 2) offer(ok, "remove_cols_front", str(cc, of), [&] { a.remove_cols_front(long(cc)); });
         if(w == 3) offer(ok, "remove_cols_back", str(cc, of), [&] { a.remove_cols_back(long(cc)); });
         break;
      }
      case 10: {
         auto v = rising_list(r, nr);
         bool ok = rising(v, nr);
         offer(ok, "remove_rows(list)", str(show(v), of), [&] { a.remove_rows(implicit(v)); });
         if(ok) {
            for(size_t i = v.size(); i; --i) {
               m.d.erase(m.d.begin() + v[i - 1] * nc, m.d.begin() + (v[i - 1] + 1) * nc);
               --m.r;
            }
            if(!m.r) m.c = 0;
         }
         break;
      }
      case 11: {
         auto v = rising_list(r, nc);
         bool ok = rising(v, nc);
         offer(ok, "remove_cols(list)", str(show(v), of), [&] { a.remove_cols(implicit(v)); });
         if(ok) {
            i64 left = nc - i64(v.size());
            Mat<T> t(left ? nr : 0, left);
            i64 w = 0;
            std::set<i64> gone(v.begin(), v.end());
            for(i64 j = 0; j < nc; ++j)
               if(!gone.count(j)) {
                  for(i64 i = 0; i < t.r; ++i) t(i, w) = m(i, j);
                  ++w;
               }
            m = t;
         }
         break;
      }
      case 12: case 13: {   // insert rows or columns of another matrix
         bool rows = k == 12;
         i64 have = rows ? nc : nr;
         i64 lim = rows ? nr : nc;
         i64 other = r.chance(60) ? have : std::max<i64>(0, have + r.in(-1, 1));
         i64 cnt = other ? r.in(1, 3) : 0;
         i64 pos = r.chance(60) ? r.in(0, lim) : near(r, lim);
         bool ok = pos >= 0 && pos <= lim && (nr == 0 || other == have);
         auto w = rows ? rmat<T>(r, cnt, other) : rmat<T>(r, other, cnt);
         auto b = mk2<Array2D<T>>(w);
         auto text = str("(", pos, ",", w.r, "x", w.c, ")", of);
         int form = int(r.below(2));
         if(rows && form == 0) offer(ok, "insert_rows", text, [&] { a.insert_rows(long(pos), b); });
         if(rows && form == 1) offer(ok, "insert_rows(Pos)", text, [&] { a.insert_rows(Pos{long(pos)}, b(place::all, place::all)); });
         if(!rows && form == 0) offer(ok, "insert_cols", text, [&] { a.insert_cols(long(pos), b); });
         if(!rows && form == 1) offer(ok, "insert_cols(Pos)", text, [&] { a.insert_cols(Pos{long(pos)}, b(place::all, place::all)); });
         if(ok) {
            if(nr == 0) m = w;
            else if(rows) {
               m.d.insert(m.d.begin() + pos * nc, w.d.begin(), w.d.end());
               m.r += w.r;
            } else {
               Mat<T> t(nr, nc + w.c);
               for(i64 i = 0; i < nr; ++i)
                  for(i64 j = 0; j < t.c; ++j) t(i, j) = j < pos ? m(i, j) : j < pos + w.c ? w(i, j - pos) : m(i, j - w.c);
               m = t;
            }
         }
         break;
      }
      case 14: case 15: {   // insert one row or column
         bool rows = k == 14;
         i64 have = rows ? nc : nr;
         i64 lim = rows ? nr : nc;
         i64 len = r.chance(60) ? have : std::max<i64>(0, have + r.in(-1, 2));
         i64 pos = r.chance(60) ? r.in(0, lim) : near(r, lim);
         if(len == 0 && nr == 0) break;   // an empty line into an empty matrix: left open
         bool ok = pos >= 0 && pos <= lim && (nr == 0 || len == have);
         auto w = rvec<T>(r, len);
         auto b = mk1<Array1D<T>>(w);
         auto text = str("(", pos, ",", len, ")", of);
         if(rows) offer(ok, "insert_row", text, [&] { a.insert_row(long(pos), b(place::all)); });
         else offer(ok, "insert_col", text, [&] { a.insert_col(long(pos), b); });
         if(ok) {
            if(nr == 0) {
               m = rows ? Mat<T>(1, len) : Mat<T>(len, 1);
               m.d = w;
            } else if(rows) {
               m.d.insert(m.d.begin() + pos * nc, w.begin(), w.end());
               ++m.r;
            } else {
               Mat<T> t(nr, nc + 1);
               for(i64 i = 0; i < nr; ++i)
                  for(i64 j = 0; j <= nc; ++j) t(i, j) = j < pos ? m(i, j) : j == pos ? w[size_t(i)] : m(i, j - 1);
               m = t;
            }
         }
         break;
      }
      case 16: {   // lists
         T y = T(1);
         Strict<T> X{x}, Y{y};
         int w = int(r.below(10));
         struct { bool legal; i64 p, q; } shape[] = {{true, 0, 0}, {true, 1, 2}, {true, 2, 2}, {false, 2, 2}, {false, 2, 2}, {false, 2, 0}, {true, 3, 2}, {false, 3, 2}, {false, 2, 0}, {true, 0, 0}};
         auto s = shape[w];
         auto build = [&](auto use) {
            using R = std::initializer_list<Strict<T>>;
            if(w == 0) use(std::initializer_list<R>{});
            if(w == 1) use(std::initializer_list<R>{R{X, Y}});
            if(w == 2) use(std::initializer_list<R>{R{X, Y}, R{Y, X}});
            if(w == 3) use(std::initializer_list<R>{R{X, Y}, R{Y}});
            if(w == 4) use(std::initializer_list<R>{R{X, Y}, R{Y, X, X}});
            if(w == 5) use(std::initializer_list<R>{R{}, R{}});
            if(w == 6) use(std::initializer_list<R>{R{X, Y}, R{Y, X}, R{X, X}});
            if(w == 7) use(std::initializer_list<R>{R{X, Y}, R{Y, X}, R{}});
            if(w == 8) use(std::initializer_list<R>{R{}, R{X}});
            if(w == 9) use(std::initializer_list<R>{R{}});
         };
         offer(s.legal, "2D.ctor(list)", str(w), [&] {
            build([&](auto l) {
               A b(l);
               CHECK(b.rows().val() == s.p && b.cols().val() == s.q, "size", "shape from list ", w);
            });
         });
         bool ok = s.legal && s.p == nr && s.q == nc;
         offer(ok, "2D.= list", str(w, of), [&] { build([&](auto l) { a = l; }); });
         if(ok) m = mat(a);
         break;
      }
      case 17: {
         i64 p = nr, q = nc;
         int w = int(r.below(6));
         if(w == 0) std::swap(p, q);
         if(w == 1) p = r.in(1, 6), q = r.in(1, 6);
         if(w == 2 && nr * nc) {   // same number of elements, another shape
            p = 1;
            q = nr * nc;
         }
         bool ok = p == nr && q == nc;
         auto v = rmat<T>(r, p, q);
         auto b = mk2<Array2D<T>>(v);
         auto b2 = mk2<A>(v);
         auto text = str(p, "x", q, of);
         int form = int(r.below(5));
         if(form == 0) offer(ok, "2D.= array", text, [&] { a = b2; });
         if(form == 1) offer(ok, "2D.= slice", text, [&] { a = b(place::all, place::all); });
         if(form == 2) offer(ok, "2D.= expression", text, [&] { a = generate(b, [](auto y) { return y; }); });
         if(form == 3) offer(ok, "2D.= transpose", text, [&] { auto t = transpose(b); a = transpose(t); });
         if constexpr(std::is_same_v<T, bool>) {
            if(form == 4) offer(ok, "2D.= other", text, [&] { a = b; });
         } else if(form == 4) {
            fill2(a, Mat<T>(nr, nc));
            m = Mat<T>(nr, nc);
            offer(ok, "2D.+=", text, [&] { a += b; });
         }
         if(ok) m = v;
         break;
      }
      default: {
         i64 p = nr, q = nc;
         int w = int(r.below(4));
         if(w == 0) std::swap(p, q);
         if(w == 1) p = r.in(1, 6), q = r.in(1, 6);
         auto v = rmat<T>(r, p, q);
         auto b = mk2<Array2D<T>>(v);
         if(nr * nc == 0) break;
         auto text = str(p, "x", q, of);
         offer(p == nr && q == nc, "2D.slice = array", text, [&] { a(place::all, place::all) = b; });
         if(p == nr && q == nc) m = v;
         offer(q == nc, "row = row", text, [&] { a.row(0) = b.row(0); });
         if(q == nc)
            for(i64 j = 0; j < nc; ++j) m(0, j) = v(0, j);
         offer(p == nr, "col = col", text, [&] { a.col(place::last) = b.col(place::last); });
         if(p == nr)
            for(i64 i = 0; i < nr; ++i) m(i, nc - 1) = v(i, q - 1);
      }
      }
      expect2(a, m, "state", "contents after the call");
   }
   c.nontrivial = true;
}

template <class T> void fixed(Case& c) {
   Rng& r = c.r;
   int k = int(r.below(6));
   c.note(u64(k));
   T x = rnd<T>(r, 0, 1), y = T(1);
   Strict<T> X{x}, Y{y};
   i64 n = r.chance(50) ? 4 : r.in(0, 7);
   auto v = rvec<T>(r, n);
   auto b = mk1<Array1D<T>>(v);
   FixedArray1D<T, 4> a(X);
   if(k == 0) {
      int len = int(r.in(0, 5));
      using L = std::initializer_list<Strict<T>>;
      auto build = [&](auto use) {
         if(len == 0) use(L{});
         if(len == 1) use(L{X});
         if(len == 2) use(L{X, Y});
         if(len == 3) use(L{X, Y, X});
         if(len == 4) use(L{X, Y, X, X});
         if(len == 5) use(L{X, Y, X, X, Y});
      };
      offer(len == 4, "fixed.ctor(list)", str(len), [&] { build([&](L l) { FixedArray1D<T, 4> q(l); }); });
      offer(len == 4, "fixed.= list", str(len), [&] { build([&](L l) { a = l; }); });
      auto d = b(place::firstN{long(std::min<i64>(n, 4))});
      offer(len == std::min<i64>(n, 4), "slice = list", str(len), [&] { build([&](L l) { d = l; }); });
   } else if(k == 1) {
      offer(n == 4, "fixed.ctor(array)", str(n), [&] { FixedArray1D<T, 4> q(b); });
      offer(n == 4, "fixed.ctor(slice)", str(n), [&] { FixedArray1D<T, 4> q(b(place::all)); });
      offer(n == 4, "fixed.= slice", str(n), [&] { a = b(place::reverse); });
      offer(n == 4, "fixed.= array", str(n), [&] { a = b; });
   } else if(k == 2) {
      i64 p = r.in(0, n);
      i64 q = r.in(0, n);
      if(r.chance(40) && n >= 4) p = r.in(0, n - 4), q = p + 4;
      if(r.chance(15)) std::swap(p, q);
      if(r.chance(20) && n >= 4) p = 4, q = 0;
      offer(q - p == 4, "fixed.ctor(b,e)", str(p, ",", q), [&] { FixedArray1D<T, 4> w(b.begin() + long(p), b.begin() + long(q)); });
   } else {
      i64 p = r.chance(50) ? 2 : r.in(1, 4);
      i64 q = r.chance(50) ? 3 : r.in(1, 4);
      if(r.chance(15)) p = 3, q = 2;
      if(r.chance(10)) p = 1, q = 6;
      bool ok = p == 2 && q == 3;
      auto w = rmat<T>(r, p, q);
      auto d = mk2<Array2D<T>>(w);
      FixedArray2D<T, 2, 3> f(X);
      auto text = str(p, "x", q);
      if(k == 3) {
         offer(ok, "fixed2.ctor(array)", text, [&] { FixedArray2D<T, 2, 3> z(d); });
         offer(ok, "fixed2.= array", text, [&] { f = d; });
         offer(ok, "fixed2.= slice", text, [&] { f = d(place::reverse, place::all); });
         if constexpr(!std::is_same_v<T, bool>) offer(ok, "fixed2.+=", text, [&] { f += d; });
      } else {
         using R = std::initializer_list<Strict<T>>;
         using L = std::initializer_list<R>;
         int s = int(r.below(6));
         auto build = [&](auto use) {
            if(s == 0) use(L{});
            if(s == 1) use(L{R{X, Y, X}, R{X, X, Y}});
            if(s == 2) use(L{R{X, Y, X}, R{X, X}});
            if(s == 3) use(L{R{X, Y}, R{X, X}, R{Y, Y}});
            if(s == 4) use(L{R{X, Y, X}, R{X, X, Y}, R{X, X, Y}});
            if(s == 5) use(L{R{X, Y}, R{X, X, Y}});
         };
         offer(s == 1, "fixed2.ctor(list)", str(s), [&] { build([&](L l) { FixedArray2D<T, 2, 3> z(l); }); });
         offer(s == 1, "fixed2.= list", str(s), [&] { build([&](L l) { f = l; }); });
         auto blk = d(place::all, place::all);
         bool same_shape = (s == 1 && p == 2 && q == 3) || (s == 3 && p == 3 && q == 2) || (s == 4 && p == 3 && q == 3);
         offer(same_shape, "2D.slice = list", str(s, " ", text), [&] { build([&](L l) { blk = l; }); });
      }
   }
   c.nontrivial = true;
}

////////////////////////////////////////////////////////////////////////////////////////////////////
// Operations on several arrays: their sizes must agree.
template <class T, class A, class B> void two(Case& c, A& a, B& b, bool ok, const std::string& text) {
   Rng& r = c.r;
   constexpr bool isbool = std::is_same_v<T, bool>;
   constexpr bool flt = std::is_floating_point_v<T>;
   constexpr bool one = std::remove_cvref_t<A>::dimension().val() == 1;
   auto touch = [&](const auto& e) {
      if(sz(e)) sink(e.un(0));
   };
   int k = int(r.below(8));
   c.note(u64(k));
   switch(k) {
   case 0:
      if constexpr(!isbool) {
         offer(ok, "a+b", text, [&] { touch(a + b); });
         offer(ok, "a-b", text, [&] { touch(a - b); });
         offer(ok, "a*b", text, [&] { touch(a * b); });
      } else {
         offer(ok, "a&b", text, [&] { touch(a & b); });
         offer(ok, "a^b", text, [&] { touch(a ^ b); });
         offer(ok, "a|b", text, [&] { touch(a | b); });
      }
      break;
   case 1:
      if constexpr(!isbool) {
         offer(ok, "a/b", text, [&] { touch(a / b); });
         if constexpr(!flt) {
            offer(ok, "a%b", text, [&] { touch(a % b); });
            offer(ok, "a<<b", text, [&] { touch(a << (b % S<T>(T(8)))); });
         }
      }
      break;
   case 2:
      offer(ok, "generate(a,b)", text, [&] { touch(spp::generate(a, b, [](auto x, auto) { return x; })); });
      offer(true, "a==b", text, [&] { sink(a == b); sink(a != b); sink(equal(a, b)); });
      break;
   case 3:
      offer(ok, "any_of(a,b)", text, [&] { sink(spp::any_of(a, b, [](auto x, auto y) { return x == y; })); });
      offer(ok, "all_of(a,b)", text, [&] { sink(spp::all_of(a, b, [](auto x, auto y) { return x == y; })); });
      offer(ok, "none_of(a,b)", text, [&] { sink(spp::none_of(a, b, [](auto x, auto y) { return x == y; })); });
      break;
   case 4:
      if constexpr(!isbool) {
         offer(ok, "dot_prod", text, [&] { sink(dot_prod(a, b)); });
         if constexpr(flt) {
            offer(ok, "semi_stable_dot_prod", text, [&] { sink(semi_stable_dot_prod(a, b)); });
            offer(ok, "stable_dot_prod", text, [&] { sink(stable_dot_prod(a, b)); });
         }
      }
      break;
   case 5:
      if constexpr(flt) {
         T tol = r.pick({T(0), T(1), T(-1), T(-0.), -std::numeric_limits<T>::min()});
         bool nonneg = tol >= T(0) || sz(a) == 0;
         offer(ok && nonneg, "within_tol_abs(a,b,tol)", str(text, " ", tol), [&] { sink(within_tol_abs(a, b, S<T>(tol))); });
         offer(ok && nonneg, "within_tol_rel(a,b,tol)", str(text, " ", tol), [&] { sink(within_tol_rel(a, b, S<T>(tol))); });
         offer(ok && nonneg, "within_tol_rel(a,b,1,zero)", str(text, " ", tol), [&] { sink(within_tol_rel(a, b, One<T>, S<T>(tol))); });
         offer(ok, "max_abs_error", text, [&] { sink(max_abs_error(a, b)); });
         offer(ok, "max_rel_error", text, [&] { (void)max_rel_error(a, b); });
      }
      break;
   case 6:
      if constexpr(one && !isbool) {
         offer(true, "merge", text, [&] { sink(merge(a, b).size()); });
         offer(true, "tensor_prod", text, [&] { sink(tensor_prod(a, b).rows()); });
      }
      if constexpr(!one) {
         i64 ra = a.rows().val(), ca = a.cols().val(), rb = b.rows().val(), cb = b.cols().val();
         bool any_empty = !ra || !rb;
         offer(any_empty || ra == rb, "merge_horizontal", text, [&] { sink(merge_horizontal(a, b).size()); });
         offer(any_empty || ca == cb, "merge_vertical", text, [&] { sink(merge_vertical(a, b).size()); });
         if constexpr(!isbool) {
            i64 len = r.chance(50) ? ca : std::max<i64>(0, ca + r.in(-1, 1));
            auto x = const1D<T>(long(len), One<T>);
            offer(len == ca, "matvec_prod", str(text, " by ", len), [&] { sink(matvec_prod(a, x).size()); });
         }
      }
      break;
   default:
      if constexpr(requires { a.begin(); b.begin(); a.begin() == a.end(); } && std::is_same_v<A, B>) {
         auto ia = a.begin();
         auto ib = b.begin();
         auto ic = a.end();
         decltype(a.begin()) none{};
         offer(false, "it==other", text, [&] { sink(ia == ib); });
         offer(false, "it-other", text, [&] { sink(ia - ib); });
         offer(false, "it<other", text, [&] { sink(ia < ib); });
         offer(false, "it>=other", text, [&] { sink(ib >= ia); });
         offer(true, "it==it", text, [&] { sink(ia == ic); sink(ic - ia); sink(ia <= ic); });
         offer(false, "default++", text, [&] { ++none; });
         offer(false, "*default", text, [&] { sink(*none); });
         offer(false, "default+n", text, [&] { none += 1; });
         offer(false, "default-it", text, [&] { sink(none - ia); });
      }
   }
   c.nontrivial = true;
}
template <class T> void pairs_1(Case& c) {
   Rng& r = c.r;
   i64 n = r.chance(30) ? 7 : rsize(r, 12);
   i64 m = r.chance(50) ? n : std::max<i64>(0, r.chance(50) ? n + r.in(-1, 1) : rsize(r, 12));
   auto v = rvec<T>(r, n, 1, 20);
   auto w = rvec<T>(r, m, 1, 20);
   pair1<T>(r, v, w, pairs1{}, [&](auto& a, auto& b) { two<T>(c, a, b, n == m, str(" sizes ", n, ",", m)); });
}
template <class T> void pairs_2(Case& c) {
   Rng& r = c.r;
   i64 p = r.chance(25) ? 3 : r.in(0, 5);
   i64 q = p == 0 ? 0 : r.chance(25) ? 4 : r.in(1, 5);
   i64 s = p, t = q;
   int w = int(r.below(8));
   if(w == 0) s = q, t = p;
   if(w == 1 && p) s = 1, t = p * q;
   if(w == 2) s = r.in(1, 5), t = q ? q : 1;
   if(w == 3) s = p ? p : 1, t = r.in(1, 5);
   if(w == 4) s = t = 0;
   auto v = rmat<T>(r, p, q, 1, 20);
   auto u = rmat<T>(r, s, t, 1, 20);
   pair2<T>(r, v, u, pairs2{}, [&](auto& a, auto& b) { two<T>(c, a, b, p == s && q == t, str(" shapes ", p, "x", q, ",", s, "x", t)); });
}

////////////////////////////////////////////////////////////////////////////////////////////////////
template <class T> void scalars(Case& c) {
   Rng& r = c.r;
   int k = int(r.below(6));
   c.note(u64(k));
   if constexpr(std::is_integral_v<T>) {
      T x = rnd<T>(r), y = r.chance(30) ? T(0) : rnd<T>(r);
      T s = T(r.in(0, 20)), t = T(r.in(0, 6));
      if(std::is_signed_v<T> && r.chance(25)) s = T(-s - 1);
      if(std::is_signed_v<T> && r.chance(25)) t = T(-t - 1);
      auto xy = str(x, ",", y);
      auto st = str(s, ",", t);
      bool nz = y != T(0);
      bool sh = !(s < T(0)) && !(t < T(0));
      if(k == 0) {
         offer(nz, "x/y", xy, [&] { sink(S<T>(x) / S<T>(y)); });
         offer(nz, "x/=y", xy, [&] { auto z = S<T>(x); z /= S<T>(y); });
         offer(nz, "x%y", xy, [&] { sink(S<T>(x) % S<T>(y)); });
         offer(nz, "x%=y", xy, [&] { auto z = S<T>(x); z %= S<T>(y); });
      } else if(k == 1) {
         offer(sh, "x<<y", st, [&] { sink(S<T>(s) << S<T>(t)); });
         offer(sh, "x<<=y", st, [&] { auto z = S<T>(s); z <<= S<T>(t); });
         offer(sh, "x>>y", st, [&] { sink(S<T>(s) >> S<T>(t)); });
         offer(sh, "x>>=y", st, [&] { auto z = S<T>(s); z >>= S<T>(t); });
      } else if(k == 2) {
         i64 n = r.in(1, 6);
         auto v = rvec<T>(r, n, 1, 9);
         auto w = rvec<T>(r, n, 1, 9);
         size_t bad = r.below(u64(n) * 2);
         if(bad < size_t(n)) w[bad] = T(0);
         bool ok = bad >= size_t(n);
         auto a = mk1<Array1D<T>>(v);
         auto b = mk1<Array1D<T, Aligned>>(w);
         auto text = str(show(v), show(w));
         offer(ok, "array/array", text, [&] { sink((a / b).eval().size()); });
         offer(ok, "array%array", text, [&] { sink((a % b).eval().size()); });
         offer(nz, "array/scalar", text, [&] { sink((a / S<T>(y)).eval().size()); });
         offer(ok, "scalar%array", text, [&] { sink((S<T>(x) % b).eval().size()); });
         offer(ok, "array/=array", text, [&] { auto q = a; q /= b; });
         offer(nz, "array%=scalar", text, [&] { auto q = a; q %= S<T>(y); });
      } else if(k == 3) {
         i64 n = r.in(1, 6);
         auto v = rvec<T>(r, n, 0, 9);
         auto w = rvec<T>(r, n, 0, 4);
         bool ok = true;
         if(std::is_signed_v<T> && r.chance(50)) {
            (r.chance(50) ? v : w)[r.below(u64(n))] = T(-1);
            ok = false;
         }
         auto a = mk1<Array1D<T>>(v);
         auto b = mk1<Array1D<T>>(w);
         auto text = str(show(v), show(w));
         offer(ok, "array<<array", text, [&] { sink((a << b).eval().size()); });
         offer(ok, "array>>array", text, [&] { sink((a >> b).eval().size()); });
         offer(ok, "array<<=array", text, [&] { auto q = a; q <<= b; });
         offer(ok, "array>>=array", text, [&] { auto q = a; q >>= b; });
      } else if(k == 4) {
         T b = T(r.in(0, 3)), p = T(r.in(0, 8));
         if(std::is_signed_v<T> && r.chance(40)) p = T(-p - 1);
         offer(!(p < T(0)), "pows(integer)", str(b, ",", p), [&] { sink(pows(S<T>(b), S<T>(p))); });
      } else {
         i64 n = r.chance(70) ? r.in(-2, 20) : -r.in(1, MAXL);
         offer(n >= 0, "factorial", str(n), [&] { sink(factorial(long(n))); });
         i64 p = r.in(-2, 20), q = r.in(-2, 22);
         offer(q >= 0 && p >= q, "binom_coeff", str(p, ",", q), [&] { sink(binom_coeff(long(p), long(q))); });
      }
   }
   if(k >= 4 || !std::is_integral_v<T>) {
      T lo = rnd<T>(r, 0, 20), hi = rnd<T>(r, 0, 20), x = rnd<T>(r, 0, 20);
      if(r.chance(25)) hi = lo;
      bool ok = lo <= hi;
      auto text = str("(", show<T>(x), ",", show<T>(lo), ",", show<T>(hi), ")");
      offer(ok, "clamps", text, [&] { sink(clamps(S<T>(x), S<T>(lo), S<T>(hi))); });
      offer(ok, "clamps.named", text, [&] { sink(clamps(S<T>(x), Low{lo}, High{hi})); });
      offer(ok, "in_open", text, [&] { sink(in_open(S<T>(x), S<T>(lo), S<T>(hi))); });
      offer(ok, "in_closed", text, [&] { sink(in_closed(S<T>(x), S<T>(lo), S<T>(hi))); });
      auto v = rvec<T>(r, r.in(0, 6), 0, 20);
      auto a = mk1<Array1D<T>>(v);
      offer(ok, "in_open_range", text, [&] { sink(in_open_range(a, S<T>(lo), S<T>(hi)).size()); });
      offer(ok, "in_closed_range", text, [&] { sink(in_closed_range(a, Low{lo}, High{hi}).size()); });
      if constexpr(std::is_floating_point_v<T>) {
         T nan = std::numeric_limits<T>::quiet_NaN();
         offer(false, "clamps(nan)", text, [&] { sink(clamps(S<T>(nan), S<T>(T(0)), S<T>(T(1)))); });
         T tol = r.pick({T(0), T(2), T(-1)});
         offer(tol >= T(0), "within_tol_abs", str(tol), [&] { sink(within_tol_abs(S<T>(x), S<T>(lo), S<T>(tol))); });
         offer(tol >= T(0), "within_tol_rel", str(tol), [&] { sink(within_tol_rel(S<T>(x), S<T>(lo), S<T>(tol))); });
         offer(tol >= T(0), "within_tol_rel.zero", str(tol), [&] { sink(within_tol_rel(S<T>(x), S<T>(lo), One<T>, S<T>(tol))); });
         i64 p = r.chance(70) ? r.in(-2, 6) : near(r, 4);
         if(p > 300) p = 3;
         auto b = mk1<Array1D<T>>(rvec<T>(r, r.in(1, 5), 1, 4));
         offer(p > 0, "norm_lp", str(p), [&] { sink(norm_lp(b, long(p))); });
         offer(p > 0, "norm_lp_scaled", str(p), [&] { sink(norm_lp_scaled(b, long(p))); });
         offer(p > 0, "stable_norm_lp", str(p), [&] { sink(stable_norm_lp(b, long(p))); });
         offer(p > 0, "stable_norm_lp_scaled", str(p), [&] { sink(stable_norm_lp_scaled(b, long(p))); });
         offer(p >= 0, "pow_prods", str(p), [&] { (void)pow_prods(S<T>(T(1.5)), long(p)); });
      }
   }
   c.nontrivial = true;
}

template <class T> void polynomials(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(0, 5);
   i64 m = r.chance(65) ? n : r.in(0, 5);
   i64 l = r.chance(65) ? n : r.in(0, 5);
   auto co = mk1<Array1D<T>>(rvec<T>(r, n, 0, 5));
   auto xs = mk1<Array1D<T>>(rvec<T>(r, l, 0, 3));
   auto pv = rvec<long>(r, m, 0, 4);
   bool neg = m && r.chance(30);
   if(neg) pv[r.below(u64(m))] = -r.in(1, 3);
   auto pw = mk1<Array1D<long>>(pv);
   Strict<T> x{T(2)};
   auto text = str(" coeffs ", n, " X ", l, " powers ", show(pv));
   auto all = [&](bool sizes) { return sizes && (n == 0 || !neg); };
   c.note(u64(n * 100 + m * 10 + l));
   offer(true, "polynomial", text, [&] { sink(polynomial(co, x)); });
   offer(all(n == m), "polynomial(powers)", text, [&] { sink(polynomial(co, x, pw)); });
   offer(all(n == m && n == l), "gpolynomial", text, [&] { sink(gpolynomial(co, xs, pw)); });
   if constexpr(std::is_floating_point_v<T>) {
      offer(all(n == m), "stable_polynomial(powers)", text, [&] { sink(stable_polynomial(co, x, pw)); });
      offer(all(n == m && n == l), "stable_gpolynomial", text, [&] { sink(stable_gpolynomial(co, xs, pw)); });
   }
   c.nontrivial = true;
}

// Functions that make arrays from numbers, ranges and generators.
template <class T> void makers(Case& c) {
   Rng& r = c.r;
   int k = int(r.below(9));
   c.note(u64(k));
   i64 n = r.chance(60) ? r.in(-3, 9) : near(r, 6);
   i64 m = r.chance(60) ? r.in(-3, 9) : near(r, 6);
   bool big = n > 1000 || m > 1000;
   T x = rnd<T>(r);
   auto nm = str("(", n, ",", m, ")");
   bool semi = n >= 0 && m >= 0 && (n == 0) == (m == 0);
   auto touch = [&](const auto& e) {
      if(sz(e) > 0) sink(e.un(0));
   };
   switch(k) {
   case 0:
      offer(n >= 0, "const1D", nm, [&] { touch(const1D<T>(long(n), S<T>(x))); });
      offer(n >= 0, "const1D.named", nm, [&] { touch(const1D(Size{long(n)}, Value{x})); });
      offer(n >= 0, "irange(n)", nm, [&] { sink(irange(long(n)).size()); });
      break;
   case 1:
      if(!big) offer(semi, "const2D", nm, [&] { touch(const2D<T>(long(n), long(m), S<T>(x))); });
      if(!big) offer(semi, "const2D.named", nm, [&] { touch(const2D(Rows{long(n)}, Cols{long(m)}, Value{x})); });
      break;
   case 2:
      offer(n >= 0 && m > n, "e_unit", nm, [&] { touch(e_unit<T>(long(n), long(m))); });
      offer(n >= 0 && m > n, "e_unit.named", nm, [&] { touch(e_unit<T>(Index{long(n)}, Size{long(m)})); });
      if(!big) offer(n >= 0, "identity", nm, [&] { touch(identity<T>(long(n))); });
      break;
   case 3:
      offer(n >= 0, "sequence", nm, [&] { touch(sequence(long(n), S<T>(x), One<T>)); });
      offer(n >= 0, "sequence.named", nm, [&] { touch(sequence(Size{long(n)}, Start{x}, Incr{T(1)})); });
      if constexpr(std::is_floating_point_v<T>) {
         offer(n > 0, "linspace", nm, [&] { touch(linspace(long(n), S<T>(x), One<T>)); });
         offer(n > 0, "linspace.named", nm, [&] { touch(linspace(Size{long(n)}, Start{x}, End{T(1)})); });
      }
      break;
   case 4:
      if(!big) {
         offer(n >= 0, "implicit_vector_sequence", nm, [&] { (void)implicit_vector_sequence(long(n), 3, 2); });
         offer(semi, "IndexRange2D", nm, [&] {
            i64 seen = 0;
            for(auto [i, j] : IndexRange2D{long(n), long(m)}) {
               sink(i);
               sink(j);
               ++seen;
            }
            CHECK(seen == n * m, "size", "IndexRange2D visited ", seen);
         });
         if(semi) {
            IndexRange2D range{long(n), long(m)};
            auto it = range.begin();
            for(i64 i = 0; i < n * m; ++i) ++it;
            offer(false, "plane.end++", nm, [&] { ++it; });
            offer(false, "*plane.end", nm, [&] { (void)*it; });
            IndexRange2D other{long(n + 1), long(m + 1)};
            offer(false, "plane==other", nm, [&] { sink(it == other.begin()); });
            offer(false, "plane!=other", nm, [&] { sink(other.end() != it); });
         }
      }
      break;
   case 5: {
      offer(n >= 0, "Size", nm, [&] { (void)Size{long(n)}; });
      offer(n >= 0, "Pos", nm, [&] { (void)Pos{long(n)}; });
      offer(n >= 0, "Count", nm, [&] { (void)Count{Strict<long>{long(n)}}; });
      offer(n >= 0, "First", nm, [&] { (void)First{long(n)}; });
      offer(n >= 0, "Endmost", nm, [&] { (void)Endmost{long(n)}; });
      offer(n >= 0, "Index", nm, [&] { (void)Index{long(n)}; });
      offer(n >= 0, "Rows", nm, [&] { (void)Rows{Strict<long>{long(n)}}; });
      offer(n >= 0, "Cols", nm, [&] { (void)Cols{long(n)}; });
      offer(true, "Stride", nm, [&] { (void)Stride{long(n)}; });
      break;
   }
   default: {   // ranges of generators
      T lo = rnd<T>(r, std::is_signed_v<T> ? -5 : 0, 5), hi = rnd<T>(r, std::is_signed_v<T> ? -5 : 0, 5);
      if(r.chance(20)) hi = lo;
      if(r.chance(15)) lo = hi = T(0);
      bool ok = lo <= hi;
      bool ok0 = ok && !(lo == T(0) && hi == T(0));
      auto text = str("(", show<T>(lo), ",", show<T>(hi), ")");
      auto L = S<T>(lo), H = S<T>(hi);
      Array1D<T> a(3);
      int form = int(r.below(5));
      if(form == 0) {
         offer(ok, "rands", text, [&] { sink(rands(L, H)); });
         offer(ok0, "rands_not0", text, [&] { sink(rands_not0(L, H)); });
         offer(ok, "semi_random(m,n,seed)", text, [&] { sink(semi_random(2, 3, L, H, Seed{1U}).size()); });
         offer(ok, "semi_rands", text, [&] { sink(semi_rands(L, H)); });
         offer(ok0, "semi_rands_not0", text, [&] { sink(semi_rands_not0(L, H)); });
      } else if(form == 1) {
         offer(ok, "random(a)", text, [&] { random(a, L, H); });
         offer(ok0, "random_not0(a)", text, [&] { random_not0(a, L, H); });
      } else if(form == 2) {
         offer(ok, "random(n)", text, [&] { sink(random(3, L, H).size()); });
         offer(ok0, "random_not0(n)", text, [&] { sink(random_not0(3, L, H).size()); });
         offer(ok, "random(m,n)", text, [&] { sink(random(2, 3, L, H).size()); });
         offer(ok0, "random_not0(m,n)", text, [&] { sink(random_not0(2, 3, L, H).size()); });
      } else if(form == 3) {
         offer(ok, "semi_random(a)", text, [&] { semi_random(a, L, H); });
         offer(ok0, "semi_random_not0(a)", text, [&] { semi_random_not0(a, L, H); });
         offer(ok, "semi_random(n)", text, [&] { sink(semi_random(3, L, H).size()); });
         offer(ok0, "semi_random_not0(n)", text, [&] { sink(semi_random_not0(3, L, H).size()); });
      } else if(!big) {
         offer(n >= 0 && ok, "random(n) size", str(nm, text), [&] { sink(random(long(n), L, H).size()); });
         offer(semi && ok, "random(m,n) size", str(nm, text), [&] { sink(random(long(n), long(m), L, H).size()); });
         offer(n >= 0 && ok, "semi_random(n) size", str(nm, text), [&] { sink(semi_random(long(n), L, H).size()); });
         offer(semi && ok0, "semi_random_not0(m,n) size", str(nm, text), [&] { sink(semi_random_not0(long(n), long(m), L, H).size()); });
      }
   }
   }
   c.nontrivial = true;
}

// Iterators that point nowhere, at the end, or into different arrays.
template <class It, class A> void iterator_pair(It x, It other, i64 n, const A& what) {
   It none{};
   auto at = str(" ", what, " of ", n);
   offer(false, "none.*", at, [&] { (void)*none; });
   offer(false, "none.[]", at, [&] { (void)none[0]; });
   offer(false, "none.++", at, [&] { ++none; });
   offer(false, "none.--", at, [&] { --none; });
   offer(false, "none.x++", at, [&] { (void)none++; });
   offer(false, "none.x--", at, [&] { (void)none--; });
   offer(false, "none.+=", at, [&] { none += 1; });
   offer(false, "none.-=", at, [&] { none -= 1; });
   offer(false, "none.+", at, [&] { (void)(none + 1); });
   offer(false, "none.1+", at, [&] { (void)(1 + none); });
   offer(false, "none.-", at, [&] { (void)(none - 1); });
   offer(false, "none.-none", at, [&] { (void)(none - none); });
   offer(false, "none.<", at, [&] { (void)(none < none); });
   offer(false, "none.>=", at, [&] { (void)(none >= none); });
   offer(false, "it-other", at, [&] { (void)(x - other); });
   offer(false, "it==other", at, [&] { (void)(x == other); });
   offer(false, "it!=other", at, [&] { (void)(other != x); });
   offer(false, "it<other", at, [&] { (void)(x < other); });
   offer(false, "it<=other", at, [&] { (void)(x <= other); });
   offer(false, "it>other", at, [&] { (void)(other > x); });
   offer(false, "it>=other", at, [&] { (void)(x >= other); });
   It same_place = x;
   offer(true, "it-it", at, [&] { CHECK(x - same_place == 0 && x == same_place && !(x != same_place) && x <= same_place && x >= same_place && !(x < same_place) && !(x > same_place), "iterator", "comparison with itself"); });
   auto e = x;
   offer(true, "it+n", at, [&] { e = x + long(n); });
   offer(false, "*end", at, [&] { (void)*e; });
   offer(true, "end+-", at, [&] { ++e; --e; e++; e--; e += 2; e -= 2; (void)(1 + e); (void)(e - 1); });
   offer(n > 0, "*begin", at, [&] { (void)*x; });
   offer(n > 0, "end[-1]", at, [&] { (void)e[-1]; });
}
template <class T> void iterators(Case& c) {
   Rng& r = c.r;
   i64 p = r.in(0, 4);
   i64 q = p ? r.in(1, 4) : 0;
   auto m = rmat<T>(r, p, q);
   auto a = mk2<Array2D<T>>(m);
   auto b = mk2<Array2D<T>>(m);
   auto v = rvec<T>(r, r.in(0, 5));
   auto u = mk1<Array1D<T>>(v);
   auto w = mk1<Array1D<T>>(v);
   i64 n = i64(v.size());
   int k = int(r.below(8));
   c.note(u64(k * 1000 + p * 100 + q * 10 + n));
   if(k == 0) {
      iterator_pair(u.begin(), w.begin(), n, "begin");
      auto it = u.begin();
      offer(n > 0, "it->", str(n), [&] { sink(it->val()); });
      it += long(n);
      offer(false, "end->", str(n), [&] { sink(it->val()); });
   }
   if(k == 1) {
      iterator_pair(std::as_const(u).begin(), std::as_const(w).begin(), n, "const begin");
      auto it = u.cbegin();
      offer(n > 0, "cit->", str(n), [&] { sink(it->val()); });
      it += long(n);
      offer(false, "cend->", str(n), [&] { sink(it->val()); });
   }
   if(k == 2) iterator_pair(a.begin(), b.begin(), p * q, "2D begin");
   if(k == 3) {
      RowIt x{a}, y{b};
      iterator_pair(x.begin(), y.begin(), p, "rows");
   }
   if(k == 4) {
      ColIt x{a}, y{b};
      iterator_pair(x.begin(), y.begin(), q, "columns");
   }
   if(k == 5) {
      RowIt x{std::as_const(a)}, y{std::as_const(b)};
      iterator_pair(x.begin(), y.begin(), p, "const rows");
   }
   if(k == 6) {
      ColIt x{std::as_const(a)}, y{std::as_const(b)};
      iterator_pair(x.begin(), y.begin(), q, "const columns");
   }
   if(k == 7) {
      i64 s = p, t = q;
      int which = int(r.below(3));
      if(which == 0 && s) ++s;
      if(which == 1 && s) ++t;
      bool same = s == p && t == q;
      IndexRange2D x{long(p), long(q)}, y{long(s), long(t)};
      auto text = str(p, "x", q, " and ", s, "x", t);
      auto it = x.begin();
      auto jt = y.end();
      offer(same, "plane==", text, [&] { sink(it == jt); });
      offer(same, "plane!=", text, [&] { sink(it != jt); });
      offer(same, "plane=", text, [&] { it = jt; });
      if(same) offer(false, "plane=end*", text, [&] { (void)*it; });
   }
   c.nontrivial = true;
}

// Compound operations on bits and assignments between objects of one type, of equal and different shapes.
template <class T> void bits(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(0, 5);
   i64 k = r.chance(50) ? n : r.in(0, 5);
   i64 p = r.in(1, 3), q = r.in(1, 3), s = r.chance(60) ? p : r.in(1, 3), t = r.chance(60) ? q : r.in(1, 3);
   if(r.chance(15)) s = q, t = p;
   auto a = mk1<Array1D<T>>(rvec<T>(r, n, 1, 9));
   auto b = mk1<Array1D<T, Aligned>>(rvec<T>(r, k, 1, 3));
   auto a2 = mk2<Array2D<T>>(rmat<T>(r, p, q, 1, 9));
   auto b2 = mk2<Array2D<T, Aligned>>(rmat<T>(r, s, t, 1, 3));
   c.note(u64(n * 10000 + k * 1000 + p * 100 + q * 10 + s) + u64(t) * 100000);
   auto one = [&](auto x, const auto& y, bool ok, const std::string& d, const std::string& text) {
      offer(ok, (d + "%=").c_str(), text, [&] { auto z = x; z %= y; });
      offer(ok, (d + "<<=").c_str(), text, [&] { auto z = x; z <<= y; });
      offer(ok, (d + ">>=").c_str(), text, [&] { auto z = x; z >>= y; });
      offer(ok, (d + "&=").c_str(), text, [&] { auto z = x; z &= y; });
      offer(ok, (d + "|=").c_str(), text, [&] { auto z = x; z |= y; });
      offer(ok, (d + "^=").c_str(), text, [&] { auto z = x; z ^= y; });
   };
   auto t1 = str(n, " by ", k), t2 = str(p, "x", q, " by ", s, "x", t);
   one(a, b, n == k, "", t1);
   one(a(place::reverse), b, n == k, "slice ", t1);
   one(a2, b2, p == s && q == t, "2D.", t2);
   one(a2(place::all, place::reverse), b2, p == s && q == t, "2D.slice ", t2);
   offer(n == k, "slice op slice", t1, [&] { a(place::all) &= b(place::reverse); });
   // Copies between lvalues of one type.
   auto same1 = mk1<Array1D<T>>(rvec<T>(r, k, 1, 3));
   offer(n == k, "lvalue = lvalue", t1, [&] { a = same1; });
   auto x = a(place::all);
   const auto y = same1(place::all);
   offer(n == k, "slice lvalue = lvalue", t1, [&] { x = y; });
   auto same2 = mk2<Array2D<T>>(rmat<T>(r, s, t, 1, 3));
   offer(p == s && q == t, "2D.lvalue = lvalue", t2, [&] { a2 = same2; });
   auto x2 = a2(place::all, place::all);
   const auto y2 = same2(place::all, place::all);
   offer(p == s && q == t, "2D.slice lvalue = lvalue", t2, [&] { x2 = y2; });
   c.nontrivial = true;
}

// Joining more than two matrices.
template <class T> void joins(Case& c) {
   Rng& r = c.r;
   i64 s[3][2];
   i64 rows = r.in(1, 3), cols = r.in(1, 3);
   for(auto& x : s) {
      x[0] = r.chance(70) ? rows : r.in(1, 3);
      x[1] = r.chance(70) ? cols : r.in(1, 3);
      if(r.chance(20)) x[0] = x[1] = 0;
   }
   auto agree = [&](int k) {
      i64 seen = 0;
      for(auto& x : s) {
         if(!x[0]) continue;
         if(seen && seen != x[k]) return false;
         seen = x[k];
      }
      return true;
   };
   auto A = mk2<Array2D<T>>(rmat<T>(r, s[0][0], s[0][1]));
   auto B = mk2<Array2D<T, Aligned>>(rmat<T>(r, s[1][0], s[1][1]));
   auto C = mk2<Array2D<T>>(rmat<T>(r, s[2][0], s[2][1]));
   auto text = str(s[0][0], "x", s[0][1], ",", s[1][0], "x", s[1][1], ",", s[2][0], "x", s[2][1]);
   c.note(std::hash<std::string>{}(text));
   offer(agree(0), "merge_horizontal(3)", text, [&] { sink(merge_horizontal(A, B, C).eval().size()); });
   offer(agree(1), "merge_vertical(3)", text, [&] { sink(merge_vertical(A, B, C).eval().size()); });
   c.nontrivial = true;
}
#endif

// Assignment from a temporary cannot throw: a wrong size ends the process.
#if !defined(STRICT_ERROR_EXCEPTIONS) && !defined(STRICT_DEBUG_OFF)
void moves(Case& c) {
   Rng& r = c.r;
   auto v = rvec<int>(r, r.in(0, 5));
   auto w = rvec<int>(r, r.in(0, 5));
   i64 p = r.in(1, 3), q = r.in(1, 3), s = r.in(1, 3), t = r.in(1, 3);
   c.note(v.size() * 10 + w.size());
   auto a = mk1<Array1D<int>>(v);
   auto b = mk1<Array1D<int>>(w);
   offer(v.size() == w.size(), "= temporary", str(v.size(), " from ", w.size()), [&] {
      a = Array1D<int>(b);
      expect1(a, w, "state", "moved contents");
   });
   Array2D<double> m(1L * p, 1L * q), n(1L * s, 1L * t);
   offer(p == s && q == t, "2D.= temporary", str(p, "x", q, " from ", s, "x", t), [&] { m = Array2D<double>(n); });
   c.nontrivial = true;
}
#endif

#ifdef WITH_EIGEN
template <class T> void eigen_sizes(Case& c) {
   Rng& r = c.r;
   i64 p = r.in(1, 4), q = r.in(1, 4), s = r.chance(60) ? q : r.in(1, 4), t = r.in(1, 4);
   i64 u = r.chance(70) ? p : r.in(1, 4), w = r.chance(70) ? t : r.in(1, 4);
   c.note(u64(p + 10 * q + 100 * s + 1000 * t + 10000 * u));
   auto a = mk2<Array2D<T>>(rmat<T>(r, p, q));
   auto b = mk2<Array2D<T, Aligned>>(rmat<T>(r, s, t));
   Array2D<T> o(1L * u, 1L * w);
   auto text = str(" ", p, "x", q, " by ", s, "x", t, " into ", u, "x", w);
   offer(q == s, "matrix_prod", text, [&] { sink(matrix_prod(a, b).size()); });
   offer(q == s && u == p && w == t, "matrix_prod(C)", text, [&] { matrix_prod(a, b, o); });
   c.nontrivial = true;
}
#endif

template <int K> using el = std::conditional_t<K % 4 == 0, double, std::conditional_t<K % 4 == 1, int, std::conditional_t<K % 4 == 2, float, long>>>;

template <int K> void one_kind(Case& c) {
   Rng& r = c.r;
   using T = el<K>;
   i64 n = K == 9 ? 7 : rsize(r, 14);
   auto v = rvec<T>(r, n);
   ev(kname1[K]);
   c.note(u64(n));
   hold1<K, T>(r, v, [&](auto& a) {
      always1<T>(c, a, v);
#ifndef STRICT_DEBUG_OFF
      for(int i = 0; i < 3; ++i) reads1<T>(c, a, v);
#endif
   });
}
template <int K> void two_kind(Case& c) {
   Rng& r = c.r;
   using T = el<K + 1>;
   i64 p = K == 8 ? 3 : r.in(0, 5);
   i64 q = K == 8 ? 4 : p ? r.in(1, 5) : 0;
   auto m = rmat<T>(r, p, q);
   ev(std::string("2D.") + kname2[K]);
   c.note(u64(p * 10 + q));
   hold2<K, T>(r, m, [&](auto& a) {
      always2<T>(c, a, m);
#ifndef STRICT_DEBUG_OFF
      for(int i = 0; i < 3; ++i) reads2<T>(c, a, m);
#endif
   });
}

int main(int argc, char** argv) {
   return h::run(argc, argv, [](Case& c) {
#if defined(WITH_EIGEN)
      if(c.r.chance(50)) eigen_sizes<double>(c);
      else eigen_sizes<int>(c);
#elif defined(STRICT_DEBUG_OFF)
      dispatch<19>(c, []<int K>(Case& cc) {
         if constexpr(K < 10) one_kind<K>(cc);
         else two_kind<K - 10>(cc);
      });
#elif !defined(STRICT_ERROR_EXCEPTIONS)
      dispatch<9>(c, []<int K>(Case& cc) {
         if constexpr(K == 0) one_kind<0>(cc);
         else if constexpr(K == 1) two_kind<0>(cc);
         else if constexpr(K == 2) owner1<double, Unaligned>(cc);
         else if constexpr(K == 3) owner2<int, Unaligned>(cc);
         else if constexpr(K == 4) pairs_1<double>(cc);
         else if constexpr(K == 5) scalars<int>(cc);
         else if constexpr(K == 6) scalars<double>(cc);
         else if constexpr(K == 7) moves(cc);
         else makers<double>(cc);
      });
#else
      dispatch<46>(c, []<int K>(Case& cc) {
         if constexpr(K < 10) one_kind<K>(cc);
         else if constexpr(K < 19) two_kind<K - 10>(cc);
         else if constexpr(K == 19) owner1<int, Unaligned>(cc);
         else if constexpr(K == 20) owner1<double, Aligned>(cc);
         else if constexpr(K == 21) owner1<unsigned long, Unaligned>(cc);
         else if constexpr(K == 22) owner1<bool, Unaligned>(cc);
         else if constexpr(K == 23) owner2<long, Unaligned>(cc);
         else if constexpr(K == 24) owner2<float, Aligned>(cc);
         else if constexpr(K == 25) owner2<bool, Unaligned>(cc);
         else if constexpr(K == 26) fixed<int>(cc);
         else if constexpr(K == 27) fixed<double>(cc);
         else if constexpr(K == 28) pairs_1<double>(cc);
         else if constexpr(K == 29) pairs_1<int>(cc);
         else if constexpr(K == 30) pairs_2<float>(cc);
         else if constexpr(K == 31) pairs_2<unsigned>(cc);
         else if constexpr(K == 32) scalars<int>(cc);
         else if constexpr(K == 33) scalars<long>(cc);
         else if constexpr(K == 34) scalars<unsigned>(cc);
         else if constexpr(K == 35) scalars<double>(cc);
         else if constexpr(K == 36) polynomials<double>(cc);
         else if constexpr(K == 37) polynomials<int>(cc);
         else if constexpr(K == 38) makers<double>(cc);
         else if constexpr(K == 39) makers<int>(cc);
         else if constexpr(K == 40) iterators<double>(cc);
         else if constexpr(K == 41) iterators<int>(cc);
         else if constexpr(K == 42) bits<int>(cc);
         else if constexpr(K == 43) bits<unsigned long>(cc);
         else if constexpr(K == 44) joins<double>(cc);
         else joins<int>(cc);
      });
#endif
   });
}
