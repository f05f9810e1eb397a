// P31: what a report says.  Every invalid call is judged for the kind of violation named, the place named and
// the life of the text; valid calls beside them must not report.  With exceptions the report is the exception,
// without them it is what appears on standard error before the abort.
#include "hostile.hpp"
#include <sys/wait.h>
#include <fstream>
using namespace h;
using namespace spp;

// Kinds the library distinguishes.
enum Kind { any_kind = -1, none, range, division, modulo, first, second, input, path, nkinds };
static const char* text_of[] = {"", "OUT OF RANGE!", "INTEGER DIVISION BY 0!", "MODULO DIVISION BY 0!", "FIRST SHIFT OPERAND HAS A NEGATIVE VALUE!",
                                "SECOND SHIFT OPERAND HAS A NEGATIVE VALUE!", "Invalid input.", "Invalid file path."};
static const char* short_of[] = {"plain", "range", "division", "modulo", "first", "second", "input", "path"};

void judge(const char* what, const std::string& args, Kind k, std::string_view t) {
   if(k == any_kind) return;
   for(int i = 1; i < nkinds; ++i) {
      bool says = t.find(text_of[i]) != t.npos;
      CHECK(says == (i == k), str("kind ", what), what, args, ": the report ", says ? "says " : "does not say ", text_of[i], ": ", std::string(t).substr(0, 300));
   }
}

#ifdef STRICT_ERROR_EXCEPTIONS
constexpr bool reports_by_exception = true;
// Number of lines of a file, -1 if there is none.
i64 lines_of(const std::string& f) {
   static std::map<std::string, i64> known;
   auto it = known.find(f);
   if(it != known.end()) return it->second;
   std::ifstream is(f);
   i64 n = is ? 0 : -1;
   for(std::string s; is && std::getline(is, s);) ++n;
   return known[f] = n;
}
// <kind>File: <file>, function: <function>, line: <line>:\n<condition> failed, exception thrown.
void place_named(const char* what, const std::string& t) {
   auto key = str("place ", what);
   size_t a = t.find("File: "), b = t.find(", function: "), d = t.find(", line: ");
   CHECK(a != t.npos && b != t.npos && d != t.npos && a < b && b < d, key, what, ": the report does not name its place: ", t.substr(0, 300));
   std::string file = t.substr(a + 6, b - a - 6), func = t.substr(b + 12, d - b - 12);
   size_t e = t.find(":\n", d + 8);
   CHECK(e != t.npos, key, what, ": no end of the line number: ", t.substr(0, 300));
   std::string num = t.substr(d + 8, e - d - 8), cond = t.substr(e + 2);
   CHECK(!num.empty() && num.size() < 7 && std::all_of(num.begin(), num.end(), [](unsigned char x) { return std::isdigit(x); }), key, what, ": line '", num, "'");
   i64 n = lines_of(file), l = std::stol(num);
   CHECK(n > 0, key, what, ": there is no file '", file, "'");
   CHECK(file.find("strictpp") != file.npos, key, what, ": '", file, "' is not one of the library's files");
   CHECK(l >= 1 && l <= n, key, what, ": ", file, " has ", n, " lines, line ", l, " is named");
   CHECK(!func.empty() && func.find('\n') == func.npos && !std::isdigit((unsigned char)func[0]), key, what, ": function '", func, "'");
   constexpr std::string_view end = " failed, exception thrown.";
   CHECK(cond.size() > end.size() && cond.ends_with(end), key, what, ": the condition is not stated: ", cond.substr(0, 200));
   ev(str("site ", file.substr(file.rfind('/') + 1), ":", l));
}
#else
constexpr bool reports_by_exception = false;
#endif

// Calls f, which must report a violation of kind k if it is not valid.
void want(Rng& r, bool valid, Kind k, const char* what, const std::string& args, const std::function<void()>& f) {
#ifdef STRICT_DEBUG_OFF
   bool always = std::string_view(what).starts_with("always ");
   if(!always && !valid) return;
#endif
   ev(str(what, valid ? " valid" : " invalid"));
   if(!valid && k >= 0) ev(str("kind ", short_of[k]));
#ifdef STRICT_ERROR_EXCEPTIONS
   std::ostringstream out, err;
   auto *o = std::cout.rdbuf(out.rdbuf()), *e = std::cerr.rdbuf(err.rdbuf());
   std::exception_ptr p;
   std::string seen;
   int form = int(r.below(4)), reports = 0;
   bool right = true;
   try {
      if(form == 0) {
         try {
            f();
         } catch(const StrictException& x) {
            ++reports;
            seen = x.what();
            StrictException y{x};   // a copy says the same
            right = y.what() == seen && x.what() == seen;
            StrictException z{"other"};
            z = y;
            right = right && z.what() == seen;
            throw;
         }
      } else if(form == 1) {
         try {
            f();
         } catch(std::exception& x) {
            ++reports;
            seen = x.what();
            p = std::current_exception();
            right = dynamic_cast<StrictException*>(&x) != nullptr;
         }
      } else {
         f();
      }
   } catch(const StrictException& x) {
      if(form == 0) right = right && x.what() == seen;
      else ++reports;
      const char* text = x.what();
      seen = text;
      // another exception in the meantime does not change what this one said
      StrictException later{std::string(r.chance(2) ? 3 : seen.size(), '#')};
      right = right && std::string(later.what()) != seen && text == seen;
      p = std::current_exception();
   } catch(...) {
      std::cout.rdbuf(o), std::cerr.rdbuf(e);
      fail(str("exception ", what), str(what, args, ": an exception of another type"));
      return;
   }
   std::cout.rdbuf(o), std::cerr.rdbuf(e);
   CHECK(reports == (valid ? 0 : 1), str("reported ", what), what, args, ": ", valid ? "a valid" : "an invalid", " call ", reports ? "reported: " : "did not report ", seen.substr(0, 300));
   CHECK(out.str().empty() && err.str().empty(), str("output ", what), what, args, ": printed '", (out.str() + err.str()).substr(0, 200), "'");
   if(valid) return;
   CHECK(right, str("text ", what), what, args, ": the text of the exception or of its copy changed, or its type is another");
   std::vector<std::string> churn;   // other texts in between
   for(int i = 0; i < 4; ++i) churn.emplace_back(size_t(r.in(1, 200)), 'x');
   try {
      std::rethrow_exception(p);
   } catch(const std::exception& x) {
      CHECK(x.what() == seen, str("text later ", what), what, args, ": the text changed to '", std::string(x.what()).substr(0, 200), "'");
   }
   judge(what, args, k, seen);
   if(k > 0) CHECK(seen.starts_with(text_of[k]), str("starts ", what), what, args, ": the report does not start with its kind: ", seen.substr(0, 200));
   place_named(what, seen);
#else
   int fd[2];
   if(::pipe(fd)) std::_Exit(3);
   pid_t p = ::fork();
   if(p < 0) std::_Exit(3);
   if(p == 0) {
      std::signal(SIGABRT, SIG_DFL);
      arm(0);
      ::dup2(fd[1], 2);
      ::dup2(fd[1], 1);
      ::close(fd[0]), ::close(fd[1]);
      f();
      ::_exit(0);
   }
   ::close(fd[1]);
   std::string seen;
   char buf[4096];
   for(ssize_t n; (n = ::read(fd[0], buf, sizeof buf)) > 0;) seen.append(buf, size_t(n));
   ::close(fd[0]);
   int st = 0;
   ::waitpid(p, &st, 0);
   bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0, aborted = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
   CHECK(valid ? ok : aborted, str("reported ", what), what, args, ": ", valid ? "a valid" : "an invalid", " call ", ok ? "returned" : aborted ? "aborted" : "died otherwise", " ", seen.substr(0, 300));
   if(valid) {
      CHECK(seen.empty(), str("output ", what), what, args, ": printed ", seen.substr(0, 200));
      return;
   }
   judge(what, args, k, seen);
   CHECK(seen.find("strictpp") != seen.npos, str("place ", what), what, args, ": no place is named: ", seen.substr(0, 300));
#endif
}

template <class T> constexpr T lowest = std::numeric_limits<T>::lowest();

template <class T> void index1(Case& c) {
   Rng& r = c.r;
   i64 n = r.chance(15) ? 7 : r.in(0, 9);
   auto v = rvec<T>(r, n, 1, 60);
   i64 i = near(r, n);
   int form = int(r.below(4));
   c.note(u64(form) * 7919 + u64(i) * 31 + u64(n));
   auto args = str("(", i, " of ", n, ")");
   any1(r, v, all1{}, [&](auto& a) {
      const auto& ca = a;
      index_forms(r, i, n, [&](auto k) {
         bool in = inside(i, n);
         if(form == 0) want(r, in, range, "index", args, [&] { (void)a[k]; });
         else if(form == 1) want(r, in, range, "const index", args, [&] { (void)ca[k]; });
         else if(form == 2) want(r, in, range, "always at", args, [&] { (void)a.at(k); });
         else want(r, in, range, "always const at", args, [&] { (void)ca.at(k); });
      });
   });
}
template <class T> void iter1(Case& c) {
   Rng& r = c.r;
   i64 n = r.chance(15) ? 7 : r.in(0, 9);
   auto v = rvec<T>(r, n, 1, 60);
   i64 i = r.chance(70) ? r.in(-2, n + 2) : r.in(-1000, 1000), from = r.in(0, n);
   int form = int(r.below(5));
   c.note(u64(form) * 7919 + u64(i) * 31 + u64(n));
   auto args = str("(", i, " of ", n, " from ", from, ")");
   any1(r, v, all1{}, [&](auto& a) {
      const auto& ca = a;
      bool in = inside(i, n);
      if(form == 0) want(r, in, range, "iterator[]", args, [&] { (void)(a.begin() + from)[i - from]; });
      else if(form == 1) want(r, in, range, "const_iterator[]", args, [&] { (void)(ca.cbegin() + from)[i - from]; });
      else if(form == 2) want(r, in, range, "iterator*", args, [&] { (void)*(a.begin() + i); });
      else if(form == 3) want(r, in, range, "const_iterator*", args, [&] { (void)*(ca.cbegin() + i); });
      else if constexpr(std::is_lvalue_reference_v<decltype(*a.begin())>) want(r, in, range, "iterator->", args, [&] { (void)(a.begin() + i).operator->(); });
   });
}
template <class T> void index2(Case& c) {
   Rng& r = c.r;
   i64 nr = r.in(1, 5), nc = r.in(1, 5);
   if(r.chance(10)) nr = 3, nc = 4;
   auto m = rmat<T>(r, nr, nc, 1, 60);
   i64 i = near(r, nr), j = near(r, nc);
   int form = int(r.below(4));
   c.note(u64(form) * 7919 + u64(i) * 31 + u64(j) * 7 + u64(nr));
   auto args = str("(", i, ", ", j, " of ", nr, "x", nc, ")");
   any2(r, m, all2{}, [&](auto& a) {
      const auto& ca = a;
      bool in = inside(i, nr) && inside(j, nc);
      auto go = [&](auto k, auto l) {
         if(form == 0) want(r, in, range, "index 2D", args, [&] { (void)a(k, l); });
         else if(form == 1) want(r, in, range, "const index 2D", args, [&] { (void)ca(k, l); });
         else if(form == 2) want(r, in, range, "always at 2D", args, [&] { (void)a.at(k, l); });
         else want(r, in, range, "always const at 2D", args, [&] { (void)ca.at(k, l); });
      };
      if(r.chance(50)) go(long(i), long(j));
      else if(i > -1000 && i < 1000 && j > -1000 && j < 1000) r.chance(50) ? go(place::last - long(nr - 1 - i), long(j)) : go(int(i), place::last - long(nc - 1 - j));
      else go(Strict<long>{long(i)}, long(j));
   });
}

// One operation on x and y: which kind of violation it commits.
template <class T> Kind commits(int op, T x, T y) {
   if(op == 0) return y == 0 ? division : none;
   if(op == 1) return y == 0 ? modulo : none;
   if constexpr(std::is_signed_v<T>) {
      if(x < 0 && y < 0) return any_kind;
      return x < 0 ? first : y < 0 ? second : none;
   }
   return none;
}
static const char* op_name[] = {"/", "%", "<<", ">>"};
template <int OP> auto apply(auto const& x, auto const& y) {
   if constexpr(OP == 0) return x / y;
   else if constexpr(OP == 1) return x % y;
   else if constexpr(OP == 2) return x << y;
   else return x >> y;
}
template <int OP> void update(auto& x, auto const& y) {
   if constexpr(OP == 0) x /= y;
   else if constexpr(OP == 1) x %= y;
   else if constexpr(OP == 2) x <<= y;
   else x >>= y;
}
// Operands: mostly harmless, sometimes the offending one.
template <class T> T left(Rng& r, bool bad, int op) {
   if(op >= 2 && bad && std::is_signed_v<T>) return r.chance(30) ? lowest<T> : T(-r.in(1, 99));
   return op >= 2 ? T(r.in(0, 99)) : r.chance(20) ? std::numeric_limits<T>::max() : T(r.in(0, 99));
}
template <class T> T right(Rng& r, bool bad, int op) {
   if(op < 2) return bad ? T(0) : T(r.in(1, 20));
   if(bad && std::is_signed_v<T>) return r.chance(30) ? lowest<T> : T(-r.in(1, 99));
   return T(r.in(0, 20));
}
template <class T, int OP> void scalar(Case& c) {
   Rng& r = c.r;
   bool bx = r.chance(25), by = r.chance(35);
   T x = left<T>(r, bx, OP), y = right<T>(r, by, OP);
   Kind k = commits(OP, x, y);
   c.note(u64(x) * 31 + u64(y));
   auto args = str(" ", show(x), " ", op_name[OP], " ", show(y));
   if(r.chance(50)) want(r, k == none, k, "scalar", args, [&] { auto z = apply<OP>(S(x), S(y)); (void)z; });
   else want(r, k == none, k, "scalar compound", args, [&] { auto z = S(x); update<OP>(z, S(y)); });
}
// Arrays: element i is harmless except one.
template <class T, int OP> void arrays(Case& c) {
   Rng& r = c.r;
   i64 n = r.chance(15) ? 7 : r.in(1, 9), at = r.in(0, n - 1);
   bool bx = r.chance(30), by = r.chance(40);
   std::vector<T> v, w;
   for(i64 i = 0; i < n; ++i) {
      v.push_back(left<T>(r, bx && i == at, OP));
      w.push_back(right<T>(r, by && i == at, OP));
   }
   i64 probe = r.chance(70) ? at : r.in(0, n - 1);
   Kind k = commits(OP, v[size_t(at)], w[size_t(at)]), kp = commits(OP, v[size_t(probe)], w[size_t(probe)]);
   int form = int(r.below(8));
   c.note(u64(form) * 7919 + u64(n) * 31 + u64(at) * 7 + u64(probe) + u64(v[0]) * 17 + u64(w[0]));
   auto args = str(" ", op_name[OP], " form ", form, " of ", n, " at ", at, " probe ", probe);
   using some = kinds<0, 2, 5, 9>;
   if(form < 3)
      pair1(r, v, w, kinds<0x00, 0x12, 0x24, 0x37, 0x99>{}, [&](auto& a, auto& b) {
         if(form == 0) want(r, kp == none, kp, "element of expression", args, [&] { auto e = apply<OP>(a, b); auto z = e[long(probe)]; (void)z; });
         else if(form == 1) want(r, k == none, k, "evaluated expression", args, [&] { (void)apply<OP>(a, b).eval(); });
         else want(r, k == none, k, "assigned expression", args, [&] { Array1D<T> z(1L * n); z = apply<OP>(a, b); });
      });
   else if(form == 3)
      any1(r, w, all1{}, [&](auto& b) {
         want(r, k == none, k, "array compound", args, [&] { auto a = mk1<Array1D<T>>(v); update<OP>(a, b); });
      });
   else if(form == 4) {
      // one scalar on the right: every element is divided by it
      T s = right<T>(r, by, OP);
      Kind q = none;
      for(T x : v)
         if(q == none) q = commits(OP, x, s);
      bool mixed = OP >= 2 && bx && by;
      any1(r, v, all1{}, [&](auto& a) { want(r, q == none, mixed ? any_kind : q, "expression and scalar", args, [&] { (void)apply<OP>(a, S(s)).eval(); }); });
   } else if(form == 5) {
      T s = right<T>(r, by, OP);
      Kind q = none;
      for(T x : v)
         if(q == none) q = commits(OP, x, s);
      bool mixed = OP >= 2 && bx && by;
      auto a0 = mk1<Array1D<T>>(v);
      auto f7 = mk1<Array1D<T, Aligned>>(v);
      if(r.chance(50)) want(r, q == none, mixed ? any_kind : q, "compound scalar", args, [&] { update<OP>(a0, S(s)); });
      else want(r, q == none, mixed ? any_kind : q, "slice compound scalar", args, [&] { auto s1 = f7(place::reverse); update<OP>(s1, S(s)); });
   } else if(form == 6) {
      T s = left<T>(r, bx, OP);
      Kind q = none;
      for(T y : w)
         if(q == none) q = commits(OP, s, y);
      bool mixed = OP >= 2 && bx && by;
      any1(r, w, some{}, [&](auto& b) { want(r, q == none, mixed ? any_kind : q, "scalar and expression", args, [&] { (void)apply<OP>(S(s), b).eval(); }); });
   } else {
      // two-dimensional, and inside a reduction
      Mat<T> mv(1, n), mw(1, n);
      mv.d = v, mw.d = w;
      auto a = mk2<Array2D<T>>(mv);
      auto b = mk2<Array2D<T, Aligned>>(mw);
      if(r.chance(50)) want(r, k == none, k, "compound 2D", args, [&] { update<OP>(a, b); });
      else want(r, k == none, k, "reduced 2D", args, [&] { (void)max(apply<OP>(a, b)); });
   }
}

static const std::string scratch_file = str("p31_", long(::getpid()), ".txt");
template <class T> void text(Case& c) {
   Rng& r = c.r;
   int form = int(r.below(6));
   bool bad = r.chance(50);
   i64 n = r.in(1, 6), at = r.in(0, n - 1);
   static const char* junk[] = {"x", "1x", "--1", "1,2", "*", "+-3", "1;", "q9", "/"};
   const char* wrong = junk[r.below(std::size(junk))];
   std::string s;
   for(i64 i = 0; i < n; ++i) s += (bad && i == at ? std::string(wrong) : str(r.in(1, 99))) + (r.chance(30) ? "  " : " ");
   c.note(std::hash<std::string>{}(s) + u64(form));
   auto args = str("('", s, "')");
   std::string file = scratch_file, missing = "p31_none/no/such/file.txt";
   Array1D<T> a(1L * r.in(0, 3));
   Array2D<T> m(2, 2);
   std::istringstream is(s);
   if(form == 0) want(r, !bad, input, "always read 1D", args, [&] { is >> a; });
   else if(form == 1) want(r, !bad, input, "always read 2D", args, [&] { is >> m; });
   else if(form == 2) {
      std::ofstream(file) << s;
      want(r, !bad, input, "always read file 1D", args, [&] { read_from_file(file, a); });
   } else if(form == 3) {
      std::ofstream(file) << s << "\n" << s << "\n";
      want(r, !bad, input, "always read file 2D", args, [&] { read_from_file(file, m); });
   } else if(form == 4) {
      std::ofstream(file) << "1 2\n";
      int d = int(r.below(2));
      want(r, !bad, path, "always missing file", str("(", d, ")"), [&] { d ? read_from_file(bad ? missing : file, a) : read_from_file(bad ? missing : file, m); });
   } else {
      int d = int(r.below(2));
      want(r, !bad, path, "always unwritable file", str("(", d, ")"), [&] { d ? print_to_file(bad ? missing : file, a) : print_to_file(bad ? missing : file, m); });
   }
}

// Violations without a kind of their own: the place and the condition are named.
template <class T> void others(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(0, 7), k = r.in(-3, 9), q = r.in(0, 9);
   c.note(u64(n * 1000 + k * 30 + q));
   auto a = mk1<Array1D<T>>(rvec<T>(r, n, 1, 9));
   auto b = mk1<Array1D<T>>(rvec<T>(r, q, 1, 9));
   i64 nr = r.in(1, 4), nc = r.in(1, 4);
   auto m = mk2<Array2D<T>>(rmat<T>(r, nr, nc, 1, 9));
   bool same_n = n == q;
   auto s = str("(n=", n, " k=", k, " q=", q, ")");
   int op = int(r.below(17));
   ev(str("other ", op));
   switch(op) {
   case 0: want(r, same_n, none, "assign", s, [&] { a = b; }); break;
   case 1: want(r, same_n, none, "expression", s, [&] { (void)(a + b).eval(); }); break;
   case 2:
      if constexpr(!reports_by_exception) want(r, same_n, none, "move assign", s, [&] { a = std::move(b); });   // cannot throw
      break;
   case 3: want(r, k >= 0, none, "resize", s, [&] { a.resize(long(k)); }); break;
   case 4: want(r, k >= 0 && k <= n, none, "insert", s, [&] { a.insert(long(k), b); }); break;
   case 5: want(r, inside(k, n), none, "remove", s, [&] { a.remove(long(k)); }); break;
   case 6: want(r, inside(k, nr), none, "remove_row", s, [&] { m.remove_row(long(k)); }); break;
   case 7: want(r, inside(k, nc), any_kind, "col", s, [&] { (void)m.col(long(k)); }); break;
   case 8: want(r, inside(k, nr), any_kind, "row", s, [&] { (void)m.row(long(k)); }); break;
   case 9: want(r, k >= 0 && k <= q && q < n, any_kind, "seq", s, [&] { (void)a(seq{long(k), long(q)}); }); break;
   case 10: want(r, inside(k, n), any_kind, "list", s, [&] { (void)a(implicit({0, k})); }); break;
   case 11: want(r, same_n, none, "dot_prod", s, [&] { (void)dot_prod(a, b); }); break;
   case 12: want(r, k >= 0, none, "construct", s, [&] { Array1D<T> x(1L * k); }); break;
   case 13: want(r, (k > 0 && q > 0) || (k == 0 && q == 0), none, "construct 2D", s, [&] { Array2D<T> x(1L * k, 1L * q); }); break;
   case 14: want(r, T(k) <= T(q), none, "random range", s, [&] { (void)rands(S<T>(T(k)), S<T>(T(q))); }); break;
   case 15: want(r, inside(k, n), any_kind, "exclude", s, [&] { (void)exclude(a, long(k)).eval(); }); break;
   case 16: want(r, k > 0 && k * q == nr * nc, none, "always view2D", s, [&] { (void)m.view2D(long(k), long(q)); }); break;
   }
}

void configuration(Case& c) {
   std::ostringstream out;
   auto* o = std::cout.rdbuf(out.rdbuf());
   print_config_info();
   std::cout.rdbuf(o);
   auto t = out.str();
   auto says = [&](const char* what, const char* value) {
      std::istringstream is(t);
      bool found = false;
      for(std::string l; std::getline(is, l);)
         if(l.find(what) != l.npos && l.find(value) != l.npos) found = true;
      CHECK(found, str("configuration ", what), "the configuration in force is ", what, " ", value, ", reported: ", t);
   };
#ifdef STRICT_DEBUG_OFF
   says("mode", "RELEASE");
#else
   says("mode", "DEBUG");
#endif
#ifdef STRICT_ERROR_EXCEPTIONS
   says("error handling", "EXCEPTIONS");
#else
   says("error handling", "ASSERTIONS");
#endif
#ifdef STRICT_QUAD_PRECISION
   says("quadruple", "ON");
#else
   says("quadruple", "OFF");
#endif
#ifdef STRICT_STACKTRACE
   says("stacktrace", "ON");
#else
   says("stacktrace", "OFF");
#endif
   ev("configuration");
   c.note(1);
}

template <class T> void one(Case& c) {
   int k = int(c.r.below(100));
   c.nontrivial = true;
   if(k < 12) index1<T>(c);
   else if(k < 22) iter1<T>(c);
   else if(k < 32) index2<T>(c);
   else if(k < 42) text<T>(c);
   else if(k < 55) others<T>(c);
   else if(k < 56) configuration(c);
   else if constexpr(std::is_integral_v<T>) {
      int op = int(c.r.below(4));
      bool arr = c.r.chance(65);
      [&]<int... OP>(kinds<OP...>) {
         (void)((OP == op && (arr ? arrays<T, OP>(c) : scalar<T, OP>(c), true)) || ...);
      }(kinds<0, 1, 2, 3>{});
   } else index1<T>(c);
}

int main(int argc, char** argv) {
   leak_monitor = false;
   int e = h::run(argc, argv, [](Case& c) {
      dispatch<5>(c, []<int K>(Case& c) { one<std::tuple_element_t<K, std::tuple<int, long, unsigned, unsigned long, double>>>(c); });
   });
   ::unlink(scratch_file.c_str());
   return e;
}
