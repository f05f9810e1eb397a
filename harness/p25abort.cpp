// P25: without exceptions every invalid call ends the program by abort(), a valid one does not; each is
// made in a child process.
#include "operands.hpp"
#include <sys/wait.h>
using namespace h;
using namespace spp;

// How f ends: 0 returned, 1 aborted, 2 anything else.
template <class F> int ending(F f) {
   pid_t p = ::fork();
   if(p < 0) {
      std::perror("fork");
      std::_Exit(3);
   }
   if(p == 0) {
      std::signal(SIGABRT, SIG_DFL);
      arm(0);
      int fd = ::open("/dev/null", O_WRONLY);
      ::dup2(fd, 2);
      f();
      ::_exit(0);
   }
   int st = 0;
   ::waitpid(p, &st, 0);
   if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
   if(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return 1;
   return 2;
}
inline const char* how[] = {"returned", "aborted", "died otherwise"};
template <class F> void want(bool valid, const char* what, const std::string& args, F f) {
#ifdef STRICT_DEBUG_OFF
   bool always = std::string(what).starts_with("always ");
   if(!always && !valid) return;   // unchecked
#endif
   int e = ending(f);
   CHECK(e == (valid ? 0 : 1), str("ending ", what), what, args, ": ", valid ? "a valid" : "an invalid", " call ", how[e]);
   ev(str(what, valid ? " valid" : " invalid"));
}

template <class T> void calls(Case& c) {
   Rng& r = c.r;
   i64 n = r.in(0, 7), k = r.in(-3, 9), q = r.in(-3, 9);
   c.note(u64(n * 1000 + k * 30 + q));
   auto v = rvec<T>(r, n, 1, 9);
   auto a = mk1<Array1D<T>>(v);
   auto b = mk1<Array1D<T>>(rvec<T>(r, q < 0 ? 0 : q, 1, 9));
   i64 nr = r.in(1, 4), nc = r.in(1, 4);
   auto m = mk2<Array2D<T>>(rmat<T>(r, nr, nc, 1, 9));
   bool in = k >= 0 && k < n, same_n = n == sz(b);
   auto s = str("(n=", n, " k=", k, " q=", q, ")");
   switch(r.below(24)) {
   case 0: want(in, "index", s, [&] { (void)a[long(k)]; }); break;
   case 1: want(in, "always at", s, [&] { (void)a.at(long(k)); }); break;
   case 2: want(k >= 0 && k < nr && q >= 0 && q < nc, "always at 2D", s, [&] { (void)m.at(long(k), long(q)); }); break;
   case 3: want(k >= 0 && k < nr && q >= 0 && q < nc, "index 2D", s, [&] { (void)m(long(k), long(q)); }); break;
   case 4: want(same_n, "assign", s, [&] { a = b; }); break;
   case 5: want(same_n, "expression", s, [&] { (void)(a + b).eval(); }); break;
   case 6: want(same_n, "move assign", s, [&] { a = std::move(b); }); break;
   case 7: want(k >= 0, "resize", s, [&] { a.resize(long(k)); }); break;
   case 8: want(k >= 0 && k <= n, "insert", s, [&] { a.insert(long(k), b); }); break;
   case 9: want(in, "remove", s, [&] { a.remove(long(k)); }); break;
   case 10: want(k >= 0 && k < nr, "remove_row", s, [&] { m.remove_row(long(k)); }); break;
   case 11: want(k >= 0 && k < nc, "col", s, [&] { (void)m.col(long(k)); }); break;
   case 12: want(k >= 0 && q >= 0 && k <= q && q < n, "seq", s, [&] { (void)a(seq{long(k), long(q)}); }); break;
   case 13: want(in, "list", s, [&] { (void)a(implicit({0, k})); }); break;
   case 14: {
      bool zero = r.chance(50);
      if constexpr(std::is_integral_v<T>) want(!zero, "division", s, [&] { auto x = S<T>(T(5)) / S<T>(T(zero ? 0 : 2)); (void)x; });
      else want(true, "division", s, [&] { auto x = S<T>(T(5)) / S<T>(T(zero ? 0 : 2)); (void)x; });
      break;
   }
   case 15:
      if constexpr(std::is_integral_v<T>) want(k != 0, "remainder", s, [&] { auto x = S<T>(T(5)) % S<T>(T(k)); (void)x; });
      break;
   case 16:
      if constexpr(std::is_integral_v<T>) want(k >= 0, "shift", s, [&] { auto x = S<T>(T(5)) << S<T>(T(k)); (void)x; });
      break;
   case 17: {
      std::istringstream is(r.chance(50) ? "1 2 x" : "1 2 3");
      bool ok = is.str().back() == '3';
      want(ok, "always read", s, [&] { is >> a; });
      break;
   }
   case 18: want(same_n, "dot_prod", s, [&] { (void)dot_prod(a, b); }); break;
   case 19: want(k >= 0, "construct", s, [&] { Array1D<T> x(1L * k); }); break;
   case 20: want((k > 0 && q > 0) || (k == 0 && q == 0), "construct 2D", s, [&] { Array2D<T> x(1L * k, 1L * q); }); break;
   case 21: want(k <= q, "random range", s, [&] { (void)rands(S<T>(T(k)), S<T>(T(q))); }); break;
   case 22: want(in, "exclude", s, [&] { (void)exclude(a, long(k)).eval(); }); break;
   case 23: want(k * q == nr * nc && k > 0, "always view2D", s, [&] { if(k < 0 && q < 0) std::abort(); (void)m.view2D(long(k), long(q)); }); break;
   }
   c.nontrivial = true;
}

int main(int argc, char** argv) {
   leak_monitor = false;
   return h::run(argc, argv, [](Case& c) {
      dispatch<2>(c, []<int K>(Case& c) {
         if constexpr(K == 0) calls<int>(c);
         else calls<double>(c);
      });
   });
}
