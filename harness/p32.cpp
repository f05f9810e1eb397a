// P32: timers, against a clock this program owns.  clock_gettime is replaced: the wall clocks show the time the
// case sets (every one of them advances by the same amount), the CPU clocks are the system's.
#include "common.hpp"
#include <sys/syscall.h>
#include <sys/time.h>
using namespace h;
using namespace spp;

static i64 fake = 0;          // nanoseconds
static bool faking = false;
static u64 asked = 0;         // how often the library looked at the clock
static i64 tick = 0;          // the clock advances by itself with every look
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
   bool wall = id == CLOCK_REALTIME || id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_REALTIME_COARSE || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME;
   if(!faking || !wall) return int(::syscall(SYS_clock_gettime, id, ts));
   ++asked;
   i64 base = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? 0 : -777'000'000'000;   // each has its own origin
   i64 t = fake + base;
   fake += tick;
   ts->tv_sec = t / 1'000'000'000, ts->tv_nsec = t % 1'000'000'000;
   return 0;
}
struct Faking {
   Faking(Rng& r) { fake = r.in(1'000'000'000'000, 1'900'000'000'000'000'000), tick = 0, asked = 0, faking = true; }
   ~Faking() { faking = false; }
};

i64 interval(Rng& r) {
   switch(r.below(7)) {
   case 0: return 0;
   case 1: return r.in(1, 999);
   case 2: return r.in(1'000, 999'999);
   case 3: return r.in(1'000'000, 999'999'999);
   case 4: return r.in(1, 100'000) * 1'000'000'000;
   case 5: return i64(r.in(1, 2'000'000'000)) * 3 + 1'000'000'000'000;   // over a quarter of an hour
   default: return r.in(0, 50'000'000'000'000'000);                        // up to a year and a half
   }
}
bool close(double got, i64 ns) {
   long double e = (long double)ns / 1e9L;
   return std::abs((long double)got - e) <= 4 * std::numeric_limits<double>::epsilon() * e;
}

// A history of several timers.
void history(Case& c) {
   Rng& r = c.r;
   Faking f(r);
   struct M {
      timer t;
      i64 from;
   };
   std::vector<M> ts;
   ts.push_back({timer{}, fake});
   std::string log_;
   i64 steps = r.in(3, 40);
   u64 sig = 0;
   for(i64 s = 0; s < steps; ++s) {
      int op = int(r.below(7));
      size_t i = size_t(r.below(ts.size()));
      sig = sig * 31 + u64(op) * 7 + i;
      if(op == 0) {
         i64 d = interval(r);
         if(fake + d < 8'000'000'000'000'000'000) fake += d;
         log_ += str("+", d, " ");
         sig += u64(d);
      } else if(op == 1 && ts.size() < 6) {
         ts.push_back({timer{}, fake});
         log_ += "new ";
         ev("timer");
      } else if(op == 2) {
         ts[i].t.restart(), ts[i].from = fake;
         log_ += str("restart ", i, " ");
         ev("restart");
      } else if(op == 3 && ts.size() < 6) {
         M m{ts[i].t, ts[i].from};   // a copy goes on from the same start, independently
         ts.push_back(m);
         log_ += str("copy ", i, " ");
         ev("copy");
      } else if(op == 4) {
         size_t j = size_t(r.below(ts.size()));
         ts[i].t = ts[j].t, ts[i].from = ts[j].from;
         log_ += str(i, "=", j, " ");
         ev("assign");
      }
      for(size_t k = 0; k < ts.size(); ++k) {
         const timer& t = ts[k].t;
         Strict64 w = t.wall_time();
         CHECK(close(w.val(), fake - ts[k].from), "wall_time", "timer ", k, " shows ", w.val(), " s after ", fake - ts[k].from, " ns; ", log_);
         CHECK(same_bits(t.wall_time().val(), w.val()), "wall_time twice", "timer ", k, " differs when asked again: ", log_);
      }
   }
   c.note(sig);
   c.nontrivial = steps > 8;
   ev("history");
}

// STRICT_TIME runs its statement once, reports its duration, and leaves everything else alone.
std::string printed(i64 ns) {
   char b[64];
   std::snprintf(b, sizeof b, "%.4e", double(ns) / 1e9);
   return b;
}
template <class F> void timed(Rng& r, const char* text, i64 ns, int want_throw, F f) {
   std::ostringstream out;
   auto* old = std::cout.rdbuf(out.rdbuf());
   auto flags = std::cout.flags();
   auto prec = std::cout.precision();
   auto fill = std::cout.fill();
   if(r.chance(50)) std::cout.setf(std::ios::showpos), std::cout.precision(int(r.in(0, 12)));
   if(r.chance(50)) std::cout.setf(std::ios::fixed, std::ios::floatfield);
   auto fl = std::cout.flags();
   auto pr = std::cout.precision();
   bool threw = false;
   try {
      f();
   } catch(int) {
      threw = true;
   }
   bool kept = std::cout.flags() == fl && std::cout.precision() == pr && std::cout.fill() == fill;
   std::cout.rdbuf(old);
   std::cout.flags(flags), std::cout.precision(prec);
   CHECK(threw == bool(want_throw), "STRICT_TIME throws", text, ": the exception of the statement ", threw ? "appeared" : "was lost");
   CHECK(kept, "STRICT_TIME format", text, ": the format of std::cout changed");
   std::string want = want_throw ? "" : str(text, " took: ", printed(ns), " seconds\n");
   CHECK(out.str() == want, "STRICT_TIME text", "printed '", out.str(), "' expected '", want, "'");
   ev("STRICT_TIME");
}
void statements(Case& c) {
   Rng& r = c.r;
   Faking f(r);
   i64 d = interval(r);
   int form = int(r.below(7));
   c.note(u64(d) * 8 + u64(form));
   int runs = 0;
   auto work = [&](i64 x) { ++runs, fake += x; return 5; };
   if(form == 0) timed(r, "work(d)", d, 0, [&] { STRICT_TIME(work(d)); });
   else if(form == 1) {
      i64 y = 0;
      timed(r, "y = work(d) + 1", d, 0, [&] { STRICT_TIME(y = work(d) + 1); });
      CHECK(y == 6, "STRICT_TIME effect", "y = ", y);
   } else if(form == 2) {
      timed(r, "for(int i = 0; i < 3; ++i) work(d / 4)", d / 4 * 3, 0, [&] { STRICT_TIME(for(int i = 0; i < 3; ++i) work(d / 4)); });
      CHECK(runs == 3, "STRICT_TIME runs", "the loop ran ", runs, " times");
      runs = 1;
   } else if(form == 3) timed(r, "work(d); throw 1", d, 1, [&] { STRICT_TIME(work(d); throw 1); });
   else if(form == 4) {
      // usable as one statement
      bool yes = r.chance(50);
      timed(r, yes ? "work(d)" : "work(d + 1)", yes ? d : d + 1, 0, [&] {
         if(yes)
            STRICT_TIME(work(d));
         else
            STRICT_TIME(work(d + 1));
      });
   } else if(form == 5) {
      auto a = mk1<Array1D<double>>(std::vector<double>(4, 2.));
      Array1D<double> b(1L * 4);
      timed(r, "b = a * a; work(d)", d, 0, [&] { STRICT_TIME(b = a * a; work(d)); });
      expect1(b, std::vector<double>{4, 4, 4, 4}, "STRICT_TIME array", "b");
   } else {
      // names of the caller mean what they mean there
      i64 t = d, stream = 1, time = 2, start = 3;
      timed(r, "t += work(t) + stream + time + start", d, 0, [&] { STRICT_TIME(t += work(t) + stream + time + start); });
      CHECK(t == d + 11, "STRICT_TIME names", "t = ", t);
      ev("caller's names");
   }
   CHECK(runs == 1, "STRICT_TIME runs", "the statement ran ", runs, " times");
   c.nontrivial = true;
}
// The real clock: between two of the program's own looks at it.
void real(Case& c) {
   Rng& r = c.r;
   auto now = [] { timespec a; ::syscall(SYS_clock_gettime, CLOCK_REALTIME, &a); return double(a.tv_sec) * 1 + double(a.tv_nsec) / 1e9; };
   double a0 = now();
   timer t;
   double a1 = now();
   volatile long x = 0;
   for(i64 i = r.in(0, 200000); i; --i) x = x + 1;
   double b0 = now();
   double w = t.wall_time().val();
   double b1 = now();
   // The clock of the machine may be set meanwhile, then nothing is known.
   if(a1 >= a0 && b0 >= a1 && b1 >= b0 && b1 - a0 < 60) {
      CHECK(w >= b0 - a1 - 2e-6 && w <= b1 - a0 + 2e-6, "real time", "shows ", w, " between ", b0 - a1, " and ", b1 - a0);
      ev("real clock");
   }
   c.note(r.next());
}

int main(int argc, char** argv) {
   return h::run(argc, argv, [](Case& c) {
      int k = int(c.r.below(20));
      if(k < 10) history(c);
      else if(k < 19) statements(c);
      else real(c);
   });
}
