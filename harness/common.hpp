// Shared runtime of the monitors: seeded cases, event counters, verdict recording, crash/hang capture.
#pragma once
#include <strictpp/strict.hpp>

#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define H_SANITIZED 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define H_SANITIZED 1
#endif
#ifdef H_SANITIZED
extern "C" void __sanitizer_set_death_callback(void (*cb)());
#endif
#if defined(__SANITIZE_ADDRESS__)
#define H_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define H_ASAN 1
#endif
#endif
#ifdef H_ASAN
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#endif

// Kinds of workload of one harness, spread over separately compiled parts (-DPART=i -DNPARTS=n).
#ifndef PART
#define PART 0
#define NPARTS 1
#endif

namespace h {

using u64 = std::uint64_t;
using i64 = std::int64_t;

inline u64 mix(u64 z) {
   z += 0x9e3779b97f4a7c15ULL;
   z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
   z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
   return z ^ (z >> 31);
}

struct Rng {
   u64 s;
   explicit Rng(u64 seed) : s(seed) {}
   u64 next() {
      s += 0x9e3779b97f4a7c15ULL;
      u64 z = s;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
      return z ^ (z >> 31);
   }
   u64 below(u64 n) { return n ? next() % n : 0; }
   i64 in(i64 lo, i64 hi) {
      if(hi < lo) {
         std::fprintf(stderr, "harness: empty range\n");
         std::_Exit(3);
      }
      return lo + i64(below(u64(hi - lo) + 1)); }
   bool chance(int pct) { return below(100) < u64(pct); }
   double unit() { return double(next() >> 11) * 0x1.0p-53; }
   template <class C> auto& pick(C& c) { return c[below(std::size(c))]; }
   template <class T> T pick(std::initializer_list<T> l) { return l.begin()[below(l.size())]; }
};

struct Violation {
   std::string key, msg;
   u64 id;
};

struct State {
   u64 seed = 1, cases = 0, shard = 0, nshards = 1;
   i64 only = -1;
   std::string out;
   const char* tier = "quick";
   // progress
   u64 evaluations = 0, checks = 0;
   std::unordered_set<u64> distinct;
   u64 nontrivial = 0;
   struct Ev {
      char name[56];
      u64 n;
   };
   std::vector<Ev> ev;   // reserved up front: counting must not allocate (leak monitor)
   std::vector<std::string> samples;
   std::vector<Violation> viol;
   std::vector<std::pair<u64, u64>> digests;   // results of cases, compared with other builds by the driver
   bool text = false;                          // print the transcript behind the digest
   std::set<std::string> keys;
   u64 cur = 0;
   bool in_case = false;
   std::string desc;     // history of the current case
   const char* where = "";
};
inline State g;

struct CaseFail {};

inline std::string esc(const std::string& s) {
   std::string r;
   for(unsigned char ch : s) {
      if(ch == '"' || ch == '\\') {
         r += '\\';
         r += char(ch);
      } else if(ch == '\n') {
         r += "\\n";
      } else if(ch < 32 || ch > 126) {
         char b[8];
         std::snprintf(b, sizeof b, "\\u%04x", ch);
         r += b;
      } else {
         r += char(ch);
      }
   }
   return r;
}

// Minimal emergency report: no allocation.
inline void emergency(const char* key) {
   if(g.out.empty()) {
      return;
   }
   int fd = ::open(g.out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
   if(fd < 0) {
      return;
   }
   static char buf[1 << 16];
   int n = std::snprintf(buf, sizeof buf,
                         "{\"complete\":false,\"evaluations\":%llu,\"viol\":[{\"key\":\"%s\",\"case\":%llu,\"msg\":\"",
                         (unsigned long long)g.evaluations, key, (unsigned long long)g.cur);
   const char* p = g.desc.c_str();
   size_t len = g.desc.size();
   size_t start = len > 6000 ? len - 6000 : 0;
   for(size_t i = start; i < len && n < 60000; ++i) {
      char ch = p[i];
      if(ch == '"' || ch == '\\') {
         buf[n++] = '\\';
         buf[n++] = ch;
      } else if(ch == '\n') {
         buf[n++] = '\\';
         buf[n++] = 'n';
      } else if(ch < 32 || ch > 126) {
         buf[n++] = '?';
      } else {
         buf[n++] = ch;
      }
   }
   n += std::snprintf(buf + n, sizeof buf - size_t(n), "\"}]}\n");
   if(::write(fd, buf, size_t(n)) < 0) {
   }
   ::close(fd);
}

inline volatile std::sig_atomic_t reported = 0;

inline void on_death() {
   if(!reported) {
      reported = 1;
      emergency("sanitizer");
   }
}
inline void on_abort(int) {
   if(!reported) {
      reported = 1;
      emergency("abort");
   }
   ::_exit(98);
}
inline void on_segv(int) {
   if(!reported) {
      reported = 1;
      emergency("crash");
   }
   ::_exit(97);
}

// CPU-time watchdog of a single case: fires as HANG, which the driver treats as inconclusive until
// it has been repeated.
inline void on_prof(int) {
   if(!reported) {
      reported = 1;
      emergency("hang");
   }
   ::_exit(96);
}
inline int watchdog_s = 60;
inline bool leak_monitor = true;
inline void arm(int sec) {
   itimerval t{};
   t.it_value.tv_sec = sec;
   setitimer(ITIMER_PROF, &t, nullptr);
}

inline void ev(const char* name, u64 n = 1) {
   for(auto& e : g.ev) {
      if(std::strncmp(e.name, name, sizeof e.name - 1) == 0) {
         e.n += n;
         return;
      }
   }
   if(g.ev.size() < g.ev.capacity()) {
      State::Ev e{};
      std::strncpy(e.name, name, sizeof e.name - 1);
      e.n = n;
      g.ev.push_back(e);
   }
}
inline void ev(const std::string& name, u64 n = 1) {
   ev(name.c_str(), n);
}

inline void log(const std::string& s) {
   if(g.desc.size() < 20000) {
      g.desc += s;
      g.desc += "; ";
   }
}
template <class... A>
std::string str(const A&... a) {
   std::ostringstream os;
   os.precision(17);
   ((os << a), ...);
   return os.str();
}
template <class... A>
void logs(const A&... a) {
   if(g.desc.size() < 20000) {
      log(str(a...));
   }
}

inline void record(const std::string& key, const std::string& msg) {
   if(g.keys.insert(key).second && g.viol.size() < 50) {
      g.viol.push_back({key, msg + "  | history: " + g.desc.substr(g.desc.size() > 6000 ? g.desc.size() - 6000 : 0), g.cur});
   }
}
[[noreturn]] inline void fail(const std::string& key, const std::string& msg) {
   record(key, msg);
   throw CaseFail{};
}

#define CHECK(cond, key, ...)                                                                      \
   do {                                                                                            \
      ++h::g.checks;                                                                               \
      if(!(cond)) {                                                                                \
         h::fail(key, h::str(__VA_ARGS__, "  [", #cond, " at ", __FILE__, ":", __LINE__, "]"));     \
      }                                                                                            \
   } while(0)

struct Case {
   u64 id;
   Rng r;
   u64 sig = 0;
   bool nontrivial = false;
   void note(u64 x) { sig = mix(sig ^ x); }
   void note(const std::string& s) { note(std::hash<std::string>{}(s)); }
};

// Runs f; true if the library reported an error. Anything else thrown is a failure.
template <class F>
bool throws(F&& f) {
   try {
      f();
      return false;
   } catch(const spp::StrictException&) {
      return true;
   }
}

inline void finish() {
   if(g.out.empty()) {
      return;
   }
   FILE* f = std::fopen(g.out.c_str(), "w");
   if(!f) {
      std::perror("out");
      std::_Exit(3);
   }
   std::fprintf(f, "{\"complete\":true,\"evaluations\":%llu,\"checks\":%llu,\"nontrivial\":%llu,\"distinct\":[",
                (unsigned long long)g.evaluations, (unsigned long long)g.checks,
                (unsigned long long)g.nontrivial);
   bool first = true;
   for(auto x : g.distinct) {
      std::fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)x);
      first = false;
   }
   std::fprintf(f, "],\"ev\":{");
   first = true;
   for(auto& e : g.ev) {
      std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(e.name).c_str(), (unsigned long long)e.n);
      first = false;
   }
   std::fprintf(f, "},\"samples\":[");
   first = true;
   for(auto& s : g.samples) {
      std::fprintf(f, "%s\"%s\"", first ? "" : ",", esc(s).c_str());
      first = false;
   }
   std::fprintf(f, "],\"digests\":{");
   first = true;
   for(auto& d : g.digests) {
      std::fprintf(f, "%s\"%llu\":\"%016llx\"", first ? "" : ",", (unsigned long long)d.first, (unsigned long long)d.second);
      first = false;
   }
   std::fprintf(f, "},\"viol\":[");
   first = true;
   for(auto& v : g.viol) {
      std::fprintf(f, "%s{\"key\":\"%s\",\"case\":%llu,\"msg\":\"%s\"}", first ? "" : ",", esc(v.key).c_str(),
                   (unsigned long long)v.id, esc(v.msg).c_str());
      first = false;
   }
   std::fprintf(f, "]}\n");
   std::fclose(f);
}

inline int run(int argc, char** argv, const std::function<void(Case&)>& fn) {
   for(int i = 1; i + 1 < argc; i += 2) {
      std::string k = argv[i];
      std::string v = argv[i + 1];
      if(k == "--seed") g.seed = std::strtoull(v.c_str(), nullptr, 10);
      if(k == "--cases") g.cases = std::strtoull(v.c_str(), nullptr, 10);
      if(k == "--shard") g.shard = std::strtoull(v.c_str(), nullptr, 10);
      if(k == "--nshards") g.nshards = std::strtoull(v.c_str(), nullptr, 10);
      if(k == "--only") g.only = std::strtoll(v.c_str(), nullptr, 10);
      if(k == "--out") g.out = v;
      if(k == "--text") g.text = v == "1";
      if(k == "--tier") g.tier = v == "thorough" ? "thorough" : "quick";
      if(k == "--watchdog") watchdog_s = std::atoi(v.c_str());
   }
   g.desc.reserve(32768);
#ifdef H_SANITIZED
   __sanitizer_set_death_callback(on_death);
#else
   std::signal(SIGSEGV, on_segv);
   std::signal(SIGBUS, on_segv);
   std::signal(SIGFPE, on_segv);
   std::signal(SIGILL, on_segv);
#endif
   std::signal(SIGABRT, on_abort);
   std::signal(SIGPROF, on_prof);

   g.ev.reserve(4096);
   u64 lo = g.only >= 0 ? u64(g.only) : g.shard;
   u64 hi = g.only >= 0 ? u64(g.only) + 1 : g.cases;
   u64 step = g.only >= 0 ? 1 : g.nshards;
   for(u64 id = lo; id < hi; id += step) {
      g.cur = id;
      Case c{id, Rng(0), 0, false};
      std::size_t leaked = 0;
      // A case that ends with more live heap than it began with is repeated: only growth on every
      // repetition is a leak (the first run may initialise lazily created statics).
      for(int attempt = 0; attempt < 3; ++attempt) {
         g.desc.clear();
         c = Case{id, Rng(mix(mix(g.seed) ^ mix(id * 2 + 1) ^ mix(PART + 1000))), 0, false};
         arm(watchdog_s);
         auto nviol = g.viol.size();
         bool failed = false;
#ifdef H_ASAN
         std::size_t before = __sanitizer_get_current_allocated_bytes();
#endif
         try {
            fn(c);
         } catch(const CaseFail&) {
            failed = true;
         } catch(const spp::StrictException& e) {
            record("unexpected-error", str("a valid call reported an error: ", e.what()));
         } catch(const std::exception& e) {
            record("unexpected-exception", str("unexpected exception: ", e.what()));
         } catch(...) {
            record("unexpected-exception", "unexpected exception of unknown type");
         }
         if(failed || g.viol.size() != nviol) {
            leaked = 0;
            break;
         }
#ifdef H_ASAN
         std::size_t after = __sanitizer_get_current_allocated_bytes();
         leaked = leak_monitor && after > before ? after - before : 0;
#endif
         if(!leaked) {
            break;
         }
      }
      if(leaked) {
         record("leak", str("the case ends with ", leaked, " more bytes of live heap than it began with, on every repetition"));
      }
      ++g.evaluations;
      if(c.nontrivial) {
         ++g.nontrivial;
         g.distinct.insert(c.sig);
         if(g.samples.size() < 3) {
            g.samples.push_back(str("case ", id, ": ", g.desc.substr(0, 600)));
         }
      }
      if(g.only >= 0) {
         std::fprintf(stderr, "case %llu: %s\n", (unsigned long long)id, g.desc.c_str());
      }
      if(g.viol.size() >= 20) {
         break;
      }
   }
   arm(0);
   for(auto& v : g.viol) {
      std::fprintf(stderr, "FAIL key=%s case=%llu %s\n", v.key.c_str(), (unsigned long long)v.id, v.msg.c_str());
   }
   finish();
   return g.viol.empty() ? 0 : 1;
}

template <int N, class F> void dispatch(Case& c, F f) {
   constexpr int mine = (N - PART + NPARTS - 1) / NPARTS;
   static_assert(mine > 0);
   int k = int(c.r.below(u64(mine))) * NPARTS + PART;
   c.note(u64(k) + 77);
   auto go = [&]<int K>() {
      if constexpr(K % NPARTS == PART) {
         if(k == K) {
            f.template operator()<K>(c);
         }
      }
   };
   [&]<int... K>(std::integer_sequence<int, K...>) {
      (go.template operator()<K>(), ...);
   }(std::make_integer_sequence<int, N>{});
}

//////////////////////////////////////////////////////////////////////////////////////////////////
// Helpers over library objects. They read through un(), which is itself monitored by P28/P07/P08.
using spp::index_t;
using IV = i64;

inline index_t ix(i64 i) {
   return index_t{static_cast<long>(i)};
}
template <class A> i64 sz(const A& a) {
   return a.size().val();
}
template <class A> using bt = typename std::remove_cvref_t<A>::builtin_type;

template <class T> bool same(T a, T b) {
   if constexpr(std::is_same_v<T, bool> || std::is_integral_v<T>) {
      return a == b;
   } else {
      return a == b || (a != a && b != b);
   }
}
// As same(), telling +0 from -0.
template <class T> bool same_bits(T a, T b) {
   if constexpr(std::is_floating_point_v<T>) {
      return (a != a && b != b) || (a == b && std::signbit((long double)a) == std::signbit((long double)b));
   } else {
      return same(a, b);
   }
}

template <class T> std::string show(T x) {
   if constexpr(std::is_same_v<T, bool>) {
      return x ? "true" : "false";
   } else if constexpr(std::is_integral_v<T>) {
      return std::to_string(x);
   } else {
      char b[64];
      std::snprintf(b, sizeof b, "%.36Lg", (long double)x);
      return b;
   }
}
template <class T> std::string show(const std::vector<T>& v) {
   std::string s = "[";
   for(size_t i = 0; i < v.size() && i < 40; ++i) {
      s += (i ? "," : "") + show<T>(v[i]);
   }
   if(v.size() > 40) {
      s += ",..." + std::to_string(v.size());
   }
   return s + "]";
}

template <class T> struct Mat {
   i64 r = 0, c = 0;
   std::vector<T> d;
   Mat() = default;
   Mat(i64 rr, i64 cc) : r(rr), c(cc), d(size_t(rr * cc)) {}
   decltype(auto) operator()(i64 i, i64 j) { return d[size_t(i * c + j)]; }
   T operator()(i64 i, i64 j) const { return d[size_t(i * c + j)]; }
   i64 size() const { return r * c; }
};
template <class T> std::string show(const Mat<T>& m) {
   return std::to_string(m.r) + "x" + std::to_string(m.c) + show(m.d);
}

template <class A> std::vector<bt<A>> vec(const A& a) {
   i64 n = sz(a);
   std::vector<bt<A>> v;
   v.reserve(size_t(n));
   for(i64 i = 0; i < n; ++i) {
      v.push_back(a.un(long(i)).val());
   }
   return v;
}
template <class A> Mat<bt<A>> mat(const A& a) {
   Mat<bt<A>> m;
   m.r = a.rows().val();
   m.c = a.cols().val();
   for(i64 i = 0; i < m.r; ++i) {
      for(i64 j = 0; j < m.c; ++j) {
         m.d.push_back(a.un(long(i), long(j)).val());
      }
   }
   return m;
}
template <class T> bool eq(const std::vector<T>& a, const std::vector<T>& b) {
   if(a.size() != b.size()) {
      return false;
   }
   for(size_t i = 0; i < a.size(); ++i) {
      if(!same_bits<T>(a[i], b[i])) {
         return false;
      }
   }
   return true;
}
template <class T> bool eq(const Mat<T>& a, const Mat<T>& b) {
   return a.r == b.r && a.c == b.c && eq(a.d, b.d);
}
template <class A> A mk1(const std::vector<bt<A>>& v) {
   A a(long(v.size()));
   for(size_t i = 0; i < v.size(); ++i) {
      a.un(long(i)) = spp::Strict<bt<A>>{bt<A>(v[i])};
   }
   return a;
}
template <class A> A mk2(const Mat<bt<A>>& m) {
   A a(long(m.r), long(m.c));
   for(i64 i = 0; i < m.r; ++i) {
      for(i64 j = 0; j < m.c; ++j) {
         a.un(long(i), long(j)) = spp::Strict<bt<A>>{m(i, j)};
      }
   }
   return a;
}
template <class A> void fill1(A&& a, const std::vector<bt<A>>& v) {
   for(size_t i = 0; i < v.size(); ++i) {
      a.un(long(i)) = spp::Strict<bt<A>>{bt<A>(v[i])};
   }
}
template <class A> void fill2(A&& a, const Mat<bt<A>>& m) {
   for(i64 i = 0; i < m.r; ++i) {
      for(i64 j = 0; j < m.c; ++j) {
         a.un(long(i), long(j)) = spp::Strict<bt<A>>{m(i, j)};
      }
   }
}
template <class T> T rnd(Rng& r, i64 lo = -50, i64 hi = 50) {
   if constexpr(std::is_same_v<T, bool>) {
      return r.chance(50);
   } else if constexpr(std::is_unsigned_v<T>) {
      return T(r.in(lo < 0 ? 0 : lo, hi));
   } else if constexpr(std::is_integral_v<T>) {
      return T(r.in(lo, hi));
   } else {
      return T(double(r.in(lo * 8, hi * 8)) / 8.);
   }
}
template <class T> std::vector<T> rvec(Rng& r, i64 n, i64 lo = -50, i64 hi = 50) {
   std::vector<T> v;
   for(i64 i = 0; i < n; ++i) {
      v.push_back(rnd<T>(r, lo, hi));
   }
   return v;
}
template <class T> Mat<T> rmat(Rng& r, i64 n, i64 m, i64 lo = -50, i64 hi = 50) {
   Mat<T> v(n, m);
   for(auto&& x : v.d) {
      x = rnd<T>(r, lo, hi);
   }
   return v;
}
// Sizes biased to the small and the special, occasionally large.
inline i64 rsize(Rng& r, i64 big = 70) {
   int k = int(r.below(100));
   if(k < 8) return 0;
   if(k < 16) return 1;
   if(k < 60) return r.in(2, std::min<i64>(9, big));
   if(k < 90 || big < 34) return r.in(std::min<i64>(10, big), std::min<i64>(33, big));
   if(k == 99 && big >= 70) return r.in(71, 600);
   return r.in(34, big);
}

template <class A, class V> void expect1(const A& a, const V& m, const char* key, const std::string& what) {
   auto v = vec(a);
   CHECK(eq(v, m), key, what, ": got ", show(v), " expected ", show(m));
}
template <class A, class M> void expect2(const A& a, const M& m, const char* key, const std::string& what) {
   auto v = mat(a);
   CHECK(eq(v, m), key, what, ": got ", show(v), " expected ", show(m));
}

} // namespace h
