// P21: printing and reading back; the printed rows, columns and labels; printing alters nothing.
#include "operands.hpp"
#include <fstream>
#include <iostream>
using namespace h;
using namespace spp;

template <class T> constexpr bool QUADT = !std::is_same_v<T, bool> && !std::is_integral_v<T> && !std::is_same_v<T, float> && !std::is_same_v<T, double> && !std::is_same_v<T, long double>;
template <class T> constexpr bool FLT = !std::is_integral_v<T>;

// One printed value, read independently of the library.
template <class T> bool parse(const std::string& t, T& x) {
   const char* s = t.c_str();
   char* e = nullptr;
   if(t.empty()) return false;
   if constexpr(std::is_same_v<T, bool>) {
      if(t != "true" && t != "false") return false;
      x = t == "true";
      return true;
   } else if constexpr(std::is_integral_v<T> && std::is_signed_v<T>) {
      errno = 0;
      long long v = std::strtoll(s, &e, 10);
      x = T(v);
      return *e == 0 && errno == 0 && (long long)x == v;
   } else if constexpr(std::is_integral_v<T>) {
      errno = 0;
      unsigned long long v = std::strtoull(s, &e, 10);
      x = T(v);
      return *e == 0 && errno == 0 && (unsigned long long)x == v && t[0] != '-';
   } else if constexpr(std::is_same_v<T, float>) {
      x = std::strtof(s, &e);
      return *e == 0;
   } else if constexpr(std::is_same_v<T, double>) {
      x = std::strtod(s, &e);
      return *e == 0;
   } else if constexpr(std::is_same_v<T, long double>) {
      x = std::strtold(s, &e);
      return *e == 0;
   } else {
#ifdef STRICT_QUAD_PRECISION
      x = strtoflt128(s, &e);
#endif
      return *e == 0;
   }
}

struct Fmt {
   bool scientific = true;
   int prec = -1;   // -1: the library's choice for the type
};
template <class T> int digits_after(const Fmt& f) {
   if(f.prec >= 0) return f.prec;
   if constexpr(std::is_same_v<T, float>) return 7;
   else if constexpr(std::is_same_v<T, double>) return 16;
   else if constexpr(std::is_same_v<T, long double>) return 19;
   else return 33;
}
template <class T> constexpr int mantissa() {
   if constexpr(QUADT<T>) return 113;
   else return std::numeric_limits<T>::digits;
}
// Is y what the printed form of x may read as?
template <class T> bool printed_as(T x, T y, const Fmt& f) {
   if constexpr(!FLT<T>) {
      return x == y;
   } else {
      if(x != x || y != y) return x != x && y != y;
      if(x == y) return true;
      T ax = x < 0 ? -x : x, d = x < y ? y - x : x - y;
      int p = digits_after<T>(f);
      // Decimal digits that identify every value of the type: the text must then read back exactly.
      bool identifies = f.scientific && p + 1 >= std::ceil(1 + mantissa<T>() * 0.30103);
      if(identifies) return false;
      T unit = 1;
      if(f.scientific) {
         if(ax > T(1e300) && QUADT<T>) return d <= ax * T(1e-25);
         T m = ax;
         while(m >= 10) m /= 10, unit *= 10;
         while(m < 1) m *= 10, unit /= 10;
      }
      for(int i = 0; i < p; ++i) unit /= 10;
      T slack = ax;
      for(int i = 1; i < mantissa<T>(); ++i) slack /= 2;   // rounding when the text is read
      return d <= unit * T(0.5001) + 2 * slack;
   }
}

template <class T> T value(Rng& r, bool finite) {
   if constexpr(std::is_same_v<T, bool>) {
      return r.chance(50);
   } else if constexpr(std::is_integral_v<T>) {
      using L = std::numeric_limits<T>;
      if(r.chance(60)) return rnd<T>(r, -20, 20);
      if(r.chance(30)) return r.pick({L::min(), L::max(), T(0), T(10), T(9), T(99), T(100), T(1000000)});
      return T(r.next() >> r.in(0, 60));
   } else {
      if(r.chance(30)) return rnd<T>(r, -20, 20);
      if(r.chance(20)) return T(r.pick({0., -0., 1., -1., 10., 9.9999999999, 999999.5, 0.1, 1e-7, 123456789.}));
      if(r.chance(12)) {
         if constexpr(!QUADT<T>) {
            using L = std::numeric_limits<T>;
            if(!finite && r.chance(40)) return r.pick({L::infinity(), -L::infinity(), L::quiet_NaN()});
            return r.pick({L::max() / 4, -L::max() / 4, L::min(), L::epsilon()});   // the rounded text of max itself may exceed the type
         }
      }
      T x = T(r.unit()) + T(r.unit()) * T(0x1p-53) + T(r.unit()) * T(0x1p-53) * T(0x1p-53);
      int e = int(r.in(-40, 40));
      if(std::is_same_v<T, float>) e /= 2;
      for(int i = 0; i < e; ++i) x *= 10;
      for(int i = 0; i > e; --i) x /= 10;
      return r.chance(50) ? x : -x;
   }
}

struct Reset {
   ~Reset() {
      format.reset();
      array_format.reset();
   }
};
inline Fmt set_format(Rng& r, bool plain_only) {
   Fmt f;
   if(plain_only && r.chance(70)) return f;
   f.scientific = r.chance(60);
   format.scientific(f.scientific);
   if(r.chance(60)) {
      f.prec = int(r.pick({0, 1, 2, 5, 8, 17, 21, 25, 36}));
      format.precision(f.prec);
   }
   return f;
}
inline std::string fname(const Fmt& f) { return str(f.scientific ? "scientific" : "fixed", " precision ", f.prec); }

inline std::vector<std::string> words(const std::string& s) {
   std::istringstream is(s);
   std::vector<std::string> v;
   std::string w;
   while(is >> w) v.push_back(w);
   return v;
}
inline std::vector<std::string> lines(const std::string& s) {
   std::vector<std::string> v;
   std::string w;
   std::istringstream is(s);
   while(std::getline(is, w)) v.push_back(w);
   return v;
}
// "[1, 2] = value" entries.
struct Entry {
   i64 i, j;
   std::string value;
};
inline std::vector<Entry> entries(const std::string& s) {
   std::vector<Entry> v;
   size_t p = 0;
   while((p = s.find('[', p)) != std::string::npos) {
      Entry e{-1, -1, ""};
      char* q = nullptr;
      e.i = std::strtoll(s.c_str() + p + 1, &q, 10);
      if(*q == ',') e.j = std::strtoll(q + 1, &q, 10);
      if(*q != ']') { e.i = -9; v.push_back(e); return v; }
      ++q;
      while(*q == ' ') ++q;
      if(*q != '=') { e.i = -9; v.push_back(e); return v; }
      ++q;
      while(*q == ' ') ++q;
      while(*q && *q != ' ' && *q != '\n' && *q != '[') e.value += *q++;
      v.push_back(e);
      p = size_t(q - s.c_str());
   }
   return v;
}

template <class T> void word_is(const std::string& w, T x, const Fmt& f, const char* key, const std::string& what) {
   T y{};
   CHECK(parse<T>(w, y), str("unreadable ", key), what, ": '", w, "' for element ", show<T>(x));
   CHECK(printed_as<T>(x, y, f), str("printed ", key), what, ": '", w, "' for element ", show<T>(x));
}

enum How { COLUMN, ROW, LABEL_COLUMN, LABEL_ROW };

template <class A, class T> void shown1(const A& a, const std::vector<T>& v, const Fmt& f, How how, const std::string& text, const std::string& what) {
   if(how == COLUMN || how == ROW) {
      auto w = words(text);
      CHECK(w.size() == v.size(), "count", what, " printed ", w.size(), " values of ", v.size(), ": ", text);
      for(size_t i = 0; i < v.size(); ++i) word_is<T>(w[i], v[i], f, "1D", what + str(" element ", i));
      auto l = lines(text);
      if(how == COLUMN) CHECK(l.size() == v.size(), "lines", what, " printed on ", l.size(), " lines in column style");
      else CHECK(l.size() == 1 || v.empty(), "lines", what, " printed on ", l.size(), " lines in row style");
   } else {
      auto e = entries(text);
      if(v.empty()) {
         CHECK(text.find("[]") != std::string::npos, "empty label", what, " empty array printed as ", text);
      } else {
         CHECK(e.size() == v.size(), "count", what, " printed ", e.size(), " labels of ", v.size(), ": ", text);
         for(size_t i = 0; i < v.size(); ++i) {
            CHECK(e[i].i == i64(i) && e[i].j == -1, "label", what, " label ", e[i].i, ",", e[i].j, " at position ", i);
            word_is<T>(e[i].value, v[i], f, "labelled", what + str(" element ", i));
         }
         auto l = lines(text);
         CHECK(how == LABEL_ROW ? l.size() == 1 : l.size() == v.size(), "lines", what, " printed on ", l.size(), " lines");
      }
   }
   ev(str("1D.", int(how)));
   (void)a;
}
template <class T> void shown2(const Mat<T>& m, const Fmt& f, bool labels, const std::string& text, const std::string& what) {
   auto l = lines(text);
   if(!m.size()) {
      if(labels) CHECK(text.find("[]") != std::string::npos, "empty label", what, " empty array printed as ", text);
      else CHECK(words(text).empty(), "count", what, " empty array printed as ", text);
      ev("2D.empty");
      return;
   }
   CHECK(i64(l.size()) == m.r, "lines", what, " printed on ", l.size(), " lines, rows ", m.r, ": ", text);
   for(i64 i = 0; i < m.r; ++i) {
      if(!labels) {
         auto w = words(l[size_t(i)]);
         CHECK(i64(w.size()) == m.c, "count", what, " row ", i, " printed ", w.size(), " values of ", m.c, ": ", l[size_t(i)]);
         for(i64 j = 0; j < m.c; ++j) word_is<T>(w[size_t(j)], m(i, j), f, "2D", what + str(" element ", i, ",", j));
      } else {
         auto e = entries(l[size_t(i)]);
         CHECK(i64(e.size()) == m.c, "count", what, " row ", i, " printed ", e.size(), " labels of ", m.c, ": ", l[size_t(i)]);
         for(i64 j = 0; j < m.c; ++j) {
            CHECK(e[size_t(j)].i == i && e[size_t(j)].j == j, "label", what, " label ", e[size_t(j)].i, ",", e[size_t(j)].j, " at ", i, ",", j);
            word_is<T>(e[size_t(j)].value, m(i, j), f, "2D labelled", what + str(" element ", i, ",", j));
         }
      }
   }
   ev(labels ? "2D.labels" : "2D");
}

// Text of a function that prints to std::cout.
template <class F> std::string captured(F f) {
   std::ostringstream os;
   auto* old = std::cout.rdbuf(os.rdbuf());
   try {
      f();
   } catch(...) {
      std::cout.rdbuf(old);
      throw;
   }
   std::cout.rdbuf(old);
   return os.str();
}
inline std::string scratch() { return str("p21_", long(::getpid()), ".txt"); }

template <class T> How style(Rng& r, bool readable) {
   How how = How(r.below(readable ? 2 : 4));
   if(how == ROW || how == LABEL_ROW) array_format.row_style();
   else array_format.col_style();
   array_format.detailed(how >= LABEL_COLUMN);
   return how;
}

// A target that already holds something.
template <class B, class T> B old1(Rng& r) { return mk1<B>(rvec<T>(r, r.in(0, 12), 0, 40)); }
template <class B, class T> B old2(Rng& r) {
   i64 n = r.in(0, 4);
   return mk2<B>(rmat<T>(r, n, n ? r.in(1, 4) : 0, 0, 40));
}

template <class T, class B> void back1(Rng& r, const std::string& text, const std::vector<T>& v, const Fmt& f, bool file, const std::string& what) {
   auto b = old1<B, T>(r);
   if(file) {
      read_from_file(scratch(), b);
      ev("file 1D");
   } else {
      std::istringstream is(text);
      is >> b;
   }
   CHECK(sz(b) == i64(v.size()), "read size", what, " reads back with size ", sz(b), " instead of ", v.size(), " from ", text);
   for(size_t i = 0; i < v.size(); ++i)
      CHECK(printed_as<T>(v[i], b.un(long(i)).val(), f), "read value", what, " element ", i, " was ", show<T>(v[i]), " reads back ", show<T>(b.un(long(i)).val()));
   ev("back 1D");
}
template <class T, class B> void back2(Rng& r, const std::string& text, const Mat<T>& m, const Fmt& f, bool file, const std::string& what) {
   auto b = old2<B, T>(r);
   if(file) {
      read_from_file(scratch(), b);
      ev("file 2D");
   } else {
      std::istringstream is(text);
      is >> b;
   }
   CHECK(b.rows().val() == m.r && b.cols().val() == m.c, "read shape", what, " reads back as ", b.rows().val(), "x", b.cols().val(), " instead of ", m.r, "x", m.c);
   for(i64 i = 0; i < m.size(); ++i)
      CHECK(printed_as<T>(m.d[size_t(i)], b.un(long(i)).val(), f), "read value", what, " element ", i, " was ", show<T>(m.d[size_t(i)]), " reads back ", show<T>(b.un(long(i)).val()));
   ev("back 2D");
}

template <class T> void one(Case& c) {
   Rng& r = c.r;
   Reset reset;
   i64 n = r.chance(10) ? 0 : r.chance(2) ? r.in(990, 1300) : r.chance(10) ? r.in(60, 130) : r.in(1, 17);
   bool finite = r.chance(70);
   std::vector<T> v;
   for(i64 i = 0; i < n; ++i) v.push_back(value<T>(r, finite));
   auto f = set_format(r, true);
   How how = style<T>(r, r.chance(60));
   std::string what = str("1D ", fname(f), " style ", int(how), " ", show(v));
   logs(what);
   c.note(str(n, fname(f), int(how), show(v)));
   c.nontrivial = true;
   any1<T>(r, v, kinds<0, 1, 2, 4, 6, 7, 8>{}, [&](auto& a) {
      std::ostringstream os;
      os << a;
      std::string text = os.str();
      shown1(a, v, f, how, text, what);
      CHECK(eq(vec(a), v), "printing alters", what, " elements changed by printing");
      // the other ways of printing show the same
      auto t2 = captured([&] { print(a, "name"); });
      CHECK(t2.rfind("name:\n", 0) == 0 && t2.substr(6) == text, "print", "print with a name gives ", t2, " instead of name: and ", text);
      auto t3 = captured([&] { spp::print(a); });
      CHECK(words(t3) == words(text), "print", "print gives ", t3, " instead of ", text);
      auto t4 = captured([&] { printn(a); });
      CHECK(words(t4) == words(text) && t4.size() > t3.size(), "printn", "printn gives ", t4, " instead of ", text);
      bool file = r.chance(25);
      if(file) {
         bool named = r.chance(30) && how >= LABEL_COLUMN;
         named ? print_to_file(scratch(), a, "label") : print_to_file(scratch(), a);
         std::ifstream in(scratch());
         std::stringstream ss;
         ss << in.rdbuf();
         CHECK(ss.str() == (named ? "label:\n" + text : text), "print_to_file", "the file holds ", ss.str(), " instead of ", text);
         ev("print_to_file");
      }
      if constexpr(!std::is_same_v<T, bool>) {
         bool fin = true;
         if constexpr(FLT<T>)
            for(T x : v) fin = fin && x - x == T(0);
         if(how < LABEL_COLUMN && fin) {
            back1<T, Array1D<T>>(r, text, v, f, false, what);
            back1<T, Array1D<T, Aligned>>(r, text, v, f, file, what);
         }
      }
      if(file) ::unlink(scratch().c_str());
      CHECK(eq(vec(a), v), "printing alters", what, " elements changed by printing");
   });
}

template <class T> void two(Case& c) {
   Rng& r = c.r;
   Reset reset;
   i64 nr = r.chance(8) ? 0 : r.chance(10) ? r.in(10, 14) : r.in(1, 6), nc = nr ? (r.chance(10) ? r.in(10, 12) : r.in(1, 6)) : 0;
   if(nr && r.chance(4)) {   // labels of three and four digits
      nr = r.chance(30) ? r.in(990, 1100) : r.in(99, 130);
      nc = r.in(1, 2);
      if(r.chance(50)) std::swap(nr, nc);
   }
   bool finite = r.chance(75);
   Mat<T> m(nr, nc);
   for(auto&& x : m.d) x = value<T>(r, finite);
   auto f = set_format(r, true);
   How how = style<T>(r, r.chance(60));
   bool labels = how >= LABEL_COLUMN;
   std::string what = str("2D ", fname(f), labels ? " labels " : " ", show(m));
   logs(what);
   c.note(str(nr, "x", nc, fname(f), int(how), show(m)));
   c.nontrivial = true;
   any2<T>(r, m, kinds<0, 2, 3, 4, 6, 7>{}, [&](auto& a) {
      std::ostringstream os;
      os << a;
      std::string text = os.str();
      shown2(m, f, labels, text, what);
      auto t2 = captured([&] { print(a, "name"); });
      CHECK(t2.rfind("name:\n", 0) == 0 && t2.substr(6) == text, "print", "print with a name gives ", t2, " instead of name: and ", text);
      auto t3 = captured([&] { spp::print(a, a); });
      auto w = words(text), ww = w;
      ww.insert(ww.end(), w.begin(), w.end());
      CHECK(words(t3) == ww, "print", "print of two gives ", t3, " instead of twice ", text);
      auto t4 = captured([&] { printn(a, "n"); });
      CHECK(t4.rfind("n:\n" + text, 0) == 0, "printn", "printn gives ", t4, " instead of ", text);
      bool file = r.chance(25);
      if(file) {
         print_to_file(scratch(), a);
         ev("print_to_file");
      }
      if constexpr(!std::is_same_v<T, bool>) {
         bool fin = true;
         if constexpr(FLT<T>)
            for(T x : m.d) fin = fin && x - x == T(0);
         if(!labels && fin) {
            back2<T, Array2D<T>>(r, text, m, f, false, what);
            back2<T, Array2D<T, Aligned>>(r, text, m, f, file, what);
            back1<T, Array1D<T>>(r, text, m.d, f, false, what);   // the same text as a sequence
         }
      }
      if(file) ::unlink(scratch().c_str());
      CHECK(eq(mat(a), m), "printing alters", what, " elements changed by printing");
   });
}

template <class T> void misc(Case& c) {
   Rng& r = c.r;
   Reset reset;
   c.note(r.next());
   c.nontrivial = true;
   auto f = set_format(r, true);
   // Scalars.
   T x = value<T>(r, false);
   std::ostringstream os;
   os << S<T>(x);
   word_is<T>(os.str(), x, f, "scalar", "scalar");
   auto t = captured([&] { print(S<T>(x), "s"); });
   CHECK(t.rfind("s:\n", 0) == 0, "print scalar", "print of a named scalar gives ", t);
   auto w = words(t);
   CHECK(w.size() == 2, "print scalar", "print of a scalar gives ", t);
   word_is<T>(w[1], x, f, "scalar", "scalar");
   T y = value<T>(r, false);
   w = words(captured([&] { printn(S<T>(x), S<T>(y)); }));
   CHECK(w.size() == 2, "print scalar", "printn of two scalars gives ", w.size(), " words");
   word_is<T>(w[0], x, f, "scalar", "first scalar");
   word_is<T>(w[1], y, f, "scalar", "second scalar");
   if constexpr(!std::is_same_v<T, bool>) {
      bool fin = true;
      if constexpr(FLT<T>) fin = x - x == T(0);
      if(fin) {
         std::istringstream is(os.str());
         Strict<T> z;
         is >> z;
         CHECK(printed_as<T>(x, z.val(), f), "read scalar", "scalar ", show<T>(x), " reads back ", show<T>(z.val()));
      }
   }
   // Precision set for one type does not disturb the others.
   format.reset();
   int set = int(r.below(3)), pr = int(r.in(0, 20));
   bool sci = r.chance(60);
   if(!sci) format.scientific(false);
   if(set == 0) format.precision_float(pr);
   if(set == 1) format.precision_double(pr);
   if(set == 2) format.precision_long_double(pr);
   constexpr int own = std::is_same_v<T, float> ? 0 : std::is_same_v<T, double> ? 1 : std::is_same_v<T, long double> ? 2 : 3;
   Fmt fd{sci, set == own ? pr : -1};
   std::ostringstream o2;
   o2 << S<T>(x);
   word_is<T>(o2.str(), x, fd, "scalar", "scalar with the precision of one type set");
   auto digits = [&](int k, int dflt) { return set == k ? pr : dflt; };
   CHECK(format.precision<float>().val() == digits(0, std::numeric_limits<float>::digits10 + 1)
            && format.precision<double>().val() == digits(1, std::numeric_limits<double>::digits10 + 1)
            && format.precision<long double>().val() == digits(2, std::numeric_limits<long double>::digits10 + 1)
            && bool(format.is_scientific()) == sci,
         "format", "the settings read back differ from those made: type ", set, " precision ", pr);
   ev(str("precision of type ", set));
   format.reset();
   if constexpr(FLT<T>) {
      std::ostringstream o3;
      o3 << S<T>(x);
      word_is<T>(o3.str(), x, Fmt{}, "scalar", "scalar after reset");
   }
   // Several objects of different shapes in one print; index lists.
   auto v = rvec<T>(r, r.in(1, 5)), u = rvec<T>(r, r.in(1, 5));
   auto m = rmat<T>(r, 2, 3);
   auto a = mk1<Array1D<T>>(v), b = mk1<Array1D<T>>(u);
   auto M = mk2<Array2D<T>>(m);
   std::ostringstream oa, ob, om;
   oa << a;
   om << M;
   ob << b(place::reverse);
   auto all = captured([&] { spp::print(a, M, b(place::reverse)); });
   auto want = words(oa.str());
   for(auto& s : words(om.str())) want.push_back(s);
   for(auto& s : words(ob.str())) want.push_back(s);
   CHECK(words(all) == want, "print several", "print(A,M,B) gives ", all);
   all = captured([&] { printn(a, M, b(place::reverse)); });
   CHECK(words(all) == want, "print several", "printn(A,M,B) gives ", all);
   std::reverse(u.begin(), u.end());
   shown1(b, u, Fmt{}, COLUMN, ob.str(), "reversed");
   std::vector<ImplicitInt> idx{3, 1, 4};
   std::ostringstream oi;
   oi << idx;
   CHECK((words(oi.str()) == std::vector<std::string>{"+3", "+1", "+4"}) || (words(oi.str()) == std::vector<std::string>{"3", "1", "4"}), "index list", "index list printed as ", oi.str());
   // Printing from a stream into which other things were written: nothing else is disturbed.
   std::ostringstream mix;
   mix << "x ";
   mix << a << M;
   auto wm = words(mix.str());
   CHECK(wm.size() == 1 + v.size() + m.d.size() && wm[0] == "x", "mixed", "mixed output ", mix.str());
   if constexpr(!std::is_same_v<T, bool>) {   // a random lazy matrix prints values of its range
      if constexpr(!QUADT<T>) {
         std::ostringstream orr;
         orr << random<T>(2, 3, S<T>(T(3)), S<T>(T(9)));
         auto l = lines(orr.str());
         CHECK(l.size() == 2, "random", "random<T>(2,3) printed as ", orr.str());
         for(auto& s : l) {
            auto q = words(s);
            CHECK(q.size() == 3, "random", "random<T>(2,3) printed as ", orr.str());
            for(auto& e : q) {
               T z{};
               CHECK(parse<T>(e, z) && z >= T(3) && z <= T(9), "random", "random value printed as ", e);
            }
         }
         ev("random printed");
      }
   }
   CHECK(throws([&] { print_to_file("no/such/directory/file", a); }), "unwritable", "printing to a file that cannot be opened is not reported");
   CHECK(eq(vec(a), v) && eq(mat(M), m), "printing alters", "elements changed by printing");
   ev("misc");
}

#ifdef STRICT_QUAD_PRECISION
inline constexpr int NT = 9;
#else
inline constexpr int NT = 8;
#endif
template <int K> struct TypeOf { using type = std::tuple_element_t<K < 8 ? K : 0, std::tuple<int, double, unsigned, float, long, long double, unsigned long, bool>>; };
#ifdef STRICT_QUAD_PRECISION
template <> struct TypeOf<8> { using type = float128; };
#endif

int main(int argc, char** argv) {
   return run(argc, argv, [](Case& c) {
      dispatch<NT>(c, []<int K>(Case& c) {
         using T = typename TypeOf<K>::type;
         int k = int(c.r.below(100));
         if(k < 45) one<T>(c);
         else if(k < 85) two<T>(c);
         else misc<T>(c);
      });
   });
}
