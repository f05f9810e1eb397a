// P22: what is accepted when reading, what it yields, and that rejected input leaves the target alone.
#include "operands.hpp"
#include <fstream>
#include <iostream>
#include <optional>
#include <sys/stat.h>
using namespace h;
using namespace spp;

template <class T> constexpr bool QUADT = !std::is_same_v<T, bool> && !std::is_integral_v<T> && !std::is_same_v<T, float> && !std::is_same_v<T, double> && !std::is_same_v<T, long double>;

inline bool space(char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); }

enum Verdict { YES, NO, OPEN };

// One value of the type, by definition of the element type's text form.
template <class T> Verdict token(const std::string& t, T& x) {
   if(t.empty()) return NO;
   size_t p = t[0] == '+' || t[0] == '-';
   if constexpr(std::is_integral_v<T>) {
      if(p == t.size()) return NO;
      for(size_t i = p; i < t.size(); ++i)
         if(t[i] < '0' || t[i] > '9') return NO;
      if(std::is_unsigned_v<T> && !std::is_same_v<T, bool> && t[0] == '-') return OPEN;
      unsigned __int128 m = 0;
      for(size_t i = p; i < t.size(); ++i) {
         m = m * 10 + unsigned(t[i] - '0');
         if(m > ((unsigned __int128)1 << 70)) m = (unsigned __int128)1 << 70;
      }
      __int128 v = t[0] == '-' ? -(__int128)m : (__int128)m;
      if(v < (__int128)std::numeric_limits<T>::min() || v > (__int128)std::numeric_limits<T>::max()) return NO;
      x = T(v);
      return YES;
   } else {
      // sign digits [. digits] [e sign digits], at least one digit in the mantissa
      size_t d = 0, q = p;
      while(q < t.size() && isdigit((unsigned char)t[q])) ++q, ++d;
      if(q < t.size() && t[q] == '.') {
         ++q;
         while(q < t.size() && isdigit((unsigned char)t[q])) ++q, ++d;
      }
      bool form = d > 0;
      if(form && q < t.size() && (t[q] == 'e' || t[q] == 'E')) {
         ++q;
         if(q < t.size() && (t[q] == '+' || t[q] == '-')) ++q;
         size_t e = 0;
         while(q < t.size() && isdigit((unsigned char)t[q])) ++q, ++e;
         form = e > 0;
      }
      form = form && q == t.size();
      char* end = nullptr;
      if constexpr(QUADT<T>) {
#ifdef STRICT_QUAD_PRECISION
         x = strtoflt128(t.c_str(), &end);
         if(!form && end == t.c_str() + t.size()) return OPEN;   // infinities, hexadecimal
#endif
      } else if constexpr(std::is_same_v<T, float>) x = std::strtof(t.c_str(), &end);
      else if constexpr(std::is_same_v<T, double>) x = std::strtod(t.c_str(), &end);
      else x = std::strtold(t.c_str(), &end);
      if(!form) return NO;
      if(x - x != T(0)) return NO;   // overflow
      return YES;
   }
}

template <class T> struct Parsed {
   Verdict ok = YES;
   Mat<T> m;
   std::string why;
};
template <class T> Parsed<T> parse_row(const std::string& line) {
   Parsed<T> p;
   p.m.r = 1;
   size_t i = 0;
   while(true) {
      while(i < line.size() && space(line[i])) ++i;
      if(i == line.size()) break;
      size_t j = i;
      while(j < line.size() && !space(line[j])) ++j;
      T x{};
      auto t = line.substr(i, j - i);
      auto v = token<T>(t, x);
      if(v != YES && p.ok != NO) p.ok = v, p.why = "value '" + t + "'";
      p.m.d.push_back(x);
      i = j;
   }
   p.m.c = i64(p.m.d.size());
   return p;
}
template <class T> Parsed<T> parse_rows(const std::string& text) {
   Parsed<T> p;
   size_t i = 0;
   bool blank_first = false;
   while(i < text.size()) {
      size_t j = text.find('\n', i);
      if(j == std::string::npos) j = text.size();
      auto line = text.substr(i, j - i);
      i = j + 1;
      if(line.empty()) continue;
      auto row = parse_row<T>(line);
      if(row.ok != YES && p.ok != NO) p.ok = row.ok, p.why = row.why;
      if(!p.m.r && !row.m.c) {
         blank_first = true;   // only spaces before the first row: not settled by the definition
         continue;
      }
      if(p.m.r && row.m.c != p.m.c && p.ok != NO) p.ok = NO, p.why = str("row ", p.m.r, " has ", row.m.c, " values instead of ", p.m.c), ev("ragged");
      if(!p.m.r) p.m.c = row.m.c;
      ++p.m.r;
      p.m.d.insert(p.m.d.end(), row.m.d.begin(), row.m.d.end());
   }
   if(p.ok == YES && blank_first) p.ok = OPEN;
   if(p.ok == NO && blank_first) p.ok = NO;
   return p;
}

template <class T> std::string number(Rng& r) {
   std::string s;
   if constexpr(std::is_same_v<T, bool>) {
      return r.pick({"0", "1", "1", "0", "+1", "00", "01", "-0"});
   } else {
      if(r.chance(20)) s = r.chance(50) || std::is_unsigned_v<T> ? "+" : "-";
      if constexpr(std::is_integral_v<T>) {
         if(r.chance(8)) {
            using L = std::numeric_limits<T>;
            s = std::to_string(r.chance(50) ? L::max() : L::min());
            if(r.chance(40)) s.back() = char(std::min('9', char(s.back() + r.in(0, 2))));
            if(r.chance(10)) s += "0";
            return s;
         }
         i64 n = r.chance(5) ? r.in(9, 30) : r.in(1, 5);
         for(i64 i = 0; i < n; ++i) s += char('0' + r.below(10));
      } else {
         i64 n = r.chance(5) ? r.in(15, 60) : r.in(0, 4);
         for(i64 i = 0; i < n; ++i) s += char('0' + r.below(10));
         i64 k = 0;
         if(r.chance(60)) {
            s += '.';
            k = r.chance(8) ? r.in(10, 40) : r.in(0, 4);
            for(i64 i = 0; i < k; ++i) s += char('0' + r.below(10));
         }
         if(n + k == 0) s += '7';
         if(r.chance(25)) {
            s += r.chance(50) ? 'e' : 'E';
            s += r.pick({"", "+", "-"});
            s += std::to_string(r.chance(20) ? r.pick({37, 38, 39, 45, 46, 307, 308, 309, 323, 324, 330, 4931, 4932, 4933, 4950, 4966, 6000, 99999}) : int(r.below(31)));
         }
      }
      return s;
   }
}
inline std::string gap(Rng& r, bool newlines) {
   std::string s;
   do s += r.chance(75) ? ' ' : newlines ? "\n\t\n\r\v\f"[r.below(6)] : "\t\r\v\f"[r.below(4)];
   while(r.chance(20));
   return s;
}
inline void mutate(Rng& r, std::string& s) {
   static const char chars[] = "0123456789012345678901234567++--..eE eExX,;:\t\n\n\r\v\f\0abcnfiINpP_'\"\x80\xff\xa0";
   static const std::string abc(chars, sizeof(chars) - 1);
   i64 n = r.in(1, 3);
   while(n--) {
      size_t p = r.below(s.size() + 1);
      char ch = r.chance(90) ? abc[r.below(abc.size())] : char(r.below(256));
      switch(r.below(8)) {
         case 0:
         case 1: s.insert(p, 1, ch); break;
         case 2:
         case 3: if(p < s.size()) s[p] = ch; break;
         case 4: if(p < s.size()) s.erase(p, 1); break;
         case 5: s.resize(p); break;
         case 6: s.insert(p, s.substr(r.below(s.size() + 1), r.below(12))); break;
         default: {   // swap a separator for another
            size_t q = s.find_first_of(" \n", p);
            if(q != std::string::npos) s[q] = s[q] == ' ' ? '\n' : ' ';
         }
      }
   }
}
template <class T> std::string text1(Rng& r) {
   std::string s;
   i64 n = r.chance(8) ? 0 : r.chance(8) ? r.in(30, 400) : r.in(1, 20);
   if(r.chance(25)) s += gap(r, true);
   for(i64 i = 0; i < n; ++i) s += (i ? gap(r, true) : "") + number<T>(r);
   if(r.chance(50)) s += gap(r, true);
   return s;
}
template <class T> std::string text2(Rng& r) {
   std::string s;
   i64 nr = r.chance(6) ? 0 : r.chance(8) ? r.in(10, 70) : r.in(1, 9), nc = r.chance(10) ? r.in(9, 40) : r.in(1, 8);
   bool ragged = r.chance(25);
   i64 at = r.in(0, std::max<i64>(nr - 1, 0));
   while(r.chance(10)) s += '\n';
   for(i64 i = 0; i < nr; ++i) {
      i64 n = nc;
      if(ragged && i == at) n = std::max<i64>(0, r.pick({nc + 1, nc - 1, nc + 1, nc - 1, 2 * nc, nc + 5, i64(0)}));
      if(r.chance(10)) s += gap(r, false);
      for(i64 j = 0; j < n; ++j) s += (j ? gap(r, false) : "") + number<T>(r);
      if(r.chance(15)) s += gap(r, false);
      if(i + 1 < nr || r.chance(60)) s += '\n';
      while(r.chance(10)) s += '\n';
   }
   return s;
}
inline std::string in_quotes(const std::string& s) {
   std::string q = "\"";
   for(char ch : s.substr(0, 600))
      if(ch >= 32 && ch < 127) q += ch;
      else q += str("\\x", int((unsigned char)ch), ".");
   return q + "\"";
}

// Input that breaks after some characters.
struct Broken : std::streambuf {
   std::string s;
   bool throws_;
   Broken(std::string t, size_t chunk, bool thr) : s(std::move(t)), throws_(thr) {
      (void)chunk;
      setg(s.data(), s.data(), s.data() + s.size());
   }
   int_type underflow() override {
      ev("stream broke");
      throw std::runtime_error("device");
   }
};
// Input that arrives a few characters at a time.
struct Dripping : std::streambuf {
   std::string s;
   size_t at = 0, chunk;
   Dripping(std::string t, size_t c) : s(std::move(t)), chunk(c) { setg(s.data(), s.data(), s.data()); }
   int_type underflow() override {
      at = size_t(egptr() - s.data());
      if(at >= s.size()) return traits_type::eof();
      setg(s.data() + at, s.data() + at, s.data() + std::min(s.size(), at + chunk));
      return traits_type::to_int_type(*gptr());
   }
};

inline std::string scratch() { return str("p22_", long(::getpid()), ".txt"); }
inline void put(const std::string& text) {
   std::ofstream o(scratch(), std::ios::binary);
   o.write(text.data(), std::streamsize(text.size()));
}

template <class A> A old_target(Rng& r) {
   using T = bt<A>;
   if constexpr(A::dimension().val() == 1) return mk1<A>(rvec<T>(r, r.in(0, 9), 0, 40));
   else {
      i64 n = r.in(0, 4);
      return mk2<A>(rmat<T>(r, n, n ? r.in(1, 4) : 0, 0, 40));
   }
}
template <class A> Mat<bt<A>> shape_of(const A& a) {
   if constexpr(A::dimension().val() == 1) {
      Mat<bt<A>> m(1, sz(a));
      m.d = vec(a);
      return m;
   } else return mat(a);
}

template <class A> void attempt(Rng& r, const std::string& text, Parsed<bt<A>> p, const std::string& what) {
   using T = bt<A>;
   constexpr bool one = A::dimension().val() == 1;
   A a = old_target<A>(r);
   auto before = shape_of(a);
   const T* where = sz(a) ? a.blas_data() : nullptr;
   std::string how;
   bool threw = false;
   auto via = [&](std::istream& is) {
      threw = throws([&] { is >> a; });
   };
   int k = int(r.below(10));
   Verdict ok = p.ok;
   if(k < 5) {
      how = "stream";
      std::istringstream is(text);
      via(is);
   } else if(k == 5) {
      how = "dripping stream";
      Dripping b(text, size_t(r.in(1, 5)));
      std::istream is(&b);
      via(is);
   } else if(k == 6) {
      how = "breaking stream";
      Broken b(text.substr(0, r.below(text.size() + 1)), 1, true);
      std::istream is(&b);
      via(is);
      ok = NO;
      p.why = "the stream broke";
   } else if(k == 7) {
      how = "failed stream";
      std::istringstream is(text);
      is.setstate(r.chance(50) ? std::ios::failbit : std::ios::badbit);
      via(is);
      ok = NO;
      p.why = "the stream had failed";
      ev("failed stream");
   } else if(k == 8 && r.chance(40)) {
      how = "unreadable file";
      std::string path = scratch() + "_none";
      switch(r.below(3)) {
         case 0: break;
         case 1: path = "."; break;
         default: path = path + "/x";
      }
      threw = throws([&] { read_from_file(path, a); });
      ok = NO;
      p.why = "the file cannot be read";
      ev("unreadable file");
   } else {
      how = "file";
      put(text);
      threw = throws([&] { read_from_file(scratch(), a); });
      ::unlink(scratch().c_str());
      ev("file");
   }
   what.size();
   auto note = str(one ? "1D " : "2D ", how);
   if(ok == NO) CHECK(threw, "accepted", what, " by ", how, " accepted although ", p.why, " is wrong; read ", show(shape_of(a)));
   if(ok == YES) CHECK(!threw, "refused", what, " by ", how, " refused although valid: ", p.m.r, "x", p.m.c);
   if(threw) {
      CHECK(eq(shape_of(a), before) && shape_of(a).r == before.r && shape_of(a).c == before.c, "target changed", what, " by ", how, " was refused but the target became ", show(shape_of(a)), " from ", show(before));
      CHECK(!sz(a) || a.blas_data() == where, "target moved", what, " by ", how, " was refused but the storage of the target changed");
      ev(one ? "rejected 1D" : "rejected 2D");
   } else if(ok == YES) {
      auto got = shape_of(a);
      Mat<T> want = p.m;
      if(one) want.r = 1;
      if(!one && !want.r) want.c = 0;
      CHECK(got.r == want.r && got.c == want.c, "shape", what, " by ", how, " read as ", got.r, "x", got.c, " instead of ", want.r, "x", want.c);
      CHECK(eq(got, want), "values", what, " by ", how, " read as ", show(got), " instead of ", show(want));
      ev(one ? (want.c ? "accepted 1D" : "empty 1D") : (want.r ? "accepted 2D" : "empty 2D"));
      if(want.c > 8) ev("grown columns");
      if(!one && want.r > 4) ev("grown rows");
   } else ev("open");
   // The target remains usable.
   a.resize_and_assign(A{});
   CHECK(sz(a) == 0, "target unusable", what, " target cannot be emptied after the read");
}

template <class T> void scalar(Rng& r, const std::string& text, const std::string& what) {
   std::istringstream is(text), is2(text);
   Strict<T> x = S<T>(T(1)), old = x;
   T y{};
   bool ok;
   if constexpr(QUADT<T>) {
#ifdef STRICT_QUAD_PRECISION
      std::string t;
      is2 >> t;
      auto v = token<T>(t, y);
      if(v == OPEN) return;
      ok = v == YES;
#endif
   } else ok = bool(is2 >> y);
   bool threw = throws([&] { is >> x; });
   CHECK(threw == !ok, "scalar", what, threw ? " scalar refused" : " scalar accepted", " unlike by standard extraction");
   if(threw) CHECK(same_bits(x.val(), old.val()), "scalar changed", what, " scalar was refused but became ", show<T>(x.val()));
   else CHECK(same_bits(x.val(), y), "scalar", what, " scalar read as ", show<T>(x.val()), " instead of ", show<T>(y));
   ev(ok ? "accepted scalar" : "rejected scalar");
   (void)r;
}

template <class T> void go(Case& c) {
   Rng& r = c.r;
   c.nontrivial = true;
   for(int rep = 0; rep < 4; ++rep) {
      bool rows = r.chance(55);
      auto text = rows ? text2<T>(r) : text1<T>(r);
      if(r.chance(4)) {
         text.clear();
         i64 n = r.in(0, 12);
         for(i64 i = 0; i < n; ++i) text += char(r.below(256));
      }
      if(r.chance(45)) mutate(r, text), ev("mutated");
      auto what = in_quotes(text);
      logs(what);
      c.note(text);
      auto one = parse_row<T>(text);
      auto two = parse_rows<T>(text);
      if(r.chance(50)) attempt<Array1D<T>>(r, text, one, what);
      else attempt<Array1D<T, Aligned>>(r, text, one, what);
      if(r.chance(50)) attempt<Array2D<T>>(r, text, two, what);
      else attempt<Array2D<T, Aligned>>(r, text, two, what);
      scalar<T>(r, text, what);
   }
}

template <int K> void kase(Case& c) {
   if constexpr(K == 0) go<int>(c);
   if constexpr(K == 1) go<double>(c);
   if constexpr(K == 2) go<float>(c);
   if constexpr(K == 3) go<long>(c);
   if constexpr(K == 4) go<unsigned>(c);
   if constexpr(K == 5) go<long double>(c);
   if constexpr(K == 6) go<bool>(c);
   if constexpr(K == 7) go<unsigned long>(c);
#ifdef STRICT_QUAD_PRECISION
   if constexpr(K == 8) go<float128>(c);
#endif
}
#ifdef STRICT_QUAD_PRECISION
constexpr int N = 9;
#else
constexpr int N = 8;
#endif
int main(int argc, char** argv) {
   return h::run(argc, argv, [](Case& c) { dispatch<N>(c, []<int K>(Case& cc) { kase<K>(cc); }); });
}
