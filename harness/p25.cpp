// P25: digests of the results of valid calls, to be compared between builds by the driver.
#include "private.hpp"
using namespace w;

template <class T> void save(Case& c, const T& d) {
   if(g.digests.capacity() == 0) g.digests.reserve(g.cases / g.nshards + 4);
   if(!g.digests.empty() && g.digests.back().first == c.id) g.digests.back().second = d.h;
   else g.digests.push_back({c.id, d.h});
   g.checks += d.items;
   if(g.text) std::fprintf(stderr, "TEXT%s\nENDTEXT\n", d.t.c_str());
}

template <class T, int G> void one(Case& c, Dig& d) {
   Rng& r = c.r;
   i64 n = r.chance(15) ? 7 : rsize(r, 30);
   auto v = values<T>(r, n), w2 = values<T>(r, n);
   u64 s1 = r.next();
   bool other = r.chance(60);
   auto f = [&](auto& a) { read1<G>(d, Rng(s1), a, w2); };
   if(other) hold1<1 + G, T>(r, v, f);
   else hold1<0, T>(r, v, f);
   d.op("write");
   hold1<2, T>(r, v, [&](auto& a) { write1(d, Rng(s1), a, w2); });
}
template <class T, int G> void two(Case& c, Dig& d) {
   Rng& r = c.r;
   i64 nr = rsize(r, 9), nc = nr ? r.in(1, 9) : 0;
   if(nr > 9) nr = 9;
   if(r.chance(20)) nr = 3, nc = 4;
   auto v = values<T>(r, nr, nc), w2 = values<T>(r, nr, nc);
   u64 s1 = r.next();
   auto f = [&](auto& a) { read2<G>(d, Rng(s1), a, w2); };
   if(r.chance(60)) hold2<1 + G % 7, T>(r, v, f);
   else hold2<0, T>(r, v, f);
   if(nr) {
      d.op("write");
      hold2<2, T>(r, v, [&](auto& a) { write2(d, Rng(s1), a, w2); });
   }
}

constexpr int N0 = G1 + G2;          // groups on double
constexpr int N1 = N0 + G1 + G2;     // and on int
constexpr int N2 = N1 + 6;           // some on other types
constexpr int N3 = N2 + 9;           // edits, scalars, text

int main(int argc, char** argv) {
   return h::run(argc, argv, [](Case& c) {
      dispatch<N3>(c, []<int K>(Case& c) {
         Dig d;
         d.invalid = false;
         d.text = g.text;
         if constexpr(K < N0) {
            if constexpr(K < G1) one<double, K>(c, d), ev("1D double");
            else two<double, K - G1>(c, d), ev("2D double");
         } else if constexpr(K < N1) {
            if constexpr(K - N0 < G1) one<int, K - N0>(c, d), ev("1D int");
            else two<int, K - N0 - G1>(c, d), ev("2D int");
         } else if constexpr(K < N2) {
            if constexpr(K - N1 == 0) one<float, 3>(c, d);
            if constexpr(K - N1 == 1) one<float, 4>(c, d);
            if constexpr(K - N1 == 2) two<long double, 3>(c, d);
            if constexpr(K - N1 == 3) one<bool, 5>(c, d);
            if constexpr(K - N1 == 4) two<unsigned, 5>(c, d);
            if constexpr(K - N1 == 5) one<unsigned, 3>(c, d);
            ev("other types");
         } else {
            constexpr int q = K - N2;
            using T = std::tuple_element_t<q % 3, std::tuple<double, int, float>>;
            if constexpr(q / 3 == 0) edits<T>(c, d), ev("edits");
            if constexpr(q / 3 == 1) scalars<T>(c, d), ev("scalars");
            if constexpr(q / 3 == 2) io<T>(c, d), ev("text");
         }
         save(c, d);
         c.note(d.h);
         c.nontrivial = true;
      });
   });
}
