// P01: the programs the library comes with, under the sanitizers and with run-time checks enabled.
// (example5 is left out: it fills 512 MB and only adds the arithmetic of one loop.)
#include "common.hpp"
#include <cassert>
#include <cstdlib>
#include <exception>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <numeric>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>

#define main program
namespace ex0 {
#include <examples/example0.cpp>
}
namespace ex1 {
#include <examples/example1.cpp>
}
namespace ex2 {
#include <examples/example2.cpp>
}
namespace ex3 {
#include <examples/example3.cpp>
}
namespace ex4 {
#include <examples/example4.cpp>
}
namespace ex6 {
#include <examples/example6.cpp>
}
#undef main

int main(int argc, char** argv) {
   return h::run(argc, argv, [](h::Case& c) {
      int k = int(c.id % 12);
      int (*const programs[])() = {ex0::program, ex1::program, ex2::program, ex6::program, ex3::program, ex4::program};
      const char* const names[] = {"example0", "example1", "example2", "example6", "example3", "example4"};
      // the long ones come once
      if(k >= 6 || (c.id >= 12 && k >= 4)) k = k % 4;
      std::ostringstream out;
      auto* o = std::cout.rdbuf(out.rdbuf());
      int rc = 0;
      std::string what;
      try {
         rc = programs[k]();
      } catch(const std::exception& x) {
         rc = -1, what = x.what();
      }
      std::cout.rdbuf(o);
      spp::format.reset();
      using namespace h;
      CHECK(rc == 0, "example", names[k], " ended with ", rc, " ", what);
      h::ev(names[k]);
      c.note(c.id);
      c.nontrivial = true;
   });
}
