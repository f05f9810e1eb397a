From 8765590e35e76a5b07d8e50143ba24c918269fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:41 +0000
Subject: [PATCH 01/41] fix: remove_row(Last) and remove_col(Last) honour the
 offset from the end

---
 strictpp/array_base2D.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 8fa29be..16af20e 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -363,8 +363,8 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Pos row_pos) {
 
 
 template <Builtin T, AlignmentFlag AF>
-STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row([[maybe_unused]] Last lst) {
-   return this->remove_row(this->rows() - 1_sl);
+STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Last lst) {
+   return this->remove_row(this->rows() - 1_sl - lst.get());
 }
 
 
@@ -381,8 +381,8 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Pos col_pos) {
 
 
 template <Builtin T, AlignmentFlag AF>
-STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col([[maybe_unused]] Last lst) {
-   return this->remove_col(this->cols() - 1_sl);
+STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Last lst) {
+   return this->remove_col(this->cols() - 1_sl - lst.get());
 }
 
 
-- 
2.43.0


From 22899efc20aee79b3f78a50b4f4c963e14d6914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:41 +0000
Subject: [PATCH 02/41] fix: exclude(A, Last) honours the offset from the end

---
 strictpp/Expr/special.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 68f8919..28911fa 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -410,8 +410,8 @@ STRICT_CONSTEXPR auto exclude(const Base& A, Pos pos, Count count) {
 
 
 template <OneDimBaseType Base>
-STRICT_CONSTEXPR auto exclude(const Base& A, [[maybe_unused]] Last lst) {
-   return exclude(A, A.size_m1());
+STRICT_CONSTEXPR auto exclude(const Base& A, Last lst) {
+   return exclude(A, A.size_m1() - lst.get());
 }
 
 
-- 
2.43.0


From 51a27b11d58a404cc23ec486b21f5e56cd15ce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:41 +0000
Subject: [PATCH 03/41] fix: self-move assignment of a 2D array keeps its
 dimensions

---
 strictpp/array_base2D.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 16af20e..f00ebe7 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -219,9 +219,11 @@ STRICT_CONSTEXPR ArrayBase2D<T, AF>& ArrayBase2D<T, AF>::operator=(const ArrayBa
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR ArrayBase2D<T, AF>& ArrayBase2D<T, AF>::operator=(ArrayBase2D&& A) noexcept {
-   NORMAL_ASSERT_STRICT_DEBUG(same_size(*this, A));
-   A.dims_ = 0_sl;
-   data1D_ = std::move(A.data1D_);
+   if(this != &A) {
+      NORMAL_ASSERT_STRICT_DEBUG(same_size(*this, A));
+      A.dims_ = 0_sl;
+      data1D_ = std::move(A.data1D_);
+   }
    return *this;
 }
 
-- 
2.43.0


From 54e6dd9ede0d90f87c782f4d2a050540d1dce0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 04/41] fix: reading a row longer than the first one never
 writes out of bounds

---
 strictpp/array_IO.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 5ca2934..58ed009 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -156,6 +156,7 @@ void get_row(const std::string& line, index_t row, Array2D<T, AF>& A) {
    std::istringstream iss{line};
    index_t ncols{};
    while(iss >> x) {
+      ASSERT_STRICT_ALWAYS(ncols < A.cols());
       A(row, ncols++) = Strict{x};
    }
 
-- 
2.43.0


From 9810f43a8ccd6abca2438c84efe5b6a13978e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 05/41] fix: reading rejects a malformed or out-of-range last
 value instead of dropping it

---
 strictpp/array_IO.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 58ed009..6e08a47 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -110,7 +110,10 @@ std::istream& istream_base_read(std::istream& is, Array1D<T, AF>& A) {
    index_t count{};
 
    Array1D<T, AF> tmp(8);
-   while(is >> x) {
+   // Skip whitespace first so that end of input is not confused with a malformed last value.
+   while(is >> std::ws && !is.eof()) {
+      is >> x;
+      ASSERT_STRICT_ALWAYS_MSG(!is.fail(), "Invalid input.\n");
       tmp.un(count++) = Strict{x};
       if(tmp.size() == count) {
          tmp.resize(2_sl * count);
@@ -133,7 +136,9 @@ void get_first_row(const std::string& line, Array2D<T, AF>& A) {
    T x{};
    std::istringstream iss{line};
    index_t ncols{};
-   while(iss >> x) {
+   while(iss >> std::ws && !iss.eof()) {
+      iss >> x;
+      ASSERT_STRICT_ALWAYS_MSG(!iss.fail(), "Invalid input.\n");
       A(0, ncols++) = Strict{x};
       if(A.cols() == ncols) {
          A.resize(1, 2_sl * ncols);
@@ -155,7 +160,9 @@ void get_row(const std::string& line, index_t row, Array2D<T, AF>& A) {
    T x{};
    std::istringstream iss{line};
    index_t ncols{};
-   while(iss >> x) {
+   while(iss >> std::ws && !iss.eof()) {
+      iss >> x;
+      ASSERT_STRICT_ALWAYS_MSG(!iss.fail(), "Invalid input.\n");
       ASSERT_STRICT_ALWAYS(ncols < A.cols());
       A(row, ncols++) = Strict{x};
    }
-- 
2.43.0


From b0c61149abbe36a34c7aa4a4ee82a4a62198a827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 06/41] fix: transpose of a temporary slice or expression does
 not dangle

---
 strictpp/ArrayCommon/array_traits.hpp | 7 +++++++
 strictpp/Expr/special.hpp             | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/strictpp/ArrayCommon/array_traits.hpp b/strictpp/ArrayCommon/array_traits.hpp
index eba82cf..97569e7 100644
--- a/strictpp/ArrayCommon/array_traits.hpp
+++ b/strictpp/ArrayCommon/array_traits.hpp
@@ -106,6 +106,13 @@ struct CopyOrReferenceExpr<T> {
 };
 
 
+// Used by operations that keep an operand inside of a function object. Unlike for expression
+// templates, objects that cannot be copied are stored by reference.
+template <typename T>
+using OperandStorage =
+   std::conditional_t<CopyStorable<T> && std::is_copy_constructible_v<T>, const T, const T&>;
+
+
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 // Requires clause avoids out-of-bound access. Offset is moved to the right-hand
 // side to avoid subtraction for unsigned integers.
diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 28911fa..dd81de8 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -14,6 +14,7 @@
 #include "types.hpp"
 #include "unary.hpp"
 
+#include <tuple>
 #include <type_traits>
 
 
@@ -512,7 +513,8 @@ STRICT_CONSTEXPR auto identity(ImplicitInt n) {
 
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto transpose(const Base& A) {
-   auto op = [&A](index_t i, index_t j) { return A.un(j, i); };
+   std::tuple<detail::OperandStorage<Base>> storage{A};
+   auto op = [storage](index_t i, index_t j) { return std::get<0>(storage).un(j, i); };
    using E = detail::IndexExpr2D<BuiltinTypeOf<Base>, decltype(op)>;
    return StrictArrayBase2D<E>{A.cols(), A.rows(), op};
 }
-- 
2.43.0


From b3e9da56e5249070bc95343d0c52523a430edda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:35 +0000
Subject: [PATCH 07/41] fix: matvec_prod stored lazily does not refer to
 destroyed locals

---
 strictpp/Expr/binary.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index d435432..950e29b 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -13,6 +13,7 @@
 #include "special.hpp"
 #include "types.hpp"
 
+#include <tuple>
 #include <utility>
 
 
@@ -724,7 +725,8 @@ STRICT_CONSTEXPR auto matvec_prod(const Base1& A, const Base2& x) {
       }
       return s;
    };
-   return row_reduce(A, [&x, &dot](auto row) { return dot(row, x); });
+   std::tuple<detail::OperandStorage<Base2>> storage{x};
+   return row_reduce(A, [storage, dot](auto row) { return dot(row, std::get<0>(storage)); });
 }
 
 
-- 
2.43.0


From a6d5ea3ad62fe94d20619390c6e8f0123620f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 08/41] fix: linspace of size 1 contains the start value
 instead of NaN

---
 strictpp/Expr/special.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index dd81de8..871bedf 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -434,8 +434,9 @@ template <Floating T>
 STRICT_CONSTEXPR auto linspace(ImplicitInt size, Strict<T> start, Strict<T> end) {
    ASSERT_STRICT_DEBUG(size.get() > 0_sl);
    auto sz = size.get();
-   return StrictArrayBase1D<detail::SequenceExpr1D<T>>{
-      start, sz, (end - start) / strict_cast<T>(sz - 1_sl)};
+   // A single point has no spacing, avoid division by 0.
+   auto incr = sz == 1_sl ? Zero<T> : (end - start) / strict_cast<T>(sz - 1_sl);
+   return StrictArrayBase1D<detail::SequenceExpr1D<T>>{start, sz, incr};
 }
 
 
-- 
2.43.0


From e0d7d9013275f3a2eeabbf3870913548c295c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 09/41] fix: semi-random generator has full period so that
 semi_random_not0 terminates

---
 strictpp/Util/semi_random.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index be51207..320e4b7 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -177,8 +177,11 @@ public:
    }
 
 private:
+   // Multiplier and increment are chosen so that the generator has full period(multiplier - 1 is
+   // divisible by 20 and increment is coprime with modulus); otherwise some values in the range
+   // would never be generated and loops that reject zeros would not terminate.
    static constexpr Strict<unsigned> modulus_{10'000'000U};
-   static constexpr Strict<unsigned> multiplier_{8U};
+   static constexpr Strict<unsigned> multiplier_{421U};
    static constexpr Strict<unsigned> increment_{13U};
    mutable Strict<unsigned> previous_;
    Strict<T> low_;
-- 
2.43.0


From 3b7c212b455002e710f8116f70072e5aa5c44027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 10/41] fix: semi_random overloads that take named arguments or
 a range compile

---
 strictpp/Util/semi_random.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index 320e4b7..72c5555 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -76,7 +76,7 @@ constexpr void semi_random_not0(Base&&... A);
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-template <Real T, typename U>
+template <Real T>
 constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high,
                            Seed seed = Seed{One<unsigned>});
 
@@ -397,7 +397,7 @@ constexpr void semi_random_not0(Base&&... A) {
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-template <Real T, typename U>
+template <Real T>
 constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high, Seed seed) {
    return detail::semi_random<T>(n, low, high, seed.get());
 }
@@ -405,7 +405,7 @@ constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high, Seed se
 
 template <Real T>
 constexpr auto semi_random(Size n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random<T>(n.get(), low.get(), high.get(), seed.get());
+   return semi_random<T>(n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -417,7 +417,7 @@ constexpr auto semi_random(ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Size n, Seed seed) {
-   return semi_random<T>(n.get(), seed.get());
+   return semi_random<T>(n.get(), seed);
 }
 
 
@@ -429,7 +429,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Strict<T> low, Strict<T
 
 template <Real T>
 constexpr auto semi_random(Rows m, Cols n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), low.get(), high.get(), seed.get());
+   return semi_random<T>(m.get(), n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -441,7 +441,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Rows m, Cols n, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), seed.get());
+   return semi_random<T>(m.get(), n.get(), seed);
 }
 
 
@@ -454,7 +454,7 @@ constexpr auto semi_random_not0(ImplicitInt n, Strict<T> low, Strict<T> high, Se
 
 template <Real T>
 constexpr auto semi_random_not0(Size n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random_not0<T>(n.get(), low.get(), high.get(), seed.get());
+   return semi_random_not0<T>(n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -466,7 +466,7 @@ constexpr auto semi_random_not0(ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Size n, Seed seed) {
-   return semi_random_not0<T>(n.get(), seed.get());
+   return semi_random_not0<T>(n.get(), seed);
 }
 
 
@@ -479,7 +479,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Strict<T> low, Str
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), low.get(), high.get(), seed.get());
+   return semi_random_not0<T>(m.get(), n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -491,7 +491,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), seed.get());
+   return semi_random_not0<T>(m.get(), n.get(), seed);
 }
 
 
-- 
2.43.0


From 4665fe491f0a24f75036eab837ea5762465c43d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 11/41] fix: index list slices of temporary 1D arrays are
 rejected

---
 strictpp/derived1D.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strictpp/derived1D.hpp b/strictpp/derived1D.hpp
index 6544494..01fcbba 100644
--- a/strictpp/derived1D.hpp
+++ b/strictpp/derived1D.hpp
@@ -230,7 +230,9 @@ public:
       return operator()(std::move(slice));
    }
 
-   STRICT_CONSTEXPR auto operator()(use::IndexList list) && {
+   STRICT_CONSTEXPR auto operator()(use::IndexList list) &&
+      requires(!detail::ArrayOneDimType<StrictArrayBase1D>)
+   {
       return operator()(std::move(list));
    }
 
@@ -251,6 +253,10 @@ public:
       requires detail::ArrayOneDimType<StrictArrayBase1D>
    = delete;
 
+   STRICT_CONSTEXPR auto operator()(use::IndexList list) const&&
+      requires detail::ArrayOneDimType<StrictArrayBase1D>
+   = delete;
+
    STRICT_CONSTEXPR auto view1D() const&&
       requires detail::ArrayOneDimType<StrictArrayBase1D>
    = delete;
-- 
2.43.0


From 7fa22b12a38571499550184a254e16619d01c173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 12/41] fix: printing a 2D array with infinities, NaNs or the
 smallest integer has no undefined behavior

---
 strictpp/array_IO.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 6e08a47..16a483b 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -15,6 +15,7 @@
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -206,7 +207,8 @@ std::istream& istream_base_read(std::istream& is, Array2D<T, AF>& A) {
 
 
 auto count_digit(Real auto number) -> int {
-   if(number == 0) {
+   // Infinities and NaNs do not have digits.
+   if(!(number > 0) || number > std::numeric_limits<decltype(number)>::max()) {
       return 1;
    }
    return static_cast<int>(std::log10(number)) + 1;
@@ -272,16 +274,28 @@ std::ostream& ostream_base_print(std::ostream& os, OneDimBaseType auto const& A,
 }
 
 
+// Absolute value of the smallest integer is not representable, but the largest integer is printed
+// with the same number of digits.
+const auto printed_abs = []<Builtin T>(Strict<T> x) -> Strict<T> {
+   if constexpr(SignedInteger<T>) {
+      if(x == Strict{std::numeric_limits<T>::min()}) {
+         return Strict{std::numeric_limits<T>::max()};
+      }
+   }
+   return abss(x);
+};
+
+
 auto max_if_needed(TwoDimBaseType auto const& A) {
    using builtin_type = BuiltinTypeOf<decltype(A)>;
    auto max_abs = Zero<builtin_type>;
    if constexpr(Integer<builtin_type> || Floating<builtin_type>) {
       if constexpr(std::is_copy_constructible_v<RemoveRef<decltype(A)>>) {
-         max_abs = max(abs(A.view1D()));
+         max_abs = max(generate(A.view1D(), printed_abs));
       } else {
          // Handle random expression templates differently since max(abs()) operation
          // is not allowed due to deleted copy constructor.
-         max_abs = maxs(abss(A.low_rand()), abss(A.high_rand()));
+         max_abs = maxs(printed_abs(A.low_rand()), printed_abs(A.high_rand()));
       }
    }
    return max_abs;
-- 
2.43.0


From ade1d10c46a40480453e76ec8fbd3cf01a1451be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 13/41] fix: printing a 2D array of quadruple precision values
 compiles

---
 strictpp/array_IO.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 16a483b..40690eb 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -211,7 +211,7 @@ auto count_digit(Real auto number) -> int {
    if(!(number > 0) || number > std::numeric_limits<decltype(number)>::max()) {
       return 1;
    }
-   return static_cast<int>(std::log10(number)) + 1;
+   return static_cast<int>(std::log10(static_cast<long double>(number))) + 1;
 }
 
 
-- 
2.43.0


From 40f61b5198ecfa089108d8508c5c47a88fc7e9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 14/41] fix: quadruple precision values with many digits are
 not truncated when printed

---
 strictpp/StrictCommon/strict_IO.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/strictpp/StrictCommon/strict_IO.hpp b/strictpp/StrictCommon/strict_IO.hpp
index 54cf842..4b182fc 100644
--- a/strictpp/StrictCommon/strict_IO.hpp
+++ b/strictpp/StrictCommon/strict_IO.hpp
@@ -243,17 +243,23 @@ std::istream& operator>>(std::istream& is, Strict<T>& x) {
 
 template <Quadruple T>
 std::ostream& operator<<(std::ostream& os, T x) {
-   static thread_local char buf[128];
+   // Number of digits is not bounded by a small constant, request the length first.
+   auto print_quad = [&os, x](const std::string& frmt, int width) {
+      const int n = quadmath_snprintf(nullptr, 0, frmt.c_str(), width, x);
+      std::string buf(static_cast<std::string::size_type>(n) + 1, '\0');
+      quadmath_snprintf(buf.data(), buf.size(), frmt.c_str(), width, x);
+      buf.pop_back();
+      os << buf;
+   };
    if(format.scientific_) {
       std::string frmt = "%+-#*." + std::to_string(format.precision_[3]) + std::string("QE");
       int width = format.precision_[3] + 7;
-      quadmath_snprintf(buf, sizeof(buf), frmt.c_str(), width, x);
+      print_quad(frmt, width);
    } else {
       std::string frmt = "%+-#*." + std::to_string(format.precision_[3]) + std::string("QF");
       int width = format.precision_[3] + 3;
-      quadmath_snprintf(buf, sizeof(buf), frmt.c_str(), width, x);
+      print_quad(frmt, width);
    }
-   os << buf;
    return os;
 }
 
-- 
2.43.0


From 61241f13b3c5f20be610dcfe2b7f5c9a02b83e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:58 +0000
Subject: [PATCH 15/41] fix: insert_row and insert_col into an empty 2D array
 leave it unchanged on failure

---
 strictpp/array_base2D.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index f00ebe7..2cd3042 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -557,8 +557,9 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::insert_row(ImplicitInt row_pos,
    ASSERT_STRICT_DEBUG(row_pos.get() >= 0_sl && row_pos.get() <= this->rows());
    // Ensure A is not empty to satisfy semi_valid_row_col_sizes.
    if(this->rows() == 0_sl && this->cols() == 0_sl && A.size() != 0_sl) {
-      this->resize(1, A.size());
-      copyn(A, *this, A.size());
+      ArrayBase2D tmp(1, A.size());
+      copyn(A, tmp, A.size());
+      this->swap(tmp);
       return static_cast<StrictArray2D<ArrayBase2D>&>(*this);
    }
 
@@ -607,8 +608,9 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::insert_col(ImplicitInt col_pos,
    ASSERT_STRICT_DEBUG(col_pos.get() >= 0_sl && col_pos.get() <= this->cols());
    // Ensure A is not empty to satisfy semi_valid_row_col_sizes.
    if(this->rows() == 0_sl && this->cols() == 0_sl && A.size() != 0_sl) {
-      this->resize(A.size(), 1);
-      copyn(A, *this, A.size());
+      ArrayBase2D tmp(A.size(), 1);
+      copyn(A, tmp, A.size());
+      this->swap(tmp);
       return static_cast<StrictArray2D<ArrayBase2D>&>(*this);
    }
 
-- 
2.43.0


From 5ba68ca9c944a7ba3304c1754e54e926b48b50a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:01 +0000
Subject: [PATCH 16/41] fix: elementwise operations on two index list slices of
 the same type compile

---
 strictpp/ArrayCommon/algorithm.hpp |  2 +-
 strictpp/Expr/binary.hpp           | 86 +++++++++++++++---------------
 strictpp/Util/error_tools.hpp      |  4 +-
 3 files changed, 46 insertions(+), 46 deletions(-)

diff --git a/strictpp/ArrayCommon/algorithm.hpp b/strictpp/ArrayCommon/algorithm.hpp
index 2eea48b..6101171 100644
--- a/strictpp/ArrayCommon/algorithm.hpp
+++ b/strictpp/ArrayCommon/algorithm.hpp
@@ -41,7 +41,7 @@ STRICT_CONSTEXPR_INLINE void copy(It b, It e, Base& A) {
 
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR_INLINE void copy(use::List1D<ValueTypeOf<Base>> L, Base& A) {
-   copy(L.begin(), L.end(), A);
+   detail::copy(L.begin(), L.end(), A);
 }
 
 
diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index 950e29b..3852424 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -465,251 +465,251 @@ STRICT_CONSTEXPR auto generate(const Base1& A1, const Base2& A2, F f) {
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator+(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryPlus{});
+   return spp::generate(A1, A2, expr::BinaryPlus{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator-(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryMinus{});
+   return spp::generate(A1, A2, expr::BinaryMinus{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator*(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryMult{});
+   return spp::generate(A1, A2, expr::BinaryMult{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator/(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryDivide{});
+   return spp::generate(A1, A2, expr::BinaryDivide{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator%(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryModulo{});
+   return spp::generate(A1, A2, expr::BinaryModulo{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator<<(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryRightShift{});
+   return spp::generate(A1, A2, expr::BinaryRightShift{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator>>(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryLeftShift{});
+   return spp::generate(A1, A2, expr::BinaryLeftShift{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator&(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseAnd{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseAnd{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator|(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseOr{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseOr{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator^(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseXor{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseXor{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator&&(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanAnd{});
+   return spp::generate(A1, A2, expr::BinaryBooleanAnd{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator||(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanOr{});
+   return spp::generate(A1, A2, expr::BinaryBooleanOr{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator^(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanXor{});
+   return spp::generate(A1, A2, expr::BinaryBooleanXor{});
 }
 
 
 template <FloatingBaseType Base1, FloatingBaseType Base2>
 auto two_prod(const Base1& A1, const Base2& A2) {
-   return std::pair{generate(A1, A2, expr::BinaryTwoProdFirst{}),
-                    generate(A1, A2, expr::BinaryTwoProdSecond{})};
+   return std::pair{spp::generate(A1, A2, expr::BinaryTwoProdFirst{}),
+                    spp::generate(A1, A2, expr::BinaryTwoProdSecond{})};
 }
 
 
 template <FloatingBaseType Base1, SignedIntegerBaseType Base2>
 auto pow_prod(const Base1& A1, const Base2& A2) {
-   return std::pair{generate(A1, A2, expr::BinaryPowProdFirst{}),
-                    generate(A1, A2, expr::BinaryPowProdSecond{})};
+   return std::pair{spp::generate(A1, A2, expr::BinaryPowProdFirst{}),
+                    spp::generate(A1, A2, expr::BinaryPowProdSecond{})};
 }
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <RealBaseType Base>
 STRICT_CONSTEXPR auto operator+(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryPlus{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryPlus{});
 }
 
 
 template <RealBaseType Base>
 STRICT_CONSTEXPR auto operator-(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryMinus{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryMinus{});
 }
 
 
 template <RealBaseType Base>
 STRICT_CONSTEXPR auto operator*(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryMult{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryMult{});
 }
 
 
 template <RealBaseType Base>
 STRICT_CONSTEXPR auto operator/(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryDivide{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryDivide{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator%(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryModulo{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryModulo{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator<<(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryRightShift{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryRightShift{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator>>(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryLeftShift{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryLeftShift{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator&(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryBitwiseAnd{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryBitwiseAnd{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator|(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryBitwiseOr{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryBitwiseOr{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator^(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryBitwiseXor{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryBitwiseXor{});
 }
 
 
 template <BooleanBaseType Base>
 STRICT_CONSTEXPR auto operator&&(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryBooleanAnd{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryBooleanAnd{});
 }
 
 
 template <BooleanBaseType Base>
 STRICT_CONSTEXPR auto operator||(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryBooleanOr{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryBooleanOr{});
 }
 
 
 template <BooleanBaseType Base>
 STRICT_CONSTEXPR auto operator^(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryBooleanXor{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryBooleanXor{});
 }
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <RealBaseType Base>
 STRICT_CONSTEXPR auto operator+(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryPlus{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryPlus{});
 }
 
 
 template <RealBaseType Base>
 STRICT_CONSTEXPR auto operator-(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryMinus{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryMinus{});
 }
 
 
 template <RealBaseType Base>
 STRICT_CONSTEXPR auto operator*(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryMult{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryMult{});
 }
 
 
 template <RealBaseType Base>
 STRICT_CONSTEXPR auto operator/(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryDivide{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryDivide{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator%(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryModulo{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryModulo{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator<<(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryRightShift{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryRightShift{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator>>(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryLeftShift{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryLeftShift{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator&(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryBitwiseAnd{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryBitwiseAnd{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator|(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryBitwiseOr{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryBitwiseOr{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator^(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryBitwiseXor{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryBitwiseXor{});
 }
 
 
 template <BooleanBaseType Base>
 STRICT_CONSTEXPR auto operator&&(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryBooleanAnd{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryBooleanAnd{});
 }
 
 
 template <BooleanBaseType Base>
 STRICT_CONSTEXPR auto operator||(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryBooleanOr{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryBooleanOr{});
 }
 
 
 template <BooleanBaseType Base>
 STRICT_CONSTEXPR auto operator^(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryBooleanXor{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryBooleanXor{});
 }
 
 
diff --git a/strictpp/Util/error_tools.hpp b/strictpp/Util/error_tools.hpp
index cd884de..969e149 100644
--- a/strictpp/Util/error_tools.hpp
+++ b/strictpp/Util/error_tools.hpp
@@ -64,7 +64,7 @@ STRICT_CONSTEXPR StrictBool within_tol_abs(
    if(A1.empty()) {
       return empty_default;
    }
-   return all_of(A1, A2, [tol](const auto& x, const auto& y) { return within_tol_abs(x, y, tol); });
+   return spp::all_of(A1, A2, [tol](const auto& x, const auto& y) { return within_tol_abs(x, y, tol); });
 }
 
 
@@ -78,7 +78,7 @@ STRICT_CONSTEXPR StrictBool within_tol_rel(
    if(A1.empty()) {
       return empty_default;
    }
-   return all_of(A1, A2, [tol, near_zero](const auto& x, const auto& y) {
+   return spp::all_of(A1, A2, [tol, near_zero](const auto& x, const auto& y) {
       return within_tol_rel(x, y, tol, near_zero);
    });
 }
-- 
2.43.0


From 52c11348cb77d5ffc0c8bd4bc346f33b963d98d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:16 +0000
Subject: [PATCH 17/41] fix: generate rejects temporary arrays like the other
 lazy operations

---
 strictpp/Expr/binary.hpp | 6 ++++++
 strictpp/Expr/unary.hpp  | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index 3852424..5cdaeb4 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -95,6 +95,12 @@ auto pow_prod(const Base1& A1, const Base2& A2);
 // a deleted overload in some cases, such as Array1D<double>(3) + 1._sd.
 
 
+template <typename Base1, typename Base2, typename F>
+   requires BaseType<RemoveRef<Base1>> && BaseType<RemoveRef<Base2>>
+            && (detail::ArrayTypeRvalue<Base1> || detail::ArrayTypeRvalue<Base2>)
+STRICT_CONSTEXPR auto generate(Base1&& A1, Base2&& A2, F f) = delete;
+
+
 template <typename Base1, typename Base2>
    requires(detail::RealExprDeleted<Base1, Base2>)
 STRICT_CONSTEXPR auto operator+(Base1&& A1, Base2&& A2) = delete;
diff --git a/strictpp/Expr/unary.hpp b/strictpp/Expr/unary.hpp
index a9f1cb8..9c0695f 100644
--- a/strictpp/Expr/unary.hpp
+++ b/strictpp/Expr/unary.hpp
@@ -100,6 +100,11 @@ STRICT_CONSTEXPR auto array_cast(const Base& A);
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 // Deleted overloads.
+template <typename Base, typename F>
+   requires detail::ArrayTypeRvalue<Base>
+STRICT_CONSTEXPR auto generate(Base&& A, F f) = delete;
+
+
 template <typename Base>
    requires detail::ArrayRealTypeRvalue<Base>
 STRICT_CONSTEXPR auto operator+(Base&& A) = delete;
-- 
2.43.0


From a4cbce5bddc737f8eb5530d49c695352ecbbb875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:16 +0000
Subject: [PATCH 18/41] fix: pow_prod rejects temporary arrays

---
 strictpp/Expr/binary.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index 5cdaeb4..86ed3c7 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -172,7 +172,8 @@ auto two_prod(Base1&& A1, Base2&& A2) = delete;
 
 
 template <typename Base1, typename Base2>
-   requires(detail::FloatingExprDeleted<Base1, Base2>)
+   requires FloatingBaseType<RemoveRef<Base1>> && SignedIntegerBaseType<RemoveRef<Base2>>
+            && (detail::ArrayTypeRvalue<Base1> || detail::ArrayTypeRvalue<Base2>)
 auto pow_prod(Base1&& A1, Base2&& A2) = delete;
 
 
-- 
2.43.0


From c9330005a5a480809a2777cdcb8af367bd7204f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:16 +0000
Subject: [PATCH 19/41] fix: tensor_prod rejects a temporary array next to an
 lvalue

---
 strictpp/Expr/binary.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index 86ed3c7..afa3c7a 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -434,8 +434,9 @@ template <OneDimRealBaseType Base1, OneDimRealBaseType Base2>
 STRICT_CONSTEXPR auto tensor_prod(const Base1& A1, const Base2& A2);
 
 
-template <OneDimRealBaseType Base1, OneDimRealBaseType Base2>
-   requires(detail::RealExprDeleted<Base1, Base2>)
+template <typename Base1, typename Base2>
+   requires OneDimRealBaseType<RemoveRef<Base1>> && OneDimRealBaseType<RemoveRef<Base2>>
+            && (detail::ArrayRealTypeRvalue<Base1> || detail::ArrayRealTypeRvalue<Base2>)
 STRICT_CONSTEXPR auto tensor_prod(Base1&& A1, Base2&& A2) = delete;
 
 
-- 
2.43.0


From 099c719ceda7e104ac9985d4f9a101f11ed8bcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:46 +0000
Subject: [PATCH 20/41] fix: binom_coeff does not overflow when the result is
 representable

---
 strictpp/StrictCommon/strict_val_ops.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strictpp/StrictCommon/strict_val_ops.hpp b/strictpp/StrictCommon/strict_val_ops.hpp
index 9531dd2..6cd74ba 100644
--- a/strictpp/StrictCommon/strict_val_ops.hpp
+++ b/strictpp/StrictCommon/strict_val_ops.hpp
@@ -16,6 +16,7 @@
 #include <algorithm>
 #include <cstdlib>
 #include <memory>
+#include <numeric>
 
 
 namespace spp {
@@ -36,7 +37,10 @@ STRICT_NODISCARD_CONSTEXPR_INLINE Strict<long int> binom_coeff(ImplicitInt n, Im
 
    index_t prod = 1_sl;
    for(index_t f1 = d1 + 1_sl, f2 = 1_sl; f1 <= d1 + d2; ++f1, ++f2) {
-      prod = prod * f1 / f2; // Can prove that (prod * f1) is divisible by f2.
+      // Can prove that (prod * f1) is divisible by f2. Common factor is divided out first since
+      // prod * f1 can overflow even if the result is representable.
+      index_t common{std::gcd(prod.val(), f2.val())};
+      prod = prod / common * (f1 / (f2 / common));
    }
    return prod;
 }
-- 
2.43.0


From 663337e09c1b29ac385bb1793b602aec55d33a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 21/41] fix: none_of on two index list slices of the same type
 compiles

---
 strictpp/array_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/array_ops.hpp b/strictpp/array_ops.hpp
index 536c9f2..07c60e4 100644
--- a/strictpp/array_ops.hpp
+++ b/strictpp/array_ops.hpp
@@ -667,7 +667,7 @@ STRICT_CONSTEXPR StrictBool none_of(const Base1& A1, const Base2& A2, F f,
    if(A1.empty()) {
       return empty_default;
    }
-   return !any_of(A1, A2, f);
+   return !spp::any_of(A1, A2, f);
 }
 
 
-- 
2.43.0


From 43bfffd493780e98c405970affb4d717c4daf27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 22/41] fix: merge of six index list slices of the same type
 compiles

---
 strictpp/Expr/special.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 871bedf..b34106f 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -289,7 +289,7 @@ STRICT_CONSTEXPR_INLINE auto horizontal_op(auto const& A1E, auto const& A2E) {
 template <OneDimBaseType Base, OneDimBaseType... BaseArgs>
 STRICT_CONSTEXPR auto merge(const Base& A, const BaseArgs&... AArgs) {
    auto AE = generate(A, [](auto x) { return x; });
-   auto ArgsE = merge(AArgs...);
+   auto ArgsE = spp::merge(AArgs...);
    auto op = [AE, ArgsE](auto i) { return i < AE.size() ? AE.un(i) : ArgsE.un(i - AE.size()); };
    return generate(irange(AE.size() + ArgsE.size()), op);
 }
-- 
2.43.0


From d8be578e4aeb47c64e44033130d99002cbd4d6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:43 +0000
Subject: [PATCH 23/41] fix: semi_random<long>(Rows, Cols, Seed) and its not0
 form were ambiguous

---
 strictpp/Util/semi_random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index 72c5555..47c258f 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -441,7 +441,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Rows m, Cols n, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), seed);
+   return detail::semi_random<T>(m.get(), n.get(), Zero<T>, One<T>, seed.get());
 }
 
 
@@ -491,7 +491,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), seed);
+   return detail::semi_random_not0<T>(m.get(), n.get(), Zero<T>, One<T>, seed.get());
 }
 
 
-- 
2.43.0


From eb2502cdb89afdc72a322f270eebd35f9b49b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:23 +0000
Subject: [PATCH 24/41] fix: reading accepts only values separated by
 whitespace

---
 strictpp/array_IO.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 40690eb..85028a9 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -11,6 +11,7 @@
 #include "derived1D.hpp"
 #include "derived2D.hpp"
 
+#include <cctype>
 #include <cmath>
 #include <fstream>
 #include <iomanip>
@@ -105,6 +106,12 @@ inline detail::ArrayFormat array_format;
 namespace detail {
 
 
+// Values must be separated by whitespace, otherwise 1.2.3 or 1+2 would be read as two values.
+STRICT_INLINE bool value_ended(std::istream& is) {
+   return is.eof() || is.peek() == std::istream::traits_type::eof() || std::isspace(is.peek());
+}
+
+
 template <Builtin T, AlignmentFlag AF>
 std::istream& istream_base_read(std::istream& is, Array1D<T, AF>& A) {
    T x{};
@@ -114,7 +121,7 @@ std::istream& istream_base_read(std::istream& is, Array1D<T, AF>& A) {
    // Skip whitespace first so that end of input is not confused with a malformed last value.
    while(is >> std::ws && !is.eof()) {
       is >> x;
-      ASSERT_STRICT_ALWAYS_MSG(!is.fail(), "Invalid input.\n");
+      ASSERT_STRICT_ALWAYS_MSG(!is.fail() && value_ended(is), "Invalid input.\n");
       tmp.un(count++) = Strict{x};
       if(tmp.size() == count) {
          tmp.resize(2_sl * count);
@@ -139,7 +146,7 @@ void get_first_row(const std::string& line, Array2D<T, AF>& A) {
    index_t ncols{};
    while(iss >> std::ws && !iss.eof()) {
       iss >> x;
-      ASSERT_STRICT_ALWAYS_MSG(!iss.fail(), "Invalid input.\n");
+      ASSERT_STRICT_ALWAYS_MSG(!iss.fail() && value_ended(iss), "Invalid input.\n");
       A(0, ncols++) = Strict{x};
       if(A.cols() == ncols) {
          A.resize(1, 2_sl * ncols);
@@ -163,7 +170,7 @@ void get_row(const std::string& line, index_t row, Array2D<T, AF>& A) {
    index_t ncols{};
    while(iss >> std::ws && !iss.eof()) {
       iss >> x;
-      ASSERT_STRICT_ALWAYS_MSG(!iss.fail(), "Invalid input.\n");
+      ASSERT_STRICT_ALWAYS_MSG(!iss.fail() && value_ended(iss), "Invalid input.\n");
       ASSERT_STRICT_ALWAYS(ncols < A.cols());
       A(row, ncols++) = Strict{x};
    }
-- 
2.43.0


From 01c5ce1b4d37f4e5e82b415dc7bf95eb276de293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:23 +0000
Subject: [PATCH 25/41] fix: read error of a two-dimensional array is not taken
 for the end of input

---
 strictpp/array_IO.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 85028a9..347c5a1 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -208,6 +208,9 @@ std::istream& istream_base_read(std::istream& is, Array2D<T, AF>& A) {
       tmp.resize(row_count, ncols);
    }
 
+   // Input may have ended because of a read error.
+   ASSERT_STRICT_ALWAYS_MSG(is.eof(), "Invalid input.\n");
+
    A.swap(tmp);
    return is;
 }
-- 
2.43.0


From cefd1542b6d2041738e504bae77be2e46b002484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:50 +0000
Subject: [PATCH 26/41] fix: reading a quadruple precision value from exhausted
 input is reported

---
 strictpp/StrictCommon/strict_IO.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/StrictCommon/strict_IO.hpp b/strictpp/StrictCommon/strict_IO.hpp
index 4b182fc..89d75e9 100644
--- a/strictpp/StrictCommon/strict_IO.hpp
+++ b/strictpp/StrictCommon/strict_IO.hpp
@@ -236,6 +236,7 @@ template <Quadruple T>
 std::istream& operator>>(std::istream& is, Strict<T>& x) {
    float128 v;
    is >> v;
+   ASSERT_STRICT_ALWAYS(is);
    x = Strict{v};
    return is;
 }
-- 
2.43.0


From 3f8a3d7f1900525b290fc87fbd2f2d4fa125974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:50 +0000
Subject: [PATCH 27/41] fix: quadruple precision input rejects overflow and
 embedded null characters

---
 strictpp/StrictCommon/strict_IO.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/strictpp/StrictCommon/strict_IO.hpp b/strictpp/StrictCommon/strict_IO.hpp
index 89d75e9..35ffaeb 100644
--- a/strictpp/StrictCommon/strict_IO.hpp
+++ b/strictpp/StrictCommon/strict_IO.hpp
@@ -13,7 +13,7 @@
 #include "strict_traits.hpp"
 #include "strict_val.hpp"
 
-#include <cstring>
+#include <cerrno>
 #include <iomanip>
 #include <iostream>
 #include <limits>
@@ -225,8 +225,11 @@ std::istream& operator>>(std::istream& is, T& x) {
    is >> str;
    const char* s = str.c_str();
    char* p_end;
+   errno = 0;
    x = strtoflt128(s, &p_end);
-   ASSERT_STRICT_ALWAYS(p_end - s == static_cast<std::ptrdiff_t>(std::strlen(s)));
+   // Size of the string is used since it may contain null characters.
+   ASSERT_STRICT_ALWAYS(p_end - s == static_cast<std::ptrdiff_t>(str.size()));
+   ASSERT_STRICT_ALWAYS(errno != ERANGE || !isinfq(x));
 
    return is;
 }
-- 
2.43.0


From c0ba72ff68bc9096365c009be5411d11105ee950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 28/41] fix: constructing an array from reverse iterators
 compiles

---
 strictpp/array_base1D.hpp       | 2 +-
 strictpp/fixed_array_base1D.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/array_base1D.hpp b/strictpp/array_base1D.hpp
index 1e44c11..4636968 100644
--- a/strictpp/array_base1D.hpp
+++ b/strictpp/array_base1D.hpp
@@ -188,7 +188,7 @@ template <LinearIteratorType L>
 STRICT_NODISCARD_CONSTEXPR ArrayBase1D<T, AF>::ArrayBase1D(L b, L e)
    : ArrayBase1D(abss(Strict{e - b})) {
    ASSERT_STRICT_DEBUG(e >= b);
-   copy(b, e, *this);
+   detail::copy(b, e, *this);
 }
 
 
diff --git a/strictpp/fixed_array_base1D.hpp b/strictpp/fixed_array_base1D.hpp
index f7992d5..9e7ad0a 100644
--- a/strictpp/fixed_array_base1D.hpp
+++ b/strictpp/fixed_array_base1D.hpp
@@ -106,7 +106,7 @@ template <LinearIteratorType L>
 STRICT_NODISCARD_CONSTEXPR FixedArrayBase1D<T, N, AF>::FixedArrayBase1D(L b, L e) {
    ASSERT_STRICT_DEBUG(index_t{e - b} == N.get());
    ASSERT_STRICT_DEBUG(e >= b);
-   copy(b, e, *this);
+   detail::copy(b, e, *this);
 }
 
 
-- 
2.43.0


From 6f7982a0693c501c834c9ce8fe336192565fec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:02 +0000
Subject: [PATCH 29/41] fix: checks of the count in remove and exclude do not
 overflow

---
 strictpp/Expr/special.hpp | 2 +-
 strictpp/array_base1D.hpp | 3 ++-
 strictpp/array_base2D.hpp | 6 ++++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index b34106f..9e571b2 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -396,7 +396,7 @@ template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto exclude(const Base& A, ImplicitInt pos, ImplicitInt count) {
    ASSERT_STRICT_DEBUG(count.get() > 0_sl);
    ASSERT_STRICT_DEBUG(detail::valid_index(A, pos.get()));
-   ASSERT_STRICT_DEBUG(detail::valid_index(A, pos.get() + count.get() - 1_sl));
+   ASSERT_STRICT_DEBUG(count.get() <= A.size() - pos.get());
    auto AE = generate(A, [](auto x) { return x; });
    return generate(irange(A.size() - count.get()), [pos, count, AE](auto j) {
       return j < pos.get() ? AE.un(j) : AE.un(j + count.get());
diff --git a/strictpp/array_base1D.hpp b/strictpp/array_base1D.hpp
index 4636968..2a1d97f 100644
--- a/strictpp/array_base1D.hpp
+++ b/strictpp/array_base1D.hpp
@@ -322,7 +322,7 @@ template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase1D<T, AF>::remove(ImplicitInt pos, ImplicitInt count) {
    ASSERT_STRICT_DEBUG(count.get() > 0_sl);
    ASSERT_STRICT_DEBUG(valid_index(*this, pos.get()));
-   ASSERT_STRICT_DEBUG(valid_index(*this, pos.get() + count.get() - 1_sl));
+   ASSERT_STRICT_DEBUG(count.get() <= this->size() - pos.get());
 
    ArrayBase1D tmp(this->size() - count.get());
    copyn(*this, tmp, pos.get());
@@ -352,6 +352,7 @@ STRICT_CONSTEXPR auto& ArrayBase1D<T, AF>::remove_front(Count count) {
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase1D<T, AF>::remove_back(ImplicitInt count) {
+   ASSERT_STRICT_DEBUG(count.get() > 0_sl);
    return this->remove(this->size() - count.get(), count.get());
 }
 
diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 2cd3042..9ed7943 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -306,7 +306,7 @@ template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_rows(ImplicitInt row_pos, ImplicitInt count) {
    ASSERT_STRICT_DEBUG(count.get() > 0_sl);
    ASSERT_STRICT_DEBUG(valid_row(*this, row_pos.get()));
-   ASSERT_STRICT_DEBUG(valid_row(*this, row_pos.get() + count.get() - 1_sl));
+   ASSERT_STRICT_DEBUG(count.get() <= this->rows() - row_pos.get());
 
    index_t new_rows = this->rows() - count.get();
    ArrayBase2D tmp(new_rows, new_rows == 0_sl ? 0_sl : this->cols());
@@ -331,7 +331,7 @@ template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_cols(ImplicitInt col_pos, ImplicitInt count) {
    ASSERT_STRICT_DEBUG(count.get() > 0_sl);
    ASSERT_STRICT_DEBUG(valid_col(*this, col_pos.get()));
-   ASSERT_STRICT_DEBUG(valid_col(*this, col_pos.get() + count.get() - 1_sl));
+   ASSERT_STRICT_DEBUG(count.get() <= this->cols() - col_pos.get());
 
    index_t new_cols = this->cols() - count.get();
    ArrayBase2D tmp(new_cols == 0_sl ? 0_sl : this->rows(), new_cols);
@@ -402,6 +402,7 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_rows_front(Count count) {
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_rows_back(ImplicitInt count) {
+   ASSERT_STRICT_DEBUG(count.get() > 0_sl);
    return this->remove_rows(this->rows() - count.get(), count.get());
 }
 
@@ -426,6 +427,7 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_cols_front(Count count) {
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_cols_back(ImplicitInt count) {
+   ASSERT_STRICT_DEBUG(count.get() > 0_sl);
    return this->remove_cols(this->cols() - count.get(), count.get());
 }
 
-- 
2.43.0


From 7d5f057719cbf40e99e6fa91874a5fe37fcc5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:02 +0000
Subject: [PATCH 30/41] fix: seqN whose last index is not representable is
 rejected

---
 strictpp/slice.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/strictpp/slice.hpp b/strictpp/slice.hpp
index 9269851..a945240 100644
--- a/strictpp/slice.hpp
+++ b/strictpp/slice.hpp
@@ -45,8 +45,7 @@ public:
    template <BaseType BaseT>
    STRICT_CONSTEXPR StrictBool valid(const BaseT& A) const {
       if(size_ != 0_sl) {
-         return detail::valid_index(A, start_)
-             && detail::valid_index(A, start_ + stride_ * (size_ - 1_sl));
+         return detail::valid_index(A, start_) && this->valid_end(A.size());
       }
       return true_sb;
    }
@@ -54,8 +53,7 @@ public:
    template <TwoDimBaseType TwoDimBaseT>
    STRICT_CONSTEXPR StrictBool valid_first(const TwoDimBaseT& A) const {
       if(size_ != 0_sl) {
-         return detail::valid_row(A, start_)
-             && detail::valid_row(A, start_ + stride_ * (size_ - 1_sl));
+         return detail::valid_row(A, start_) && this->valid_end(A.rows());
       }
       return true_sb;
    }
@@ -63,13 +61,24 @@ public:
    template <TwoDimBaseType TwoDimBaseT>
    STRICT_CONSTEXPR StrictBool valid_second(const TwoDimBaseT& A) const {
       if(size_ != 0_sl) {
-         return detail::valid_col(A, start_)
-             && detail::valid_col(A, start_ + stride_ * (size_ - 1_sl));
+         return detail::valid_col(A, start_) && this->valid_end(A.cols());
       }
       return true_sb;
    }
 
 private:
+   // Checks that the last index belongs to [0, n) provided that the first one does.
+   // Avoids computing the last index since it may not be representable.
+   STRICT_CONSTEXPR StrictBool valid_end(index_t n) const {
+      if(stride_ > 0_sl) {
+         return size_ - 1_sl <= (n - 1_sl - start_) / stride_;
+      }
+      if(stride_ < 0_sl) {
+         return size_ - 1_sl <= -(start_ / stride_);
+      }
+      return true_sb;
+   }
+
    index_t start_;
    index_t size_;
    index_t stride_;
-- 
2.43.0


From f6a9982168d9d4fb8cc65a22c6690e70a954fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:02 +0000
Subject: [PATCH 31/41] fix: place::skipN accepts large strides

---
 strictpp/slice.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/strictpp/slice.hpp b/strictpp/slice.hpp
index a945240..312deea 100644
--- a/strictpp/slice.hpp
+++ b/strictpp/slice.hpp
@@ -165,6 +165,11 @@ public:
       return stride_;
    }
 
+   // Number of indexes selected from [0, n), does not overflow for large strides.
+   STRICT_NODISCARD_CONSTEXPR index_t count(index_t n) const {
+      return n == 0_sl ? 0_sl : (n - 1_sl) / stride_ + 1_sl;
+   }
+
 private:
    index_t stride_;
 };
@@ -392,15 +397,15 @@ public:
    }
 
    STRICT_CONSTEXPR_INLINE auto get(OneDimBaseType auto const& A) const {
-      return seqN{0, (A.size() + x_.stride() - 1_sl) / x_.stride(), x_.stride()};
+      return seqN{0, x_.count(A.size()), x_.stride()};
    }
 
    STRICT_CONSTEXPR_INLINE auto get_row(TwoDimBaseType auto const& A) const {
-      return seqN{0, (A.rows() + x_.stride() - 1_sl) / x_.stride(), x_.stride()};
+      return seqN{0, x_.count(A.rows()), x_.stride()};
    }
 
    STRICT_CONSTEXPR_INLINE auto get_col(TwoDimBaseType auto const& A) const {
-      return seqN{0, (A.cols() + x_.stride() - 1_sl) / x_.stride(), x_.stride()};
+      return seqN{0, x_.count(A.cols()), x_.stride()};
    }
 
 private:
-- 
2.43.0


From adf78280a2020ecc7a4e4a39ea2e34e0d0ff7d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:02 +0000
Subject: [PATCH 32/41] fix: indexes far past place::last do not overflow

---
 strictpp/ArrayCommon/index_helper.hpp | 4 +++-
 strictpp/Expr/special.hpp             | 2 +-
 strictpp/array_base1D.hpp             | 2 +-
 strictpp/array_base2D.hpp             | 4 ++--
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/strictpp/ArrayCommon/index_helper.hpp b/strictpp/ArrayCommon/index_helper.hpp
index 70884c6..e0685e0 100644
--- a/strictpp/ArrayCommon/index_helper.hpp
+++ b/strictpp/ArrayCommon/index_helper.hpp
@@ -56,7 +56,9 @@ class IndexWrapper<T> {
    index_t i_;
 
 public:
-   STRICT_CONSTEXPR_INLINE explicit IndexWrapper(T lst) : i_{lst.get()} {
+   STRICT_CONSTEXPR_INLINE explicit IndexWrapper(T lst)
+      // All indexes past the end are equally invalid, and this one does not overflow.
+      : i_{lst.get() < 0_sl ? -1_sl : lst.get()} {
    }
 
    STRICT_CONSTEXPR_INLINE index_t get(OneDimBaseType auto const& A) const {
diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 9e571b2..d827706 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -412,7 +412,7 @@ STRICT_CONSTEXPR auto exclude(const Base& A, Pos pos, Count count) {
 
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto exclude(const Base& A, Last lst) {
-   return exclude(A, A.size_m1() - lst.get());
+   return exclude(A, detail::index_helper(A, lst));
 }
 
 
diff --git a/strictpp/array_base1D.hpp b/strictpp/array_base1D.hpp
index 2a1d97f..75778f1 100644
--- a/strictpp/array_base1D.hpp
+++ b/strictpp/array_base1D.hpp
@@ -365,7 +365,7 @@ STRICT_CONSTEXPR auto& ArrayBase1D<T, AF>::remove_back(Count count) {
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase1D<T, AF>::remove(Last lst) {
-   return this->remove(this->size() - 1_sl - lst.get(), 1);
+   return this->remove(index_helper(*this, lst), 1);
 }
 
 
diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 9ed7943..7d17c1c 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -366,7 +366,7 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Pos row_pos) {
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Last lst) {
-   return this->remove_row(this->rows() - 1_sl - lst.get());
+   return this->remove_row(index_row_helper(*this, lst));
 }
 
 
@@ -384,7 +384,7 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Pos col_pos) {
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Last lst) {
-   return this->remove_col(this->cols() - 1_sl - lst.get());
+   return this->remove_col(index_col_helper(*this, lst));
 }
 
 
-- 
2.43.0


From 3176a16e7d020ff7c2bcd29a2a486b59e86f58da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:02 +0000
Subject: [PATCH 33/41] fix: diag rejects the smallest index

---
 strictpp/derived2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/derived2D.hpp b/strictpp/derived2D.hpp
index b813d9b..c3a13f2 100644
--- a/strictpp/derived2D.hpp
+++ b/strictpp/derived2D.hpp
@@ -636,7 +636,7 @@ private:
          ASSERT_STRICT_DEBUG(i.get() < Base::cols());
          return seqN{i, mins(Base::rows(), Base::cols() - i.get()), Base::cols() + 1_sl};
       } else {
-         ASSERT_STRICT_DEBUG(abss(i.get()) < Base::rows());
+         ASSERT_STRICT_DEBUG(i.get() > -Base::rows());
          return seqN{abss(i.get()) * Base::cols(),
                      mins(Base::rows() - abss(i.get()), Base::cols()),
                      Base::cols() + 1_sl};
-- 
2.43.0


From 341596e083a07eccb3a53db7c0ff3e67011a2816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:02 +0000
Subject: [PATCH 34/41] fix: view2D rejects negative and unrepresentable shapes

---
 strictpp/ArrayCommon/valid.hpp | 9 +++++++++
 strictpp/attach2D.hpp          | 8 ++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/strictpp/ArrayCommon/valid.hpp b/strictpp/ArrayCommon/valid.hpp
index 10b6e54..6a1d41e 100644
--- a/strictpp/ArrayCommon/valid.hpp
+++ b/strictpp/ArrayCommon/valid.hpp
@@ -46,6 +46,15 @@ STRICT_CONSTEXPR StrictBool semi_valid_row_col_sizes(index_t m, index_t n) {
 }
 
 
+// Checks that m * n == size for nonnegative m and n without computing the product.
+STRICT_CONSTEXPR StrictBool valid_view2D(index_t m, index_t n, index_t size) {
+   if(m > 0_sl && n > 0_sl) {
+      return size % m == 0_sl && size / m == n;
+   }
+   return m >= 0_sl && n >= 0_sl && size == 0_sl;
+}
+
+
 template <Builtin T>
 STRICT_CONSTEXPR StrictBool valid_list2D(use::List2D<Strict<T>> list) {
    if(list.size() != 0) {
diff --git a/strictpp/attach2D.hpp b/strictpp/attach2D.hpp
index 9ffffa6..da4958b 100644
--- a/strictpp/attach2D.hpp
+++ b/strictpp/attach2D.hpp
@@ -238,7 +238,7 @@ STRICT_NODISCARD_CONSTEXPR auto const_convert2D(const Base& A, ImplicitInt m, Im
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) & {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_view2D(nrows.get(), ncols.get(), Base::size()));
    if constexpr(detail::NonConstBaseType<StrictArrayBase1D>) {
       return detail::convert2D(*this, nrows, ncols);
    } else {
@@ -249,7 +249,7 @@ STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, Implici
 
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) const& {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_view2D(nrows.get(), ncols.get(), Base::size()));
    return detail::const_convert2D(*this, nrows, ncols);
 }
 
@@ -265,7 +265,7 @@ STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, Implici
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) & {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_view2D(nrows.get(), ncols.get(), Base::size()));
    if constexpr(detail::NonConstBaseType<StrictArrayBase2D>) {
       return detail::convert2D(*this, nrows, ncols);
    } else {
@@ -276,7 +276,7 @@ STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, Implici
 
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) const& {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_view2D(nrows.get(), ncols.get(), Base::size()));
    return detail::const_convert2D(*this, nrows, ncols);
 }
 
-- 
2.43.0


From 21576aa7476415d74635f9f5925283fe871f044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:02 +0000
Subject: [PATCH 35/41] fix: two-dimensional sizes whose product is not
 representable are rejected

---
 strictpp/ArrayCommon/valid.hpp | 10 ++++++++++
 strictpp/array_base2D.hpp      | 14 +++++++-------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/strictpp/ArrayCommon/valid.hpp b/strictpp/ArrayCommon/valid.hpp
index 6a1d41e..201ce5f 100644
--- a/strictpp/ArrayCommon/valid.hpp
+++ b/strictpp/ArrayCommon/valid.hpp
@@ -14,6 +14,7 @@
 #include "use.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -46,6 +47,15 @@ STRICT_CONSTEXPR StrictBool semi_valid_row_col_sizes(index_t m, index_t n) {
 }
 
 
+STRICT_CONSTEXPR StrictBool valid_row_col_sizes(index_t m, index_t n) {
+   if(m > 0_sl && n > 0_sl) {
+      // The number of elements must be representable.
+      return m <= Strict{std::numeric_limits<long int>::max()} / n;
+   }
+   return m == 0_sl && n == 0_sl;
+}
+
+
 // Checks that m * n == size for nonnegative m and n without computing the product.
 STRICT_CONSTEXPR StrictBool valid_view2D(index_t m, index_t n, index_t size) {
    if(m > 0_sl && n > 0_sl) {
diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 7d17c1c..7822dfe 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -144,6 +144,11 @@ public:
    STRICT_NODISCARD_CONSTEXPR_INLINE static int alignment();
 
 private:
+   STRICT_CONSTEXPR static index_t elements(index_t m, index_t n) {
+      ASSERT_STRICT_DEBUG(valid_row_col_sizes(m, n));
+      return m * n;
+   }
+
    FixedArrayBase1D<long int, 2, Unaligned> dims_;
    ArrayBase1D<T, AF> data1D_;
 };
@@ -152,10 +157,7 @@ private:
 template <Builtin T, AlignmentFlag AF>
 STRICT_NODISCARD_CONSTEXPR ArrayBase2D<T, AF>::ArrayBase2D(ImplicitInt m, ImplicitInt n)
    : dims_{m.get(), n.get()},
-     data1D_(m.get() * n.get()) {
-   ASSERT_STRICT_DEBUG(m.get() >= 0_sl);
-   ASSERT_STRICT_DEBUG(n.get() >= 0_sl);
-   ASSERT_STRICT_DEBUG(semi_valid_row_col_sizes(m.get(), n.get()));
+     data1D_(elements(m.get(), n.get())) {
 }
 
 
@@ -252,9 +254,7 @@ STRICT_CONSTEXPR void ArrayBase2D<T, AF>::swap(ArrayBase2D&& A) noexcept {
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::resize(ImplicitInt m, ImplicitInt n,
                                                   ImplicitBool preserve) {
-   ASSERT_STRICT_DEBUG(m.get() >= 0_sl);
-   ASSERT_STRICT_DEBUG(n.get() >= 0_sl);
-   ASSERT_STRICT_DEBUG(semi_valid_row_col_sizes(m.get(), n.get()));
+   ASSERT_STRICT_DEBUG(valid_row_col_sizes(m.get(), n.get()));
 
    const auto d0_new = m.get();
    const auto d1_new = n.get();
-- 
2.43.0


From 14e04d3d3751b6e06b276a330126602d6ff6e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:02 +0000
Subject: [PATCH 36/41] fix: range check of the iterator subscript does not
 overflow

---
 strictpp/iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/iterator.hpp b/strictpp/iterator.hpp
index d565d1f..0bec203 100644
--- a/strictpp/iterator.hpp
+++ b/strictpp/iterator.hpp
@@ -332,7 +332,7 @@ STRICT_NODISCARD_CONSTEXPR auto Iterator<Base, F>::operator-(const Iterator& it)
 template <NonConstBaseType Base, typename F>
 STRICT_NODISCARD_CONSTEXPR decltype(auto) Iterator<Base, F>::operator[](difference_type n) const {
    ASSERT_STRICT_DEBUG(this->points_somewhere());
-   ASSERT_STRICT_RANGE_DEBUG(pos_ + Strict{n} > -1_sl && pos_ + Strict{n} < f_.size());
+   ASSERT_STRICT_RANGE_DEBUG(Strict{n} >= -pos_ && Strict{n} < f_.size() - pos_);
    return f_(pos_ + Strict{n});
 }
 
@@ -572,7 +572,7 @@ template <BaseType Base, typename F>
 STRICT_NODISCARD_CONSTEXPR decltype(auto)
 ConstIterator<Base, F>::operator[](difference_type n) const {
    ASSERT_STRICT_DEBUG(this->points_somewhere());
-   ASSERT_STRICT_RANGE_DEBUG(pos_ + Strict{n} > -1_sl && pos_ + Strict{n} < f_.size());
+   ASSERT_STRICT_RANGE_DEBUG(Strict{n} >= -pos_ && Strict{n} < f_.size() - pos_);
    return f_(pos_ + Strict{n});
 }
 
-- 
2.43.0


From 9549b008847514f5acd5eb53497d440495e7dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:51 +0000
Subject: [PATCH 37/41] fix: assigning a slice of a different size to a slice
 throws instead of terminating

---
 strictpp/derived1D.hpp | 2 +-
 strictpp/derived2D.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/derived1D.hpp b/strictpp/derived1D.hpp
index 01fcbba..8c9d77a 100644
--- a/strictpp/derived1D.hpp
+++ b/strictpp/derived1D.hpp
@@ -302,7 +302,7 @@ public:
       return static_cast<StrictArrayMutable1D&>(Base::operator=(A));
    }
 
-   STRICT_CONSTEXPR StrictArrayMutable1D& operator=(StrictArrayMutable1D&& A) noexcept {
+   STRICT_CONSTEXPR StrictArrayMutable1D& operator=(StrictArrayMutable1D&& A) {
       return static_cast<StrictArrayMutable1D&>(Base::operator=(static_cast<Base&&>(std::move(A))));
    }
 
diff --git a/strictpp/derived2D.hpp b/strictpp/derived2D.hpp
index c3a13f2..2f2000e 100644
--- a/strictpp/derived2D.hpp
+++ b/strictpp/derived2D.hpp
@@ -668,7 +668,7 @@ public:
       return static_cast<StrictArrayMutable2D&>(Base::operator=(A));
    }
 
-   STRICT_CONSTEXPR StrictArrayMutable2D& operator=(StrictArrayMutable2D&& A) noexcept {
+   STRICT_CONSTEXPR StrictArrayMutable2D& operator=(StrictArrayMutable2D&& A) {
       return static_cast<StrictArrayMutable2D&>(Base::operator=(static_cast<Base&&>(std::move(A))));
    }
 
-- 
2.43.0


From 8559ad755f08a9301c275e3133f1dfad01ff5e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:58 +0000
Subject: [PATCH 38/41] fix: place::even of an object with the largest
 representable size

The number of selected indexes was computed as (n + 1) / 2, which overflows.
---
 strictpp/slice.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strictpp/slice.hpp b/strictpp/slice.hpp
index 312deea..b87b63d 100644
--- a/strictpp/slice.hpp
+++ b/strictpp/slice.hpp
@@ -337,15 +337,15 @@ public:
    }
 
    STRICT_CONSTEXPR_INLINE static auto get(OneDimBaseType auto const& A) {
-      return seqN{0, (A.size() + 1_sl) / 2_sl, 2};
+      return seqN{0, A.size() / 2_sl + A.size() % 2_sl, 2};
    }
 
    STRICT_CONSTEXPR_INLINE static auto get_row(TwoDimBaseType auto const& A) {
-      return seqN{0, (A.rows() + 1_sl) / 2_sl, 2};
+      return seqN{0, A.rows() / 2_sl + A.rows() % 2_sl, 2};
    }
 
    STRICT_CONSTEXPR_INLINE static auto get_col(TwoDimBaseType auto const& A) {
-      return seqN{0, (A.cols() + 1_sl) / 2_sl, 2};
+      return seqN{0, A.cols() / 2_sl + A.cols() % 2_sl, 2};
    }
 };
 
-- 
2.43.0


From 3186c96121b77e9320b891af349f6eb27e435dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:42 +0000
Subject: [PATCH 39/41] fix: report two-dimensional expressions and slices too
 large to index

The number of elements of products, broadcasts, identities, joins, constants
and selections was not checked and overflowed when size() was computed.
---
 strictpp/ArrayCommon/valid.hpp | 9 +++++++++
 strictpp/Expr/types.hpp        | 3 +++
 strictpp/slicearray_base2D.hpp | 2 ++
 3 files changed, 14 insertions(+)

diff --git a/strictpp/ArrayCommon/valid.hpp b/strictpp/ArrayCommon/valid.hpp
index 201ce5f..dec344d 100644
--- a/strictpp/ArrayCommon/valid.hpp
+++ b/strictpp/ArrayCommon/valid.hpp
@@ -56,6 +56,15 @@ STRICT_CONSTEXPR StrictBool valid_row_col_sizes(index_t m, index_t n) {
 }
 
 
+// Checks that the number of elements is representable for nonnegative m and n.
+STRICT_CONSTEXPR StrictBool representable_size(index_t m, index_t n) {
+   if(n > 0_sl) {
+      return m <= Strict{std::numeric_limits<long int>::max()} / n;
+   }
+   return true_sb;
+}
+
+
 // Checks that m * n == size for nonnegative m and n without computing the product.
 STRICT_CONSTEXPR StrictBool valid_view2D(index_t m, index_t n, index_t size) {
    if(m > 0_sl && n > 0_sl) {
diff --git a/strictpp/Expr/types.hpp b/strictpp/Expr/types.hpp
index b176652..24aa36e 100644
--- a/strictpp/Expr/types.hpp
+++ b/strictpp/Expr/types.hpp
@@ -233,6 +233,7 @@ public:
         op_{op} {
       ASSERT_STRICT_DEBUG(rows_ > -1_sl);
       ASSERT_STRICT_DEBUG(cols_ > -1_sl);
+      ASSERT_STRICT_DEBUG(representable_size(rows_, cols_));
    }
 
    STRICT_NODISCARD_CONSTEXPR IndexExpr2D(const IndexExpr2D&) = default;
@@ -315,6 +316,7 @@ public:
    using builtin_type = value_type::value_type;
 
    STRICT_NODISCARD_CONSTEXPR explicit BroadCastExpr(const Base& A) : A_{A} {
+      ASSERT_STRICT_DEBUG(representable_size(A_.size(), A_.size()));
    }
 
    STRICT_NODISCARD_CONSTEXPR BroadCastExpr(const BroadCastExpr& E) = default;
@@ -361,6 +363,7 @@ public:
    STRICT_NODISCARD_CONSTEXPR explicit TensorExpr(const Base1& A1, const Base2& A2)
       : A1_{A1},
         A2_{A2} {
+      ASSERT_STRICT_DEBUG(representable_size(A1_.size(), A2_.size()));
    }
 
    STRICT_NODISCARD_CONSTEXPR TensorExpr(const TensorExpr& E) = default;
diff --git a/strictpp/slicearray_base2D.hpp b/strictpp/slicearray_base2D.hpp
index 2df1912..24b2dfd 100644
--- a/strictpp/slicearray_base2D.hpp
+++ b/strictpp/slicearray_base2D.hpp
@@ -62,6 +62,7 @@ STRICT_NODISCARD_CONSTEXPR SliceArrayBase2D<Base, Sl1, Sl2>::SliceArrayBase2D(Ba
    } else if(slw2_.size() == 0_sl) {
       slw1_ = default_wrapper<Sl1>();
    }
+   ASSERT_STRICT_DEBUG(representable_size(slw1_.size(), slw2_.size()));
 }
 
 
@@ -214,6 +215,7 @@ ConstSliceArrayBase2D<Base, Sl1, Sl2>::ConstSliceArrayBase2D(const Base& A, Sl1
    } else if(slw2_.size() == 0_sl) {
       slw1_ = default_wrapper<Sl1>();
    }
+   ASSERT_STRICT_DEBUG(representable_size(slw1_.size(), slw2_.size()));
 }
 
 
-- 
2.43.0


From 5bc8f7fbcaeb8e0b7286772820353c68f445d6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:14 +0000
Subject: [PATCH 40/41] fix: STRICT_TIME hid the variables t of its statement

---
 strictpp/Util/timer.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/strictpp/Util/timer.hpp b/strictpp/Util/timer.hpp
index 26849a8..6f60a78 100644
--- a/strictpp/Util/timer.hpp
+++ b/strictpp/Util/timer.hpp
@@ -13,14 +13,15 @@
 
 
 // Removed std::format since Intel and clang compilers do not support it(at this time).
-#define STRICT_TIME(a)                                                       \
-   do {                                                                      \
-      spp::timer t;                                                          \
-      a;                                                                     \
-      std::ostringstream stream;                                             \
-      stream << (#a) << " took: " << std::setprecision(4) << std::scientific \
-             << t.wall_time().val() << " seconds\n";                         \
-      std::cout << stream.str();                                             \
+// Names of local variables must not hide the names used in a.
+#define STRICT_TIME(a)                                                                    \
+   do {                                                                                   \
+      spp::timer strict_time_timer_;                                                      \
+      a;                                                                                  \
+      std::ostringstream strict_time_stream_;                                             \
+      strict_time_stream_ << (#a) << " took: " << std::setprecision(4) << std::scientific \
+                          << strict_time_timer_.wall_time().val() << " seconds\n";        \
+      std::cout << strict_time_stream_.str();                                             \
    } while(0)
 
 
-- 
2.43.0


From f26fc6ae4d6365f8a398cbdc0fb128b0287f1388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:58 +0000
Subject: [PATCH 41/41] fix: semi-random integers failed for ranges whose
 number of values is not representable

---
 strictpp/Util/semi_random.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index 47c258f..c855463 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -9,6 +9,8 @@
 #include "../StrictCommon/strict_common.hpp"
 #include "random_traits.hpp"
 
+#include <type_traits>
+
 
 namespace spp {
 
@@ -169,7 +171,12 @@ public:
          if(low_ == Zero<T> && high_ == One<T>) {
             return rand_num > this->generate() ? Zero<T> : One<T>;
          } else {
-            return low_ + strict_cast<T>(rand_num) % (high_ - low_ + One<T>);
+            // Number of values in the range might not be representable.
+            using U = std::make_unsigned_t<T>;
+            const U width = U(high_.val()) - U(low_.val());
+            const U offset = width < U(modulus_.val()) ? U(rand_num.val()) % (width + U(1))
+                                                       : U(rand_num.val());
+            return Strict<T>{static_cast<T>(U(low_.val()) + offset)};
          }
       } else {
          return rand_num > this->generate() ? false_sb : true_sb;
-- 
2.43.0

