From cdcd966ca72cf16b03c12204375df217287d25e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 01/41] fix: remove_row/remove_col honour the offset of last

---
 strictpp/array_base2D.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 8fa29be..16af20e 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -363,8 +363,8 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Pos row_pos) {
 
 
 template <Builtin T, AlignmentFlag AF>
-STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row([[maybe_unused]] Last lst) {
-   return this->remove_row(this->rows() - 1_sl);
+STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Last lst) {
+   return this->remove_row(this->rows() - 1_sl - lst.get());
 }
 
 
@@ -381,8 +381,8 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Pos col_pos) {
 
 
 template <Builtin T, AlignmentFlag AF>
-STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col([[maybe_unused]] Last lst) {
-   return this->remove_col(this->cols() - 1_sl);
+STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Last lst) {
+   return this->remove_col(this->cols() - 1_sl - lst.get());
 }
 
 
-- 
2.43.0


From 75928aecbc17903e80d46f273d880c4450b7704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 02/41] fix: exclude honours the offset of last

---
 strictpp/Expr/special.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 68f8919..0acc037 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -76,7 +76,7 @@ STRICT_CONSTEXPR auto exclude(const Base& A, Pos pos, Count count = Count{1});
 
 
 template <OneDimBaseType Base>
-STRICT_CONSTEXPR auto exclude(const Base& A, [[maybe_unused]] Last lst);
+STRICT_CONSTEXPR auto exclude(const Base& A, Last lst);
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -410,8 +410,8 @@ STRICT_CONSTEXPR auto exclude(const Base& A, Pos pos, Count count) {
 
 
 template <OneDimBaseType Base>
-STRICT_CONSTEXPR auto exclude(const Base& A, [[maybe_unused]] Last lst) {
-   return exclude(A, A.size_m1());
+STRICT_CONSTEXPR auto exclude(const Base& A, Last lst) {
+   return exclude(A, A.size_m1() - lst.get());
 }
 
 
-- 
2.43.0


From 0382493d2f08b9d614b4006e6bcadcda6a074531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 03/41] fix: self-move assignment of a 2D array keeps its
 dimensions

---
 strictpp/array_base2D.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 16af20e..86a41ea 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -220,8 +220,10 @@ STRICT_CONSTEXPR ArrayBase2D<T, AF>& ArrayBase2D<T, AF>::operator=(const ArrayBa
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR ArrayBase2D<T, AF>& ArrayBase2D<T, AF>::operator=(ArrayBase2D&& A) noexcept {
    NORMAL_ASSERT_STRICT_DEBUG(same_size(*this, A));
-   A.dims_ = 0_sl;
-   data1D_ = std::move(A.data1D_);
+   if(this != &A) {
+      A.dims_ = 0_sl;
+      data1D_ = std::move(A.data1D_);
+   }
    return *this;
 }
 
-- 
2.43.0


From 698b4d7fa8a4d2d54e2de649d49de80746bea29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 04/41] fix: assigning a temporary slice of another size raises
 the error instead of terminating

---
 strictpp/derived1D.hpp | 3 ++-
 strictpp/derived2D.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/strictpp/derived1D.hpp b/strictpp/derived1D.hpp
index 6544494..b34d8d1 100644
--- a/strictpp/derived1D.hpp
+++ b/strictpp/derived1D.hpp
@@ -296,7 +296,8 @@ public:
       return static_cast<StrictArrayMutable1D&>(Base::operator=(A));
    }
 
-   STRICT_CONSTEXPR StrictArrayMutable1D& operator=(StrictArrayMutable1D&& A) noexcept {
+   STRICT_CONSTEXPR StrictArrayMutable1D& operator=(StrictArrayMutable1D&& A) noexcept(
+      noexcept(std::declval<Base&>() = std::declval<Base&&>())) {
       return static_cast<StrictArrayMutable1D&>(Base::operator=(static_cast<Base&&>(std::move(A))));
    }
 
diff --git a/strictpp/derived2D.hpp b/strictpp/derived2D.hpp
index b813d9b..74c7dba 100644
--- a/strictpp/derived2D.hpp
+++ b/strictpp/derived2D.hpp
@@ -668,7 +668,8 @@ public:
       return static_cast<StrictArrayMutable2D&>(Base::operator=(A));
    }
 
-   STRICT_CONSTEXPR StrictArrayMutable2D& operator=(StrictArrayMutable2D&& A) noexcept {
+   STRICT_CONSTEXPR StrictArrayMutable2D& operator=(StrictArrayMutable2D&& A) noexcept(
+      noexcept(std::declval<Base&>() = std::declval<Base&&>())) {
       return static_cast<StrictArrayMutable2D&>(Base::operator=(static_cast<Base&&>(std::move(A))));
    }
 
-- 
2.43.0


From aefb6b168328009118fb6656a90358f5265dfa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 05/41] fix: reject index-list slices of temporary owning 1D
 arrays

---
 strictpp/derived1D.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strictpp/derived1D.hpp b/strictpp/derived1D.hpp
index b34d8d1..d18394f 100644
--- a/strictpp/derived1D.hpp
+++ b/strictpp/derived1D.hpp
@@ -230,7 +230,9 @@ public:
       return operator()(std::move(slice));
    }
 
-   STRICT_CONSTEXPR auto operator()(use::IndexList list) && {
+   STRICT_CONSTEXPR auto operator()(use::IndexList list) &&
+      requires(!detail::ArrayOneDimType<StrictArrayBase1D>)
+   {
       return operator()(std::move(list));
    }
 
@@ -251,6 +253,10 @@ public:
       requires detail::ArrayOneDimType<StrictArrayBase1D>
    = delete;
 
+   STRICT_CONSTEXPR auto operator()(use::IndexList list) const&&
+      requires detail::ArrayOneDimType<StrictArrayBase1D>
+   = delete;
+
    STRICT_CONSTEXPR auto view1D() const&&
       requires detail::ArrayOneDimType<StrictArrayBase1D>
    = delete;
-- 
2.43.0


From f4a74fe114b1a856ebeb0c3a48b52b8ccc476d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 06/41] fix: transpose does not refer to temporary slices and
 expressions

---
 strictpp/Expr/special.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 0acc037..60b8191 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -512,7 +512,9 @@ STRICT_CONSTEXPR auto identity(ImplicitInt n) {
 
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto transpose(const Base& A) {
-   auto op = [&A](index_t i, index_t j) { return A.un(j, i); };
+   // Slices and expressions are stored by copy, arrays by reference.
+   auto AE = generate(A, [](auto x) { return x; });
+   auto op = [AE](index_t i, index_t j) { return AE.un(j, i); };
    using E = detail::IndexExpr2D<BuiltinTypeOf<Base>, decltype(op)>;
    return StrictArrayBase2D<E>{A.cols(), A.rows(), op};
 }
-- 
2.43.0


From 4517dfd922e73e293fc112be7f5178e1e2b97719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 07/41] fix: matvec_prod does not refer to its local function
 and to temporary vectors

---
 strictpp/Expr/binary.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index d435432..68421fe 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -724,7 +724,9 @@ STRICT_CONSTEXPR auto matvec_prod(const Base1& A, const Base2& x) {
       }
       return s;
    };
-   return row_reduce(A, [&x, &dot](auto row) { return dot(row, x); });
+   // Slices and expressions are stored by copy, arrays by reference.
+   auto xE = generate(x, [](auto val) { return val; });
+   return row_reduce(A, [xE, dot](auto row) { return dot(row, xE); });
 }
 
 
-- 
2.43.0


From dba31210b09878fa8055fefdd2818b6af2da095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 08/41] fix: tensor_prod rejects a temporary array when the
 other operand is not one

---
 strictpp/Expr/binary.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index 68421fe..aece07b 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -426,8 +426,9 @@ template <OneDimRealBaseType Base1, OneDimRealBaseType Base2>
 STRICT_CONSTEXPR auto tensor_prod(const Base1& A1, const Base2& A2);
 
 
-template <OneDimRealBaseType Base1, OneDimRealBaseType Base2>
-   requires(detail::RealExprDeleted<Base1, Base2>)
+template <typename Base1, typename Base2>
+   requires OneDimRealBaseType<RemoveRef<Base1>> && OneDimRealBaseType<RemoveRef<Base2>>
+            && (detail::ArrayRealTypeRvalue<Base1> || detail::ArrayRealTypeRvalue<Base2>)
 STRICT_CONSTEXPR auto tensor_prod(Base1&& A1, Base2&& A2) = delete;
 
 
-- 
2.43.0


From 9e9cf2bee76d08b3d444e8adf7f1437e740a5fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 09/41] fix: pow_prod rejects temporary arrays

---
 strictpp/Expr/binary.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index aece07b..da74a19 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -165,7 +165,8 @@ auto two_prod(Base1&& A1, Base2&& A2) = delete;
 
 
 template <typename Base1, typename Base2>
-   requires(detail::FloatingExprDeleted<Base1, Base2>)
+   requires(FloatingBaseType<RemoveRef<Base1>> && SignedIntegerBaseType<RemoveRef<Base2>>
+            && (detail::ArrayTypeRvalue<Base1> || detail::ArrayTypeRvalue<Base2>))
 auto pow_prod(Base1&& A1, Base2&& A2) = delete;
 
 
-- 
2.43.0


From 78a0e2789cf11a637b075b49e5533e9e451d46b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:58 +0000
Subject: [PATCH 10/41] fix: generate rejects temporary arrays

---
 strictpp/Expr/binary.hpp | 6 ++++++
 strictpp/Expr/unary.hpp  | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index da74a19..a5904e3 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -94,6 +94,12 @@ auto pow_prod(const Base1& A1, const Base2& A2);
 // a deleted overload in some cases, such as Array1D<double>(3) + 1._sd.
 
 
+template <typename Base1, typename Base2, typename F>
+   requires BaseType<RemoveRef<Base1>> && BaseType<RemoveRef<Base2>>
+            && (detail::ArrayTypeRvalue<Base1> || detail::ArrayTypeRvalue<Base2>)
+STRICT_CONSTEXPR auto generate(Base1&& A1, Base2&& A2, F f) = delete;
+
+
 template <typename Base1, typename Base2>
    requires(detail::RealExprDeleted<Base1, Base2>)
 STRICT_CONSTEXPR auto operator+(Base1&& A1, Base2&& A2) = delete;
diff --git a/strictpp/Expr/unary.hpp b/strictpp/Expr/unary.hpp
index a9f1cb8..9c0695f 100644
--- a/strictpp/Expr/unary.hpp
+++ b/strictpp/Expr/unary.hpp
@@ -100,6 +100,11 @@ STRICT_CONSTEXPR auto array_cast(const Base& A);
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 // Deleted overloads.
+template <typename Base, typename F>
+   requires detail::ArrayTypeRvalue<Base>
+STRICT_CONSTEXPR auto generate(Base&& A, F f) = delete;
+
+
 template <typename Base>
    requires detail::ArrayRealTypeRvalue<Base>
 STRICT_CONSTEXPR auto operator+(Base&& A) = delete;
-- 
2.43.0


From 62ce0f6b737eacba91167cea9c63f57d9603a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:58 +0000
Subject: [PATCH 11/41] fix: eigen::map rejects temporary arrays

---
 strictpp/Eigen/map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/Eigen/map.hpp b/strictpp/Eigen/map.hpp
index bd282f2..65de7ff 100644
--- a/strictpp/Eigen/map.hpp
+++ b/strictpp/Eigen/map.hpp
@@ -56,7 +56,7 @@ struct CopyConstTo<const T, U> {
 
 
 template <typename Base>
-   requires TwoDimOwnerType<RemoveRef<Base>>
+   requires TwoDimOwnerType<RemoveRef<Base>> && (!spp::detail::ArrayTwoDimTypeRvalue<Base>)
 auto map(Base&& A) {
    using namespace Eigen;
    using builtin_type = BuiltinTypeOf<Base>;
-- 
2.43.0


From 969b53910fbda490ce8ceb464f35df071168c940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 12/41] fix: linspace of one point is its start, not NaN

---
 strictpp/Expr/special.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 60b8191..40a7f18 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -433,8 +433,9 @@ template <Floating T>
 STRICT_CONSTEXPR auto linspace(ImplicitInt size, Strict<T> start, Strict<T> end) {
    ASSERT_STRICT_DEBUG(size.get() > 0_sl);
    auto sz = size.get();
+   // If size is 1, avoid division by 0.
    return StrictArrayBase1D<detail::SequenceExpr1D<T>>{
-      start, sz, (end - start) / strict_cast<T>(sz - 1_sl)};
+      start, sz, sz == 1_sl ? Zero<T> : (end - start) / strict_cast<T>(sz - 1_sl)};
 }
 
 
-- 
2.43.0


From 8ec534828ecad64d64297a01007067f3dffcf6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 13/41] fix: reading arrays rejects an invalid value at the end
 of the input

---
 strictpp/array_IO.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 5ca2934..761c784 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -104,13 +104,26 @@ inline detail::ArrayFormat array_format;
 namespace detail {
 
 
+// Reads the next value. Returns false only if there are no more values, so that
+// an invalid value that extends to the end of the input is not mistaken for the end.
+template <Builtin T>
+bool read_next(std::istream& is, T& x) {
+   if((is >> std::ws).eof()) {
+      return false;
+   }
+   is >> x;
+   ASSERT_STRICT_ALWAYS_MSG(!is.fail(), "Invalid input.\n");
+   return !is.fail();
+}
+
+
 template <Builtin T, AlignmentFlag AF>
 std::istream& istream_base_read(std::istream& is, Array1D<T, AF>& A) {
    T x{};
    index_t count{};
 
    Array1D<T, AF> tmp(8);
-   while(is >> x) {
+   while(read_next(is, x)) {
       tmp.un(count++) = Strict{x};
       if(tmp.size() == count) {
          tmp.resize(2_sl * count);
@@ -133,7 +146,7 @@ void get_first_row(const std::string& line, Array2D<T, AF>& A) {
    T x{};
    std::istringstream iss{line};
    index_t ncols{};
-   while(iss >> x) {
+   while(read_next(iss, x)) {
       A(0, ncols++) = Strict{x};
       if(A.cols() == ncols) {
          A.resize(1, 2_sl * ncols);
@@ -155,7 +168,7 @@ void get_row(const std::string& line, index_t row, Array2D<T, AF>& A) {
    T x{};
    std::istringstream iss{line};
    index_t ncols{};
-   while(iss >> x) {
+   while(read_next(iss, x)) {
       A(row, ncols++) = Strict{x};
    }
 
-- 
2.43.0


From a6515d711b98345beb46af08d458b8e84350e2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 14/41] fix: reading a too long row does not write past the
 array when debug checks are off

---
 strictpp/array_IO.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 761c784..8799116 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -169,6 +169,7 @@ void get_row(const std::string& line, index_t row, Array2D<T, AF>& A) {
    std::istringstream iss{line};
    index_t ncols{};
    while(read_next(iss, x)) {
+      ASSERT_STRICT_ALWAYS(ncols < A.cols());
       A(row, ncols++) = Strict{x};
    }
 
-- 
2.43.0


From 2d337e8d89eb60df5acfe9f0583f0b189258e4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 15/41] fix: a successful read of a 2D array leaves the stream
 usable, as for 1D arrays

---
 strictpp/array_IO.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 8799116..1242d53 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -206,6 +206,9 @@ std::istream& istream_base_read(std::istream& is, Array2D<T, AF>& A) {
       tmp.resize(row_count, ncols);
    }
 
+   ASSERT_STRICT_ALWAYS_MSG(is.eof(), "Invalid input.\n");
+   is.clear();
+
    A.swap(tmp);
    return is;
 }
-- 
2.43.0


From 31102040d4a151ea7dd3fded63142439b318fce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 16/41] fix: reading a float128 out of range is rejected, as
 for other types

---
 strictpp/StrictCommon/strict_IO.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strictpp/StrictCommon/strict_IO.hpp b/strictpp/StrictCommon/strict_IO.hpp
index 54cf842..cf5134c 100644
--- a/strictpp/StrictCommon/strict_IO.hpp
+++ b/strictpp/StrictCommon/strict_IO.hpp
@@ -5,6 +5,7 @@
 
 
 #ifdef STRICT_QUAD_PRECISION
+#include <cerrno>
 #include <cstddef> // ptrdiff_t
 #endif
 #include "auxiliary_types.hpp"
@@ -225,8 +226,10 @@ std::istream& operator>>(std::istream& is, T& x) {
    is >> str;
    const char* s = str.c_str();
    char* p_end;
+   errno = 0;
    x = strtoflt128(s, &p_end);
    ASSERT_STRICT_ALWAYS(p_end - s == static_cast<std::ptrdiff_t>(std::strlen(s)));
+   ASSERT_STRICT_ALWAYS(!(errno == ERANGE && isinfq(x)));
 
    return is;
 }
-- 
2.43.0


From 8ffa5a845c4972f08b128e4099c9af6f9d5afacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 17/41] fix: float128 output does not lose the digits of large
 numbers

---
 strictpp/StrictCommon/strict_IO.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/strictpp/StrictCommon/strict_IO.hpp b/strictpp/StrictCommon/strict_IO.hpp
index cf5134c..444e5d6 100644
--- a/strictpp/StrictCommon/strict_IO.hpp
+++ b/strictpp/StrictCommon/strict_IO.hpp
@@ -20,6 +20,7 @@
 #include <limits>
 #include <sstream>
 #include <string>
+#include <vector>
 
 
 namespace spp {
@@ -247,14 +248,16 @@ std::istream& operator>>(std::istream& is, Strict<T>& x) {
 template <Quadruple T>
 std::ostream& operator<<(std::ostream& os, T x) {
    static thread_local char buf[128];
-   if(format.scientific_) {
-      std::string frmt = "%+-#*." + std::to_string(format.precision_[3]) + std::string("QE");
-      int width = format.precision_[3] + 7;
-      quadmath_snprintf(buf, sizeof(buf), frmt.c_str(), width, x);
-   } else {
-      std::string frmt = "%+-#*." + std::to_string(format.precision_[3]) + std::string("QF");
-      int width = format.precision_[3] + 3;
-      quadmath_snprintf(buf, sizeof(buf), frmt.c_str(), width, x);
+   const bool sc = format.scientific_;
+   const std::string frmt
+      = "%+-#*." + std::to_string(format.precision_[3]) + std::string(sc ? "QE" : "QF");
+   const int width = format.precision_[3] + (sc ? 7 : 3);
+   const int len = quadmath_snprintf(buf, sizeof(buf), frmt.c_str(), width, x);
+   if(len >= static_cast<int>(sizeof(buf))) {
+      // Large numbers in fixed format do not fit in the buffer.
+      std::vector<char> large_buf(static_cast<std::size_t>(len) + 1);
+      quadmath_snprintf(large_buf.data(), large_buf.size(), frmt.c_str(), width, x);
+      return os << large_buf.data();
    }
    os << buf;
    return os;
-- 
2.43.0


From afa091c5560aef8f9165655023d94c7c7dc6f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 18/41] fix: semi_random(n, low, high) has no undeducible
 template parameter

---
 strictpp/Util/semi_random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index be51207..f6db4ff 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -76,7 +76,7 @@ constexpr void semi_random_not0(Base&&... A);
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-template <Real T, typename U>
+template <Real T>
 constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high,
                            Seed seed = Seed{One<unsigned>});
 
@@ -394,7 +394,7 @@ constexpr void semi_random_not0(Base&&... A) {
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-template <Real T, typename U>
+template <Real T>
 constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high, Seed seed) {
    return detail::semi_random<T>(n, low, high, seed.get());
 }
-- 
2.43.0


From bd7a39a11860208cbebce58a6046a0743e147865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 19/41] fix: semi_rands_not0 terminates, multiplier of the
 generator gives the full period

---
 strictpp/Util/semi_random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index f6db4ff..624f3eb 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -178,7 +178,7 @@ public:
 
 private:
    static constexpr Strict<unsigned> modulus_{10'000'000U};
-   static constexpr Strict<unsigned> multiplier_{8U};
+   static constexpr Strict<unsigned> multiplier_{421U};
    static constexpr Strict<unsigned> increment_{13U};
    mutable Strict<unsigned> previous_;
    Strict<T> low_;
-- 
2.43.0


From 07ceed494957585fce12ea859409f81e054d562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 20/41] fix: slices whose last index overflows are rejected

---
 strictpp/slice.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/strictpp/slice.hpp b/strictpp/slice.hpp
index 9269851..18d8c2b 100644
--- a/strictpp/slice.hpp
+++ b/strictpp/slice.hpp
@@ -45,8 +45,7 @@ public:
    template <BaseType BaseT>
    STRICT_CONSTEXPR StrictBool valid(const BaseT& A) const {
       if(size_ != 0_sl) {
-         return detail::valid_index(A, start_)
-             && detail::valid_index(A, start_ + stride_ * (size_ - 1_sl));
+         return detail::valid_index(A, start_) && this->valid_last(A.size());
       }
       return true_sb;
    }
@@ -54,8 +53,7 @@ public:
    template <TwoDimBaseType TwoDimBaseT>
    STRICT_CONSTEXPR StrictBool valid_first(const TwoDimBaseT& A) const {
       if(size_ != 0_sl) {
-         return detail::valid_row(A, start_)
-             && detail::valid_row(A, start_ + stride_ * (size_ - 1_sl));
+         return detail::valid_row(A, start_) && this->valid_last(A.rows());
       }
       return true_sb;
    }
@@ -63,8 +61,7 @@ public:
    template <TwoDimBaseType TwoDimBaseT>
    STRICT_CONSTEXPR StrictBool valid_second(const TwoDimBaseT& A) const {
       if(size_ != 0_sl) {
-         return detail::valid_col(A, start_)
-             && detail::valid_col(A, start_ + stride_ * (size_ - 1_sl));
+         return detail::valid_col(A, start_) && this->valid_last(A.cols());
       }
       return true_sb;
    }
@@ -73,6 +70,17 @@ private:
    index_t start_;
    index_t size_;
    index_t stride_;
+
+   // Assumes that start is valid and size is positive.
+   // Index of the last element is not computed since it may overflow.
+   STRICT_CONSTEXPR StrictBool valid_last(index_t extent) const {
+      if(stride_ > 0_sl) {
+         return (extent - 1_sl - start_) / stride_ >= size_ - 1_sl;
+      } else if(stride_ < 0_sl) {
+         return -(start_ / stride_) >= size_ - 1_sl;
+      }
+      return true_sb;
+   }
 };
 
 
-- 
2.43.0


From 5814c5292774a325efaac4451c7f0fc8f21ef432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:29 +0000
Subject: [PATCH 21/41] fix: insert_row/insert_col into an empty array leaves
 it unchanged when evaluating the operand fails

---
 strictpp/array_base2D.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 86a41ea..dc976be 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -557,8 +557,9 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::insert_row(ImplicitInt row_pos,
    ASSERT_STRICT_DEBUG(row_pos.get() >= 0_sl && row_pos.get() <= this->rows());
    // Ensure A is not empty to satisfy semi_valid_row_col_sizes.
    if(this->rows() == 0_sl && this->cols() == 0_sl && A.size() != 0_sl) {
-      this->resize(1, A.size());
-      copyn(A, *this, A.size());
+      ArrayBase2D tmp(1, A.size());
+      copyn(A, tmp, A.size());
+      this->swap(tmp);
       return static_cast<StrictArray2D<ArrayBase2D>&>(*this);
    }
 
@@ -607,8 +608,9 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::insert_col(ImplicitInt col_pos,
    ASSERT_STRICT_DEBUG(col_pos.get() >= 0_sl && col_pos.get() <= this->cols());
    // Ensure A is not empty to satisfy semi_valid_row_col_sizes.
    if(this->rows() == 0_sl && this->cols() == 0_sl && A.size() != 0_sl) {
-      this->resize(A.size(), 1);
-      copyn(A, *this, A.size());
+      ArrayBase2D tmp(A.size(), 1);
+      copyn(A, tmp, A.size());
+      this->swap(tmp);
       return static_cast<StrictArray2D<ArrayBase2D>&>(*this);
    }
 
-- 
2.43.0


From 1ec45eaf9fbfdc1608922c2d547908c660c4b9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:16 +0000
Subject: [PATCH 22/41] fix: assigning an initializer list to an index-list
 slice compiles

---
 strictpp/ArrayCommon/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/ArrayCommon/algorithm.hpp b/strictpp/ArrayCommon/algorithm.hpp
index 2eea48b..6101171 100644
--- a/strictpp/ArrayCommon/algorithm.hpp
+++ b/strictpp/ArrayCommon/algorithm.hpp
@@ -41,7 +41,7 @@ STRICT_CONSTEXPR_INLINE void copy(It b, It e, Base& A) {
 
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR_INLINE void copy(use::List1D<ValueTypeOf<Base>> L, Base& A) {
-   copy(L.begin(), L.end(), A);
+   detail::copy(L.begin(), L.end(), A);
 }
 
 
-- 
2.43.0


From e422f8d6345586545bd1ca3ad7d90e8beceb0eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:52 +0000
Subject: [PATCH 23/41] fix: view2D rejects shapes whose product overflows

---
 strictpp/ArrayCommon/valid.hpp | 12 ++++++++++++
 strictpp/attach2D.hpp          |  8 ++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/strictpp/ArrayCommon/valid.hpp b/strictpp/ArrayCommon/valid.hpp
index 10b6e54..b60c5e8 100644
--- a/strictpp/ArrayCommon/valid.hpp
+++ b/strictpp/ArrayCommon/valid.hpp
@@ -89,6 +89,18 @@ STRICT_CONSTEXPR auto list2D_row_col_sizes(use::List2D<Strict<T>> list) {
 }
 
 
+// Product of dimensions is not computed since it can overflow.
+STRICT_CONSTEXPR StrictBool valid_view2D(BaseType auto const& A, ImplicitInt nrows,
+                                         ImplicitInt ncols) {
+   const index_t m = nrows.get();
+   const index_t n = ncols.get();
+   if(m <= 0_sl || n <= 0_sl) {
+      return m >= 0_sl && n >= 0_sl && A.size() == 0_sl;
+   }
+   return A.size() % n == 0_sl && A.size() / n == m;
+}
+
+
 STRICT_CONSTEXPR StrictBool valid_slice_vector(BaseType auto const& A,
                                                const std::vector<ImplicitInt>& indexes) {
    return Strict{
diff --git a/strictpp/attach2D.hpp b/strictpp/attach2D.hpp
index 9ffffa6..ebc3c26 100644
--- a/strictpp/attach2D.hpp
+++ b/strictpp/attach2D.hpp
@@ -238,7 +238,7 @@ STRICT_NODISCARD_CONSTEXPR auto const_convert2D(const Base& A, ImplicitInt m, Im
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) & {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_view2D(*this, nrows, ncols));
    if constexpr(detail::NonConstBaseType<StrictArrayBase1D>) {
       return detail::convert2D(*this, nrows, ncols);
    } else {
@@ -249,7 +249,7 @@ STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, Implici
 
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) const& {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_view2D(*this, nrows, ncols));
    return detail::const_convert2D(*this, nrows, ncols);
 }
 
@@ -265,7 +265,7 @@ STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, Implici
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) & {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_view2D(*this, nrows, ncols));
    if constexpr(detail::NonConstBaseType<StrictArrayBase2D>) {
       return detail::convert2D(*this, nrows, ncols);
    } else {
@@ -276,7 +276,7 @@ STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, Implici
 
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) const& {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_view2D(*this, nrows, ncols));
    return detail::const_convert2D(*this, nrows, ncols);
 }
 
-- 
2.43.0


From 0522f876a22418598cc41a4dcf8c8dce1aaec7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:07 +0000
Subject: [PATCH 24/41] fix: expressions of two index-list slices of the same
 type compile

---
 strictpp/Expr/binary.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index a5904e3..c05722d 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -472,86 +472,86 @@ STRICT_CONSTEXPR auto generate(const Base1& A1, const Base2& A2, F f) {
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator+(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryPlus{});
+   return spp::generate(A1, A2, expr::BinaryPlus{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator-(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryMinus{});
+   return spp::generate(A1, A2, expr::BinaryMinus{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator*(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryMult{});
+   return spp::generate(A1, A2, expr::BinaryMult{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator/(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryDivide{});
+   return spp::generate(A1, A2, expr::BinaryDivide{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator%(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryModulo{});
+   return spp::generate(A1, A2, expr::BinaryModulo{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator<<(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryRightShift{});
+   return spp::generate(A1, A2, expr::BinaryRightShift{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator>>(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryLeftShift{});
+   return spp::generate(A1, A2, expr::BinaryLeftShift{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator&(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseAnd{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseAnd{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator|(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseOr{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseOr{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator^(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseXor{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseXor{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator&&(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanAnd{});
+   return spp::generate(A1, A2, expr::BinaryBooleanAnd{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator||(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanOr{});
+   return spp::generate(A1, A2, expr::BinaryBooleanOr{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator^(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanXor{});
+   return spp::generate(A1, A2, expr::BinaryBooleanXor{});
 }
 
 
 template <FloatingBaseType Base1, FloatingBaseType Base2>
 auto two_prod(const Base1& A1, const Base2& A2) {
-   return std::pair{generate(A1, A2, expr::BinaryTwoProdFirst{}),
-                    generate(A1, A2, expr::BinaryTwoProdSecond{})};
+   return std::pair{spp::generate(A1, A2, expr::BinaryTwoProdFirst{}),
+                    spp::generate(A1, A2, expr::BinaryTwoProdSecond{})};
 }
 
 
-- 
2.43.0


From caaa00139c5d116c48b63c5d8d4d7a66ba1c00b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:28 +0000
Subject: [PATCH 25/41] fix: none_of with a binary predicate compiles for two
 index-list slices

---
 strictpp/array_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/array_ops.hpp b/strictpp/array_ops.hpp
index 536c9f2..07c60e4 100644
--- a/strictpp/array_ops.hpp
+++ b/strictpp/array_ops.hpp
@@ -667,7 +667,7 @@ STRICT_CONSTEXPR StrictBool none_of(const Base1& A1, const Base2& A2, F f,
    if(A1.empty()) {
       return empty_default;
    }
-   return !any_of(A1, A2, f);
+   return !spp::any_of(A1, A2, f);
 }
 
 
-- 
2.43.0


From 63e48f5d477bfbdf5bd1638c41d26c1d34b0e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 26/41] fix: arrays are constructible from reverse iterators

---
 strictpp/array_base1D.hpp       | 2 +-
 strictpp/fixed_array_base1D.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/array_base1D.hpp b/strictpp/array_base1D.hpp
index 1e44c11..4636968 100644
--- a/strictpp/array_base1D.hpp
+++ b/strictpp/array_base1D.hpp
@@ -188,7 +188,7 @@ template <LinearIteratorType L>
 STRICT_NODISCARD_CONSTEXPR ArrayBase1D<T, AF>::ArrayBase1D(L b, L e)
    : ArrayBase1D(abss(Strict{e - b})) {
    ASSERT_STRICT_DEBUG(e >= b);
-   copy(b, e, *this);
+   detail::copy(b, e, *this);
 }
 
 
diff --git a/strictpp/fixed_array_base1D.hpp b/strictpp/fixed_array_base1D.hpp
index f7992d5..9e7ad0a 100644
--- a/strictpp/fixed_array_base1D.hpp
+++ b/strictpp/fixed_array_base1D.hpp
@@ -106,7 +106,7 @@ template <LinearIteratorType L>
 STRICT_NODISCARD_CONSTEXPR FixedArrayBase1D<T, N, AF>::FixedArrayBase1D(L b, L e) {
    ASSERT_STRICT_DEBUG(index_t{e - b} == N.get());
    ASSERT_STRICT_DEBUG(e >= b);
-   copy(b, e, *this);
+   detail::copy(b, e, *this);
 }
 
 
-- 
2.43.0


From 0373085cd80dc65173a78bad132b9e64f61f2e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:05 +0000
Subject: [PATCH 27/41] fix: reading a float128 from empty input or from text
 with embedded null characters is rejected

---
 strictpp/StrictCommon/strict_IO.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strictpp/StrictCommon/strict_IO.hpp b/strictpp/StrictCommon/strict_IO.hpp
index 444e5d6..4372fa7 100644
--- a/strictpp/StrictCommon/strict_IO.hpp
+++ b/strictpp/StrictCommon/strict_IO.hpp
@@ -229,7 +229,8 @@ std::istream& operator>>(std::istream& is, T& x) {
    char* p_end;
    errno = 0;
    x = strtoflt128(s, &p_end);
-   ASSERT_STRICT_ALWAYS(p_end - s == static_cast<std::ptrdiff_t>(std::strlen(s)));
+   ASSERT_STRICT_ALWAYS(!str.empty());
+   ASSERT_STRICT_ALWAYS(p_end - s == static_cast<std::ptrdiff_t>(str.size()));
    ASSERT_STRICT_ALWAYS(!(errno == ERANGE && isinfq(x)));
 
    return is;
-- 
2.43.0


From 949855ed00376fe2a1e225556bd852d78861cf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:53 +0000
Subject: [PATCH 28/41] fix: 2D float128 arrays can be printed

---
 strictpp/array_IO.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 1242d53..893e53c 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -218,7 +218,7 @@ auto count_digit(Real auto number) -> int {
    if(number == 0) {
       return 1;
    }
-   return static_cast<int>(std::log10(number)) + 1;
+   return static_cast<int>(std::log10(static_cast<long double>(number))) + 1;
 }
 
 
-- 
2.43.0


From c4500484689a7fecebd534892bf85bd02805dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:56 +0000
Subject: [PATCH 29/41] fix: boolean output can be read back

---
 strictpp/StrictCommon/strict_IO.hpp | 23 ++++++++++++++++++++++-
 strictpp/array_IO.hpp               |  6 +++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/strictpp/StrictCommon/strict_IO.hpp b/strictpp/StrictCommon/strict_IO.hpp
index 4372fa7..ab8d7d5 100644
--- a/strictpp/StrictCommon/strict_IO.hpp
+++ b/strictpp/StrictCommon/strict_IO.hpp
@@ -179,11 +179,32 @@ private:
 inline detail::StrictFormat format;
 
 
+namespace detail {
+
+
+// Booleans are written as true and false, which can be read back. 1 and 0 can be read as well.
+STRICT_INLINE std::istream& read_boolean(std::istream& is, bool& x) {
+   const auto flags = is.flags();
+   is >> std::ws;
+   const auto next = is.peek();
+   is >> (next == 't' || next == 'f' ? std::boolalpha : std::noboolalpha) >> x;
+   is.flags(flags);
+   return is;
+}
+
+
+} // namespace detail
+
+
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <NotQuadruple T>
 std::istream& operator>>(std::istream& is, Strict<T>& x) {
    T v;
-   is >> v;
+   if constexpr(Boolean<T>) {
+      detail::read_boolean(is, v);
+   } else {
+      is >> v;
+   }
    ASSERT_STRICT_ALWAYS(is);
    x = Strict{v};
    return is;
diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 893e53c..d8bccc9 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -111,7 +111,11 @@ bool read_next(std::istream& is, T& x) {
    if((is >> std::ws).eof()) {
       return false;
    }
-   is >> x;
+   if constexpr(Boolean<T>) {
+      read_boolean(is, x);
+   } else {
+      is >> x;
+   }
    ASSERT_STRICT_ALWAYS_MSG(!is.fail(), "Invalid input.\n");
    return !is.fail();
 }
-- 
2.43.0


From 3311a4939d93ba2bedd0225c5eef06a1e4b1e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:41 +0000
Subject: [PATCH 30/41] fix: float128 random numbers stay inside their range

---
 strictpp/Util/random.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/strictpp/Util/random.hpp b/strictpp/Util/random.hpp
index c765618..d56f2b6 100644
--- a/strictpp/Util/random.hpp
+++ b/strictpp/Util/random.hpp
@@ -191,22 +191,23 @@ private:
 };
 
 
-// Generates quadruple precision numbers that are double precision numbers.
+// Generates double precision numbers that are scaled to the range in quadruple precision,
+// since low and high might not be double precision numbers.
 #ifdef STRICT_QUAD_PRECISION
 template <Quadruple T>
 struct Generator<T> {
-   Generator(Strict<T> l, Strict<T> h)
-      : gen{std::random_device{}()},
-        dst{l.sd().val(), h.sd().val()} {
+   Generator(Strict<T> l, Strict<T> h) : gen{std::random_device{}()}, dst{0., 1.}, low{l}, high{h} {
    }
 
    auto random() const {
-      return Strict{dst(gen)}.sq();
+      return mins(low + Strict{dst(gen)}.sq() * (high - low), high);
    }
 
 private:
    mutable std::mt19937 gen;
    mutable std::uniform_real_distribution<double> dst;
+   Strict<T> low;
+   Strict<T> high;
 };
 #endif
 
-- 
2.43.0


From 6fc23b992117fd066b3b20cff4bf2c6d401f800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:18 +0000
Subject: [PATCH 31/41] fix: semi-random integers of wide ranges do not
 overflow

---
 strictpp/Util/semi_random.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index 624f3eb..7c4b781 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -169,7 +169,12 @@ public:
          if(low_ == Zero<T> && high_ == One<T>) {
             return rand_num > this->generate() ? Zero<T> : One<T>;
          } else {
-            return low_ + strict_cast<T>(rand_num) % (high_ - low_ + One<T>);
+            // The number of values in the range might not be representable by T.
+            const auto diff = high_.sul() - low_.sul();
+            return low_
+                 + strict_cast<T>(diff < modulus_.sul()
+                                     ? rand_num.sul() % (diff + One<unsigned long>)
+                                     : rand_num.sul());
          }
       } else {
          return rand_num > this->generate() ? false_sb : true_sb;
-- 
2.43.0


From 6d24505804b727d37b8baf4075844a73bb0f2239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:51 +0000
Subject: [PATCH 32/41] fix: within_tol_rel is false if the first value is NaN

---
 strictpp/Util/error_tools.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strictpp/Util/error_tools.hpp b/strictpp/Util/error_tools.hpp
index cd884de..ec28785 100644
--- a/strictpp/Util/error_tools.hpp
+++ b/strictpp/Util/error_tools.hpp
@@ -47,7 +47,8 @@ STRICT_CONSTEXPR_INLINE StrictBool within_tol_rel(Strict<T> x, Strict<T> y,
 
    auto abs1 = abss(x);
    auto abs2 = abss(y);
-   if(maxs(abs1, abs2) <= near_zero) {
+   // Not the same as maxs(abs1, abs2) if one of the values is NaN.
+   if(abs1 <= near_zero && abs2 <= near_zero) {
       return true_sb;
    }
    return abss(x - y) / maxs(abs1, abs2) <= tol;
-- 
2.43.0


From c7bde85c8b12a1eb723d8e869a1aeca0d1f8ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:55 +0000
Subject: [PATCH 33/41] fix: semi-random arrays of Size, Rows and Cols can be
 generated

---
 strictpp/Util/semi_random.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index 7c4b781..22acf62 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -407,7 +407,7 @@ constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high, Seed se
 
 template <Real T>
 constexpr auto semi_random(Size n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random<T>(n.get(), low.get(), high.get(), seed.get());
+   return semi_random<T>(n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -419,7 +419,7 @@ constexpr auto semi_random(ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Size n, Seed seed) {
-   return semi_random<T>(n.get(), seed.get());
+   return semi_random<T>(n.get(), seed);
 }
 
 
@@ -431,7 +431,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Strict<T> low, Strict<T
 
 template <Real T>
 constexpr auto semi_random(Rows m, Cols n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), low.get(), high.get(), seed.get());
+   return semi_random<T>(m.get(), n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -443,7 +443,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Rows m, Cols n, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), seed.get());
+   return semi_random<T>(m.get(), n.get(), seed);
 }
 
 
@@ -456,7 +456,7 @@ constexpr auto semi_random_not0(ImplicitInt n, Strict<T> low, Strict<T> high, Se
 
 template <Real T>
 constexpr auto semi_random_not0(Size n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random_not0<T>(n.get(), low.get(), high.get(), seed.get());
+   return semi_random_not0<T>(n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -468,7 +468,7 @@ constexpr auto semi_random_not0(ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Size n, Seed seed) {
-   return semi_random_not0<T>(n.get(), seed.get());
+   return semi_random_not0<T>(n.get(), seed);
 }
 
 
@@ -481,7 +481,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Strict<T> low, Str
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), low.get(), high.get(), seed.get());
+   return semi_random_not0<T>(m.get(), n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -493,7 +493,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), seed.get());
+   return semi_random_not0<T>(m.get(), n.get(), seed);
 }
 
 
-- 
2.43.0


From 6ee1810ed481b746c242fe61ce089d18211a5aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:56 +0000
Subject: [PATCH 34/41] fix: resize_and_assign of an array moved onto itself
 keeps its elements

---
 strictpp/array_base1D.hpp | 6 ++++--
 strictpp/array_base2D.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/strictpp/array_base1D.hpp b/strictpp/array_base1D.hpp
index 4636968..8ce25ce 100644
--- a/strictpp/array_base1D.hpp
+++ b/strictpp/array_base1D.hpp
@@ -311,8 +311,10 @@ STRICT_CONSTEXPR auto& ArrayBase1D<T, AF>::resize_and_assign(OneDimBaseType auto
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase1D<T, AF>::resize_and_assign(StrictArray1D<ArrayBase1D>&& A) {
-   this->swap(A);
-   A.swap(ArrayBase1D{});
+   if(this != &A) {
+      this->swap(A);
+      A.swap(ArrayBase1D{});
+   }
    return static_cast<StrictArray1D<ArrayBase1D>&>(*this);
 }
 
diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index dc976be..0f39240 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -295,8 +295,10 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::resize_and_assign(TwoDimBaseType auto
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::resize_and_assign(StrictArray2D<ArrayBase2D>&& A) {
-   this->swap(A);
-   A.swap(ArrayBase2D{});
+   if(this != &A) {
+      this->swap(A);
+      A.swap(ArrayBase2D{});
+   }
    return static_cast<StrictArray2D<ArrayBase2D>&>(*this);
 }
 
-- 
2.43.0


From 7f8c5f1c0f425136626ecda753e7016610f427fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:44 +0000
Subject: [PATCH 35/41] fix: fix: map fixed-size single-column arrays to Eigen

---
 strictpp/Eigen/map.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/strictpp/Eigen/map.hpp b/strictpp/Eigen/map.hpp
index 65de7ff..2f1f14b 100644
--- a/strictpp/Eigen/map.hpp
+++ b/strictpp/Eigen/map.hpp
@@ -63,9 +63,12 @@ auto map(Base&& A) {
    using base = RemoveRef<Base>;
 
    if constexpr(base::is_fixed()) {
-      using matrix_type = detail::CopyConstTo<
-         base,
-         Matrix<builtin_type, base::rows().val(), base::cols().val(), RowMajor>>::value_type;
+      // Eigen does not accept row-major column vectors; both storage orders coincide for them.
+      constexpr int m = base::rows().val();
+      constexpr int n = base::cols().val();
+      constexpr auto order = (n == 1 && m != 1) ? StorageOptions::ColMajor : StorageOptions::RowMajor;
+      using matrix_type =
+         detail::CopyConstTo<base, Matrix<builtin_type, m, n, order>>::value_type;
 
       return Map<matrix_type, detail::eigen_align<base>()>{A.blas_data()};
    } else {
-- 
2.43.0


From dbe553cea6197f13efddd37b703efb5ad170a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:03 +0000
Subject: [PATCH 36/41] fix: reject && and || between Strict<bool> and a raw
 value of another type

---
 strictpp/StrictCommon/strict_val.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/strictpp/StrictCommon/strict_val.hpp b/strictpp/StrictCommon/strict_val.hpp
index 4dc052c..eefa295 100644
--- a/strictpp/StrictCommon/strict_val.hpp
+++ b/strictpp/StrictCommon/strict_val.hpp
@@ -9,6 +9,7 @@
 #include "strict_traits.hpp"
 
 #include <cstdlib>
+#include <type_traits>
 
 
 namespace spp {
@@ -470,6 +471,28 @@ STRICT_NODISCARD_CONSTEXPR_INLINE StrictBool operator||(Strict<T> x, Strict<T> y
 }
 
 
+// Strict<bool> converts to bool implicitly, so without these overloads built-in
+// operators would accept values of any other built-in type.
+template <Boolean T, typename U>
+   requires(std::is_arithmetic_v<U> || Builtin<U>) && (!Boolean<U>)
+StrictBool operator&&(Strict<T> x, U y) = delete;
+
+
+template <Boolean T, typename U>
+   requires(std::is_arithmetic_v<U> || Builtin<U>) && (!Boolean<U>)
+StrictBool operator&&(U x, Strict<T> y) = delete;
+
+
+template <Boolean T, typename U>
+   requires(std::is_arithmetic_v<U> || Builtin<U>) && (!Boolean<U>)
+StrictBool operator||(Strict<T> x, U y) = delete;
+
+
+template <Boolean T, typename U>
+   requires(std::is_arithmetic_v<U> || Builtin<U>) && (!Boolean<U>)
+StrictBool operator||(U x, Strict<T> y) = delete;
+
+
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <Builtin T>
 STRICT_NODISCARD_CONSTEXPR_INLINE StrictBool operator==(Strict<T> x, Strict<T> y) {
-- 
2.43.0


From e1da8e60b291c851dfa8a8c8dceec78ddf2e7651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:47 +0000
Subject: [PATCH 37/41] fix: refuse unsigned literals that do not fit their
 type

---
 strictpp/StrictCommon/strict_literals.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/StrictCommon/strict_literals.hpp b/strictpp/StrictCommon/strict_literals.hpp
index 07489bb..7f84f4c 100644
--- a/strictpp/StrictCommon/strict_literals.hpp
+++ b/strictpp/StrictCommon/strict_literals.hpp
@@ -26,6 +26,7 @@ consteval Strict<long int> operator""_sl(unsigned long long x) {
 
 
 consteval Strict<unsigned int> operator""_sui(unsigned long long x) {
+   ASSERT_STRICT_DEBUG(x <= std::numeric_limits<unsigned int>::max());
    return Strict{static_cast<unsigned int>(x)};
 }
 
-- 
2.43.0


From 0060639e3fcd040a8f69e64643c85c6c410a8d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:22 +0000
Subject: [PATCH 38/41] fix: accept digit separators in quadruple precision
 literals

---
 strictpp/StrictCommon/strict_literals.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/strictpp/StrictCommon/strict_literals.hpp b/strictpp/StrictCommon/strict_literals.hpp
index 7f84f4c..b77dbce 100644
--- a/strictpp/StrictCommon/strict_literals.hpp
+++ b/strictpp/StrictCommon/strict_literals.hpp
@@ -7,6 +7,8 @@
 #include "error.hpp"
 #include "strict_val.hpp"
 
+#include <array>
+#include <cstddef>
 #include <limits>
 
 
@@ -55,7 +57,13 @@ consteval Strict<long double> operator""_sl(long double x) {
 #ifdef STRICT_QUAD_PRECISION
 template <char... Chars>
 inline Strict<float128> operator""_sq() {
-   constexpr char str[] = {Chars..., '\0'};
+   // Digit separators are removed since they are not recognized by strtoflt128.
+   constexpr auto str = []() {
+      std::array<char, sizeof...(Chars) + 1> a{};
+      std::size_t n = 0;
+      ((Chars != '\'' ? void(a[n++] = Chars) : void()), ...);
+      return a;
+   }();
 
    // Pre-check for binary/octal literals.
    ASSERT_STRICT_ALWAYS_MSG(
@@ -63,7 +71,7 @@ inline Strict<float128> operator""_sq() {
         && (str[1] == 'b' || str[1] == 'B' || (str[1] >= '0' && str[1] <= '7'))),
       "A real128 cannot be constructed from binary or octal literals\n");
 
-   float128 x = strtoflt128(str, nullptr);
+   float128 x = strtoflt128(str.data(), nullptr);
    return Strict{x};
 }
 #endif
-- 
2.43.0


From f56c8d83eaef2f2a14c44f69993ffb5b55b7b1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:54 +0000
Subject: [PATCH 39/41] fix: do not capture the user's variables in STRICT_TIME

---
 strictpp/Util/timer.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/strictpp/Util/timer.hpp b/strictpp/Util/timer.hpp
index 26849a8..7f34efb 100644
--- a/strictpp/Util/timer.hpp
+++ b/strictpp/Util/timer.hpp
@@ -13,14 +13,15 @@
 
 
 // Removed std::format since Intel and clang compilers do not support it(at this time).
-#define STRICT_TIME(a)                                                       \
-   do {                                                                      \
-      spp::timer t;                                                          \
-      a;                                                                     \
-      std::ostringstream stream;                                             \
-      stream << (#a) << " took: " << std::setprecision(4) << std::scientific \
-             << t.wall_time().val() << " seconds\n";                         \
-      std::cout << stream.str();                                             \
+// Local variables have unlikely names so that they do not hide the variables used in the statement.
+#define STRICT_TIME(a)                                                                    \
+   do {                                                                                   \
+      spp::timer strict_time_timer_;                                                      \
+      a;                                                                                  \
+      std::ostringstream strict_time_stream_;                                             \
+      strict_time_stream_ << (#a) << " took: " << std::setprecision(4) << std::scientific \
+                          << strict_time_timer_.wall_time().val() << " seconds\n";        \
+      std::cout << strict_time_stream_.str();                                             \
    } while(0)
 
 
-- 
2.43.0


From a1d0e9c29d51338a963eca089fc8f8341faefc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:23 +0000
Subject: [PATCH 40/41] fix: measure wall time with a steady clock

---
 strictpp/Util/timer.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/strictpp/Util/timer.hpp b/strictpp/Util/timer.hpp
index 7f34efb..b041c47 100644
--- a/strictpp/Util/timer.hpp
+++ b/strictpp/Util/timer.hpp
@@ -29,22 +29,25 @@ namespace spp {
 
 
 struct timer {
-   explicit timer() : start{std::chrono::high_resolution_clock::now()} {
+   // Steady clock is not affected by adjustments of the system time.
+   using clock = std::chrono::steady_clock;
+
+   explicit timer() : start{clock::now()} {
    }
 
    void restart() {
-      start = std::chrono::high_resolution_clock::now();
+      start = clock::now();
    }
 
    Strict64 wall_time() const {
       return Strict64{static_cast<double>(std::chrono::duration_cast<std::chrono::nanoseconds>(
-                                             std::chrono::high_resolution_clock::now() - start)
+                                             clock::now() - start)
                                              .count())
                       / 1.e9};
    }
 
 private:
-   std::chrono::system_clock::time_point start;
+   clock::time_point start;
 };
 
 
-- 
2.43.0


From acafaf2d1b53ab55119e3ec400b115abb7e93c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:55 +0000
Subject: [PATCH 41/41] fix: resolve ambiguous semi_random(m, n, seed) for
 signed integers

---
 strictpp/Util/semi_random.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index 22acf62..58cceb2 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -107,6 +107,11 @@ template <Builtin T>
 constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Seed seed = Seed{One<unsigned>});
 
 
+// Resolves the ambiguity with the overload for 1D arrays if n is Strict<T>.
+template <SignedInteger T, SameAs<Strict<T>> N>
+constexpr auto semi_random(ImplicitInt m, N n, Seed seed);
+
+
 template <Builtin T>
 constexpr auto semi_random(Rows m, Cols n, Seed seed = Seed{One<unsigned>});
 
@@ -143,6 +148,11 @@ template <Real T>
 constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Seed seed = Seed{One<unsigned>});
 
 
+// Resolves the ambiguity with the overload for 1D arrays if n is Strict<T>.
+template <SignedInteger T, SameAs<Strict<T>> N>
+constexpr auto semi_random_not0(ImplicitInt m, N n, Seed seed);
+
+
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Seed seed = Seed{One<unsigned>});
 
@@ -441,6 +451,12 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Seed seed) {
 }
 
 
+template <SignedInteger T, SameAs<Strict<T>> N>
+constexpr auto semi_random(ImplicitInt m, N n, Seed seed) {
+   return detail::semi_random<T>(m, n, Zero<T>, One<T>, seed.get());
+}
+
+
 template <Builtin T>
 constexpr auto semi_random(Rows m, Cols n, Seed seed) {
    return semi_random<T>(m.get(), n.get(), seed);
@@ -491,6 +507,12 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Seed seed) {
 }
 
 
+template <SignedInteger T, SameAs<Strict<T>> N>
+constexpr auto semi_random_not0(ImplicitInt m, N n, Seed seed) {
+   return detail::semi_random_not0<T>(m, n, Zero<T>, One<T>, seed.get());
+}
+
+
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Seed seed) {
    return semi_random_not0<T>(m.get(), n.get(), seed);
-- 
2.43.0

