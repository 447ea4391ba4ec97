From b26c0f1b2ad1638a14414784b91ce9d77b5d3e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 01/36] fix: reject a malformed last token when reading arrays

A token that fails to convert and runs into the end of the input ("1 2 -",
an out-of-range integer, the last column of any row of a 2-D array) was
dropped silently because only eof() was checked afterwards.
---
 strictpp/array_IO.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 5ca2934..d793def 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -110,14 +110,15 @@ std::istream& istream_base_read(std::istream& is, Array1D<T, AF>& A) {
    index_t count{};
 
    Array1D<T, AF> tmp(8);
-   while(is >> x) {
+   while(!(is >> std::ws).eof()) {
+      ASSERT_STRICT_ALWAYS_MSG(is >> x, "Invalid input.\n");
       tmp.un(count++) = Strict{x};
       if(tmp.size() == count) {
          tmp.resize(2_sl * count);
       }
    }
 
-   ASSERT_STRICT_ALWAYS_MSG(is.eof(), "Invalid input.\n");
+   ASSERT_STRICT_ALWAYS_MSG(!is.bad(), "Invalid input.\n");
    is.clear();
 
    tmp.resize(count);
@@ -133,7 +134,8 @@ void get_first_row(const std::string& line, Array2D<T, AF>& A) {
    T x{};
    std::istringstream iss{line};
    index_t ncols{};
-   while(iss >> x) {
+   while(!(iss >> std::ws).eof()) {
+      ASSERT_STRICT_ALWAYS_MSG(iss >> x, "Invalid input.\n");
       A(0, ncols++) = Strict{x};
       if(A.cols() == ncols) {
          A.resize(1, 2_sl * ncols);
@@ -145,7 +147,7 @@ void get_first_row(const std::string& line, Array2D<T, AF>& A) {
       A.resize(0, 0);
    }
 
-   ASSERT_STRICT_ALWAYS_MSG(iss.eof(), "Invalid input.\n");
+   ASSERT_STRICT_ALWAYS_MSG(!iss.bad(), "Invalid input.\n");
    iss.clear();
 }
 
@@ -155,12 +157,13 @@ void get_row(const std::string& line, index_t row, Array2D<T, AF>& A) {
    T x{};
    std::istringstream iss{line};
    index_t ncols{};
-   while(iss >> x) {
+   while(!(iss >> std::ws).eof()) {
+      ASSERT_STRICT_ALWAYS_MSG(iss >> x, "Invalid input.\n");
       A(row, ncols++) = Strict{x};
    }
 
    ASSERT_STRICT_ALWAYS(ncols == A.cols());
-   ASSERT_STRICT_ALWAYS_MSG(iss.eof(), "Invalid input.\n");
+   ASSERT_STRICT_ALWAYS_MSG(!iss.bad(), "Invalid input.\n");
    iss.clear();
 }
 
-- 
2.43.0


From 8056a6f5ea1d6b844c8b0d94b0c797de7d454493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 02/36] fix: report stream errors when reading 2-D arrays

A read error in the middle of the stream ended the getline loop like the end
of the input and the array was silently truncated.
---
 strictpp/array_IO.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index d793def..6db51a3 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -195,6 +195,7 @@ std::istream& istream_base_read(std::istream& is, Array2D<T, AF>& A) {
       tmp.resize(row_count, ncols);
    }
 
+   ASSERT_STRICT_ALWAYS_MSG(is.eof() && !is.bad(), "Invalid input.\n");
    A.swap(tmp);
    return is;
 }
-- 
2.43.0


From b7ad98a85c033d1fc5d4e5d6b0645495b6f2a531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 03/36] fix: check the row length before storing when reading
 2-D arrays

With STRICT_DEBUG_OFF a row longer than the first one was written past its
end, and past the end of the array for the last row, before being rejected.
---
 strictpp/array_IO.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 6db51a3..e9b7824 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -159,6 +159,7 @@ void get_row(const std::string& line, index_t row, Array2D<T, AF>& A) {
    index_t ncols{};
    while(!(iss >> std::ws).eof()) {
       ASSERT_STRICT_ALWAYS_MSG(iss >> x, "Invalid input.\n");
+      ASSERT_STRICT_ALWAYS(ncols < A.cols());
       A(row, ncols++) = Strict{x};
    }
 
-- 
2.43.0


From a31c7edf9848ebe2aad8c5db0b62145f12e84822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 04/36] fix: report write errors in print_to_file

Full disks and I/O errors left a truncated file without any error.
---
 strictpp/array_IO.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index e9b7824..420f9f8 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -414,6 +414,7 @@ void print_to_file(const std::string& file_path, BaseType auto const& A, const s
    ASSERT_STRICT_ALWAYS_MSG(ofs, "Invalid file path.\n");
    detail::ostream_base_print(ofs, A, name);
    ofs.close();
+   ASSERT_STRICT_ALWAYS_MSG(ofs, "Failed to write to file.\n");
 }
 
 
-- 
2.43.0


From 2a2d5bd29efaac90ab309a4df5e9c0b4b6c3d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 05/36] fix: check the stream when reading Strict<float128>

As for the other types; a read at the end of the input stored zero.
---
 strictpp/StrictCommon/strict_IO.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/StrictCommon/strict_IO.hpp b/strictpp/StrictCommon/strict_IO.hpp
index 54cf842..553443a 100644
--- a/strictpp/StrictCommon/strict_IO.hpp
+++ b/strictpp/StrictCommon/strict_IO.hpp
@@ -236,6 +236,7 @@ template <Quadruple T>
 std::istream& operator>>(std::istream& is, Strict<T>& x) {
    float128 v;
    is >> v;
+   ASSERT_STRICT_ALWAYS(is);
    x = Strict{v};
    return is;
 }
-- 
2.43.0


From 36afa7501909d5b215e8e176e5ad80c1688c2e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 06/36] fix: do not truncate long quadruple precision output

Fixed format needs more than 128 characters for large values or precisions.
---
 strictpp/StrictCommon/strict_IO.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/strictpp/StrictCommon/strict_IO.hpp b/strictpp/StrictCommon/strict_IO.hpp
index 553443a..1f4d138 100644
--- a/strictpp/StrictCommon/strict_IO.hpp
+++ b/strictpp/StrictCommon/strict_IO.hpp
@@ -244,15 +244,25 @@ std::istream& operator>>(std::istream& is, Strict<T>& x) {
 
 template <Quadruple T>
 std::ostream& operator<<(std::ostream& os, T x) {
-   static thread_local char buf[128];
+   std::string buf;
+   // Longer than the buffer in fixed format for large values or precisions.
+   auto write = [&](const std::string& frmt, int width) {
+      buf.resize(128);
+      int n = quadmath_snprintf(buf.data(), buf.size(), frmt.c_str(), width, x);
+      if(n >= static_cast<int>(buf.size())) {
+         buf.resize(static_cast<std::string::size_type>(n) + 1);
+         n = quadmath_snprintf(buf.data(), buf.size(), frmt.c_str(), width, x);
+      }
+      buf.resize(static_cast<std::string::size_type>(n < 0 ? 0 : n));
+   };
    if(format.scientific_) {
       std::string frmt = "%+-#*." + std::to_string(format.precision_[3]) + std::string("QE");
       int width = format.precision_[3] + 7;
-      quadmath_snprintf(buf, sizeof(buf), frmt.c_str(), width, x);
+      write(frmt, width);
    } else {
       std::string frmt = "%+-#*." + std::to_string(format.precision_[3]) + std::string("QF");
       int width = format.precision_[3] + 3;
-      quadmath_snprintf(buf, sizeof(buf), frmt.c_str(), width, x);
+      write(frmt, width);
    }
    os << buf;
    return os;
-- 
2.43.0


From 09d44c292a8842938c933b7913b5fb60467e725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 07/36] fix: measure wall time with a monotonic clock

The system clock made wall_time wrong, even negative, when it was adjusted.
---
 strictpp/Util/timer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strictpp/Util/timer.hpp b/strictpp/Util/timer.hpp
index 26849a8..b6f472c 100644
--- a/strictpp/Util/timer.hpp
+++ b/strictpp/Util/timer.hpp
@@ -28,22 +28,22 @@ namespace spp {
 
 
 struct timer {
-   explicit timer() : start{std::chrono::high_resolution_clock::now()} {
+   explicit timer() : start{std::chrono::steady_clock::now()} {
    }
 
    void restart() {
-      start = std::chrono::high_resolution_clock::now();
+      start = std::chrono::steady_clock::now();
    }
 
    Strict64 wall_time() const {
       return Strict64{static_cast<double>(std::chrono::duration_cast<std::chrono::nanoseconds>(
-                                             std::chrono::high_resolution_clock::now() - start)
+                                             std::chrono::steady_clock::now() - start)
                                              .count())
                       / 1.e9};
    }
 
 private:
-   std::chrono::system_clock::time_point start;
+   std::chrono::steady_clock::time_point start;
 };
 
 
-- 
2.43.0


From 8c8b42deb1d3169f7d325a5904e02167dc5ad546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 08/36] fix: keep the dimensions of a 2-D array on self-move

Self-move assignment zeroed rows() and cols() and kept the elements.
---
 strictpp/array_base2D.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 8fa29be..8c32023 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -220,8 +220,10 @@ STRICT_CONSTEXPR ArrayBase2D<T, AF>& ArrayBase2D<T, AF>::operator=(const ArrayBa
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR ArrayBase2D<T, AF>& ArrayBase2D<T, AF>::operator=(ArrayBase2D&& A) noexcept {
    NORMAL_ASSERT_STRICT_DEBUG(same_size(*this, A));
-   A.dims_ = 0_sl;
-   data1D_ = std::move(A.data1D_);
+   if(this != &A) {
+      A.dims_ = 0_sl;
+      data1D_ = std::move(A.data1D_);
+   }
    return *this;
 }
 
-- 
2.43.0


From 735423a50b6b5e8c5a30b39e4223e4542d51bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 09/36] fix: insert into an empty 2-D array only after the
 operand is evaluated

As for non-empty arrays; an operand that threw left a resized array behind.
---
 strictpp/array_base2D.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 8c32023..1938c80 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -557,8 +557,9 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::insert_row(ImplicitInt row_pos,
    ASSERT_STRICT_DEBUG(row_pos.get() >= 0_sl && row_pos.get() <= this->rows());
    // Ensure A is not empty to satisfy semi_valid_row_col_sizes.
    if(this->rows() == 0_sl && this->cols() == 0_sl && A.size() != 0_sl) {
-      this->resize(1, A.size());
-      copyn(A, *this, A.size());
+      ArrayBase2D tmp(1, A.size());
+      copyn(A, tmp, A.size());
+      this->swap(tmp);
       return static_cast<StrictArray2D<ArrayBase2D>&>(*this);
    }
 
@@ -607,8 +608,9 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::insert_col(ImplicitInt col_pos,
    ASSERT_STRICT_DEBUG(col_pos.get() >= 0_sl && col_pos.get() <= this->cols());
    // Ensure A is not empty to satisfy semi_valid_row_col_sizes.
    if(this->rows() == 0_sl && this->cols() == 0_sl && A.size() != 0_sl) {
-      this->resize(A.size(), 1);
-      copyn(A, *this, A.size());
+      ArrayBase2D tmp(A.size(), 1);
+      copyn(A, tmp, A.size());
+      this->swap(tmp);
       return static_cast<StrictArray2D<ArrayBase2D>&>(*this);
    }
 
-- 
2.43.0


From 46fb38e38f622556bc014855e448e4f496a9942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 10/36] fix: honour the offset of last in remove_row and
 remove_col

remove_row(last - k) removed the last row whatever k was.
---
 strictpp/array_base2D.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 1938c80..dc976be 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -365,8 +365,8 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Pos row_pos) {
 
 
 template <Builtin T, AlignmentFlag AF>
-STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row([[maybe_unused]] Last lst) {
-   return this->remove_row(this->rows() - 1_sl);
+STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Last lst) {
+   return this->remove_row(this->rows() - 1_sl - lst.get());
 }
 
 
@@ -383,8 +383,8 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Pos col_pos) {
 
 
 template <Builtin T, AlignmentFlag AF>
-STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col([[maybe_unused]] Last lst) {
-   return this->remove_col(this->cols() - 1_sl);
+STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Last lst) {
+   return this->remove_col(this->cols() - 1_sl - lst.get());
 }
 
 
-- 
2.43.0


From 38e5ef6966b8c9682a24f3a69b9ad5378e4119e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 11/36] fix: honour the offset of last in exclude

---
 strictpp/Expr/special.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 68f8919..28911fa 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -410,8 +410,8 @@ STRICT_CONSTEXPR auto exclude(const Base& A, Pos pos, Count count) {
 
 
 template <OneDimBaseType Base>
-STRICT_CONSTEXPR auto exclude(const Base& A, [[maybe_unused]] Last lst) {
-   return exclude(A, A.size_m1());
+STRICT_CONSTEXPR auto exclude(const Base& A, Last lst) {
+   return exclude(A, A.size_m1() - lst.get());
 }
 
 
-- 
2.43.0


From 84ce0c916e0f9a20364b04b676a54399ec09828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 12/36] fix: store slices and expressions by copy in transpose

As the other expressions do; transpose of a temporary slice or expression
dangled once the full expression ended.
---
 strictpp/Expr/special.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 28911fa..f7be2d6 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -512,9 +512,17 @@ STRICT_CONSTEXPR auto identity(ImplicitInt n) {
 
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto transpose(const Base& A) {
-   auto op = [&A](index_t i, index_t j) { return A.un(j, i); };
-   using E = detail::IndexExpr2D<BuiltinTypeOf<Base>, decltype(op)>;
-   return StrictArrayBase2D<E>{A.cols(), A.rows(), op};
+   // Random expressions are not copyable.
+   if constexpr(std::is_copy_constructible_v<Base>) {
+      auto AE = generate(A, [](auto x) { return x; });
+      auto op = [AE](index_t i, index_t j) { return AE.un(j, i); };
+      using E = detail::IndexExpr2D<BuiltinTypeOf<Base>, decltype(op)>;
+      return StrictArrayBase2D<E>{A.cols(), A.rows(), op};
+   } else {
+      auto op = [&A](index_t i, index_t j) { return A.un(j, i); };
+      using E = detail::IndexExpr2D<BuiltinTypeOf<Base>, decltype(op)>;
+      return StrictArrayBase2D<E>{A.cols(), A.rows(), op};
+   }
 }
 
 
-- 
2.43.0


From 90e1f809f2d14668b6ab186a9449938af4f53379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 13/36] fix: give the semi-random generator its full period

With multiplier 8 every state after the first few had the same low bits, so
that semi_rands_not0(-1, 0) never returned. 21 satisfies the full-period
conditions for modulus 10^7.
---
 strictpp/Util/semi_random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index be51207..92f8f66 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -178,7 +178,7 @@ public:
 
 private:
    static constexpr Strict<unsigned> modulus_{10'000'000U};
-   static constexpr Strict<unsigned> multiplier_{8U};
+   static constexpr Strict<unsigned> multiplier_{21U};
    static constexpr Strict<unsigned> increment_{13U};
    mutable Strict<unsigned> previous_;
    Strict<T> low_;
-- 
2.43.0


From 7f62fcebd30d64b76ed79a6510b5aea6a10e7976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 14/36] fix: print two-dimensional quadruple-precision arrays

---
 strictpp/array_IO.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 420f9f8..80b2c1b 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -206,7 +206,11 @@ auto count_digit(Real auto number) -> int {
    if(number == 0) {
       return 1;
    }
-   return static_cast<int>(std::log10(number)) + 1;
+   if constexpr(Floating<decltype(number)>) {
+      return static_cast<int>(log10s(Strict{number}).val()) + 1;
+   } else {
+      return static_cast<int>(std::log10(number)) + 1;
+   }
 }
 
 
-- 
2.43.0


From d931aa67cadea783794d0e6846eebe80a6cc75b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 15/36] fix: reject quadruple-precision tokens with null
 characters

---
 strictpp/StrictCommon/strict_IO.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strictpp/StrictCommon/strict_IO.hpp b/strictpp/StrictCommon/strict_IO.hpp
index 1f4d138..8dd0104 100644
--- a/strictpp/StrictCommon/strict_IO.hpp
+++ b/strictpp/StrictCommon/strict_IO.hpp
@@ -226,7 +226,8 @@ std::istream& operator>>(std::istream& is, T& x) {
    const char* s = str.c_str();
    char* p_end;
    x = strtoflt128(s, &p_end);
-   ASSERT_STRICT_ALWAYS(p_end - s == static_cast<std::ptrdiff_t>(std::strlen(s)));
+   // The token may contain null characters.
+   ASSERT_STRICT_ALWAYS(p_end - s == static_cast<std::ptrdiff_t>(str.size()));
 
    return is;
 }
-- 
2.43.0


From 6e5df755e3ef18b78609cd626aa13910f88b73e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:10 +0000
Subject: [PATCH 16/36] fix: make every form of semi_random callable

---
 strictpp/Util/semi_random.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index 92f8f66..515f84d 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -76,7 +76,7 @@ constexpr void semi_random_not0(Base&&... A);
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-template <Real T, typename U>
+template <Real T>
 constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high,
                            Seed seed = Seed{One<unsigned>});
 
@@ -394,7 +394,7 @@ constexpr void semi_random_not0(Base&&... A) {
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-template <Real T, typename U>
+template <Real T>
 constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high, Seed seed) {
    return detail::semi_random<T>(n, low, high, seed.get());
 }
@@ -402,7 +402,7 @@ constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high, Seed se
 
 template <Real T>
 constexpr auto semi_random(Size n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random<T>(n.get(), low.get(), high.get(), seed.get());
+   return semi_random<T>(n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -414,7 +414,7 @@ constexpr auto semi_random(ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Size n, Seed seed) {
-   return semi_random<T>(n.get(), seed.get());
+   return semi_random<T>(n.get(), seed);
 }
 
 
@@ -426,7 +426,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Strict<T> low, Strict<T
 
 template <Real T>
 constexpr auto semi_random(Rows m, Cols n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), low.get(), high.get(), seed.get());
+   return semi_random<T>(m.get(), n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -438,7 +438,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Rows m, Cols n, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), seed.get());
+   return semi_random<T>(m.get(), n.get(), seed);
 }
 
 
@@ -451,7 +451,7 @@ constexpr auto semi_random_not0(ImplicitInt n, Strict<T> low, Strict<T> high, Se
 
 template <Real T>
 constexpr auto semi_random_not0(Size n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random_not0<T>(n.get(), low.get(), high.get(), seed.get());
+   return semi_random_not0<T>(n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -463,7 +463,7 @@ constexpr auto semi_random_not0(ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Size n, Seed seed) {
-   return semi_random_not0<T>(n.get(), seed.get());
+   return semi_random_not0<T>(n.get(), seed);
 }
 
 
@@ -476,7 +476,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Strict<T> low, Str
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), low.get(), high.get(), seed.get());
+   return semi_random_not0<T>(m.get(), n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -488,7 +488,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), seed.get());
+   return semi_random_not0<T>(m.get(), n.get(), seed);
 }
 
 
-- 
2.43.0


From 1b75baaa78e61787cb33f976e3abb2a4984bf03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:14 +0000
Subject: [PATCH 17/36] fix: do not print truncated text when memory runs out

---
 strictpp/StrictCommon/strict_IO.hpp | 1 +
 strictpp/array_IO.hpp               | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/strictpp/StrictCommon/strict_IO.hpp b/strictpp/StrictCommon/strict_IO.hpp
index 8dd0104..415fd47 100644
--- a/strictpp/StrictCommon/strict_IO.hpp
+++ b/strictpp/StrictCommon/strict_IO.hpp
@@ -283,6 +283,7 @@ void print(StrictBuiltin auto x, const std::string& name) {
       stream << name << ":" << '\n';
    }
    stream << x;
+   ASSERT_STRICT_ALWAYS_MSG(stream, "Output failed.\n");
    std::cout << stream.str() << '\n';
 }
 
diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 80b2c1b..713e4bf 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -339,10 +339,12 @@ void print_helper(const Base1& A1, const BArgs&... AArgs) {
    std::ostringstream stream;
    if constexpr(sizeof...(AArgs) == 0) {
       ostream_base_print(stream, A1, "");
+      ASSERT_STRICT_ALWAYS_MSG(stream, "Output failed.\n");
       std::cout << stream.str();
       return;
    } else {
       ostream_base_print(stream, A1, "") << '\n' << std::flush;
+      ASSERT_STRICT_ALWAYS_MSG(stream, "Output failed.\n");
       std::cout << stream.str();
       print_helper(AArgs...);
    }
@@ -391,6 +393,7 @@ std::ostream& operator<<(std::ostream& os, BaseType auto const& A) {
 void print(BaseType auto const& A, const std::string& name) {
    std::ostringstream stream;
    detail::ostream_base_print(stream, A, name);
+   ASSERT_STRICT_ALWAYS_MSG(stream, "Output failed.\n");
    std::cout << stream.str();
 }
 
-- 
2.43.0


From d18ca314d6f074f5b0a3e78468ecc628f89c18e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:16 +0000
Subject: [PATCH 18/36] fix: do not print a truncated time when memory runs out

---
 strictpp/Util/timer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/Util/timer.hpp b/strictpp/Util/timer.hpp
index b6f472c..d57f330 100644
--- a/strictpp/Util/timer.hpp
+++ b/strictpp/Util/timer.hpp
@@ -20,6 +20,7 @@
       std::ostringstream stream;                                             \
       stream << (#a) << " took: " << std::setprecision(4) << std::scientific \
              << t.wall_time().val() << " seconds\n";                         \
+      ASSERT_STRICT_ALWAYS_MSG(stream, "Output failed.\n");                  \
       std::cout << stream.str();                                             \
    } while(0)
 
-- 
2.43.0


From c6b745ffa10ec7896de7c52008ec8043381b46e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:17 +0000
Subject: [PATCH 19/36] fix: random floating point numbers for intervals whose
 width overflows

---
 strictpp/Util/random.hpp        |  6 ++++--
 strictpp/Util/random_traits.hpp | 19 +++++++++++++++++++
 strictpp/Util/semi_random.hpp   |  3 ++-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/strictpp/Util/random.hpp b/strictpp/Util/random.hpp
index c765618..d66c889 100644
--- a/strictpp/Util/random.hpp
+++ b/strictpp/Util/random.hpp
@@ -178,16 +178,18 @@ private:
 
 template <StandardFloating T>
 struct Generator<T> {
-   Generator(Strict<T> l, Strict<T> h) : gen{std::random_device{}()}, dst{l.val(), h.val()} {
+   Generator(Strict<T> l, Strict<T> h) : gen{std::random_device{}()}, low{l}, high{h} {
    }
 
    auto random() const {
-      return Strict{dst(gen)};
+      return map_to_interval(Strict{dst(gen)}, low, high);
    }
 
 private:
    mutable std::mt19937 gen;
    mutable std::uniform_real_distribution<T> dst;
+   Strict<T> low;
+   Strict<T> high;
 };
 
 
diff --git a/strictpp/Util/random_traits.hpp b/strictpp/Util/random_traits.hpp
index 36f20fa..a27817e 100644
--- a/strictpp/Util/random_traits.hpp
+++ b/strictpp/Util/random_traits.hpp
@@ -7,6 +7,8 @@
 #include "../ArrayCommon/array_traits.hpp"
 #include "../StrictCommon/strict_common.hpp"
 
+#include <limits>
+
 
 namespace spp::detail {
 
@@ -30,4 +32,21 @@ template <typename... Base> concept RandomRealBases =
    AllNonConstBases<RemoveRef<Base>...> && Real<BuiltinTypeOf<LastPack_t<Base...>>>;
 
 
+// Maps u from [0, 1) to [low, high], also if high - low is too large to be represented.
+template <Floating T>
+constexpr Strict<T> map_to_interval(Strict<T> u, Strict<T> low, Strict<T> high) {
+   constexpr Strict<T> half{T(0.5)};
+#ifdef STRICT_QUAD_PRECISION
+   constexpr Strict<T> max{SameAs<T, float128> ? T(FLT128_MAX) : std::numeric_limits<T>::max()};
+#else
+   constexpr Strict<T> max{std::numeric_limits<T>::max()};
+#endif
+
+   if(auto half_width = half * high - half * low; half_width > half * max) {
+      return (half * low + u * half_width) / half;
+   }
+   return low + u * (high - low);
+}
+
+
 } // namespace spp::detail
diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index 515f84d..3fb8bdc 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -164,7 +164,8 @@ public:
    constexpr Strict<T> random() const {
       auto rand_num = this->generate();
       if constexpr(Floating<T>) {
-         return low_ + (strict_cast<T>(rand_num) / strict_cast<T>(modulus_)) * (high_ - low_);
+         return map_to_interval(
+            strict_cast<T>(rand_num) / strict_cast<T>(modulus_), low_, high_);
       } else if constexpr(Integer<T>) {
          if(low_ == Zero<T> && high_ == One<T>) {
             return rand_num > this->generate() ? Zero<T> : One<T>;
-- 
2.43.0


From d6ff638f2c4c69e124184b688af02be823b78794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:48 +0000
Subject: [PATCH 20/36] fix: random quadruple precision numbers stay within
 their bounds

---
 strictpp/Util/random.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/strictpp/Util/random.hpp b/strictpp/Util/random.hpp
index d66c889..539b09a 100644
--- a/strictpp/Util/random.hpp
+++ b/strictpp/Util/random.hpp
@@ -193,22 +193,22 @@ private:
 };
 
 
-// Generates quadruple precision numbers that are double precision numbers.
+// Generates quadruple precision numbers from double precision numbers in [0, 1).
 #ifdef STRICT_QUAD_PRECISION
 template <Quadruple T>
 struct Generator<T> {
-   Generator(Strict<T> l, Strict<T> h)
-      : gen{std::random_device{}()},
-        dst{l.sd().val(), h.sd().val()} {
+   Generator(Strict<T> l, Strict<T> h) : gen{std::random_device{}()}, low{l}, high{h} {
    }
 
    auto random() const {
-      return Strict{dst(gen)}.sq();
+      return map_to_interval(Strict{dst(gen)}.sq(), low, high);
    }
 
 private:
    mutable std::mt19937 gen;
    mutable std::uniform_real_distribution<double> dst;
+   Strict<T> low;
+   Strict<T> high;
 };
 #endif
 
-- 
2.43.0


From 043c37d4f71da72f3016889c48e1bbab996fb94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:23 +0000
Subject: [PATCH 21/36] fix: semi-random integers for intervals whose width
 overflows

---
 strictpp/Util/semi_random.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index 3fb8bdc..2bd8004 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -9,6 +9,8 @@
 #include "../StrictCommon/strict_common.hpp"
 #include "random_traits.hpp"
 
+#include <type_traits>
+
 
 namespace spp {
 
@@ -170,7 +172,12 @@ public:
          if(low_ == Zero<T> && high_ == One<T>) {
             return rand_num > this->generate() ? Zero<T> : One<T>;
          } else {
-            return low_ + strict_cast<T>(rand_num) % (high_ - low_ + One<T>);
+            // Width of the interval may be too large to be represented by T.
+            using U = std::make_unsigned_t<T>;
+            const U low = static_cast<U>(low_.val());
+            const U width = static_cast<U>(static_cast<U>(high_.val()) - low);
+            const U num = rand_num.val();
+            return Strict{static_cast<T>(low + (num <= width ? num : num % (width + U{1})))};
          }
       } else {
          return rand_num > this->generate() ? false_sb : true_sb;
-- 
2.43.0


From 120d8f0e498db36b7f4aedd9d7d823f1b53bcba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:05 +0000
Subject: [PATCH 22/36] fix: reject dimensions whose product overflows

---
 strictpp/ArrayCommon/valid.hpp | 19 +++++++++++++++++++
 strictpp/array_base2D.hpp      |  3 ++-
 strictpp/attach2D.hpp          |  4 ++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/strictpp/ArrayCommon/valid.hpp b/strictpp/ArrayCommon/valid.hpp
index 10b6e54..028e2a5 100644
--- a/strictpp/ArrayCommon/valid.hpp
+++ b/strictpp/ArrayCommon/valid.hpp
@@ -14,6 +14,7 @@
 #include "use.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -46,6 +47,24 @@ STRICT_CONSTEXPR StrictBool semi_valid_row_col_sizes(index_t m, index_t n) {
 }
 
 
+// Number of elements must be representable by index_t.
+STRICT_CONSTEXPR StrictBool valid_row_col_product(index_t m, index_t n) {
+   if(m <= 0_sl || n <= 0_sl) {
+      return true_sb;
+   }
+   return m <= index_t{std::numeric_limits<long int>::max()} / n;
+}
+
+
+// Checks the dimensions before their product is used.
+STRICT_CONSTEXPR index_t row_col_product([[maybe_unused]] index_t m, [[maybe_unused]] index_t n) {
+   ASSERT_STRICT_DEBUG(m >= 0_sl);
+   ASSERT_STRICT_DEBUG(n >= 0_sl);
+   ASSERT_STRICT_DEBUG(valid_row_col_product(m, n));
+   return m * n;
+}
+
+
 template <Builtin T>
 STRICT_CONSTEXPR StrictBool valid_list2D(use::List2D<Strict<T>> list) {
    if(list.size() != 0) {
diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index dc976be..bff35be 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -152,7 +152,7 @@ private:
 template <Builtin T, AlignmentFlag AF>
 STRICT_NODISCARD_CONSTEXPR ArrayBase2D<T, AF>::ArrayBase2D(ImplicitInt m, ImplicitInt n)
    : dims_{m.get(), n.get()},
-     data1D_(m.get() * n.get()) {
+     data1D_(row_col_product(m.get(), n.get())) {
    ASSERT_STRICT_DEBUG(m.get() >= 0_sl);
    ASSERT_STRICT_DEBUG(n.get() >= 0_sl);
    ASSERT_STRICT_DEBUG(semi_valid_row_col_sizes(m.get(), n.get()));
@@ -255,6 +255,7 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::resize(ImplicitInt m, ImplicitInt n,
    ASSERT_STRICT_DEBUG(m.get() >= 0_sl);
    ASSERT_STRICT_DEBUG(n.get() >= 0_sl);
    ASSERT_STRICT_DEBUG(semi_valid_row_col_sizes(m.get(), n.get()));
+   ASSERT_STRICT_DEBUG(valid_row_col_product(m.get(), n.get()));
 
    const auto d0_new = m.get();
    const auto d1_new = n.get();
diff --git a/strictpp/attach2D.hpp b/strictpp/attach2D.hpp
index 9ffffa6..13657cd 100644
--- a/strictpp/attach2D.hpp
+++ b/strictpp/attach2D.hpp
@@ -238,6 +238,7 @@ STRICT_NODISCARD_CONSTEXPR auto const_convert2D(const Base& A, ImplicitInt m, Im
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) & {
+   ASSERT_STRICT_ALWAYS(detail::valid_row_col_product(nrows.get(), ncols.get()));
    ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
    if constexpr(detail::NonConstBaseType<StrictArrayBase1D>) {
       return detail::convert2D(*this, nrows, ncols);
@@ -249,6 +250,7 @@ STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, Implici
 
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) const& {
+   ASSERT_STRICT_ALWAYS(detail::valid_row_col_product(nrows.get(), ncols.get()));
    ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
    return detail::const_convert2D(*this, nrows, ncols);
 }
@@ -265,6 +267,7 @@ STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, Implici
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) & {
+   ASSERT_STRICT_ALWAYS(detail::valid_row_col_product(nrows.get(), ncols.get()));
    ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
    if constexpr(detail::NonConstBaseType<StrictArrayBase2D>) {
       return detail::convert2D(*this, nrows, ncols);
@@ -276,6 +279,7 @@ STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, Implici
 
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) const& {
+   ASSERT_STRICT_ALWAYS(detail::valid_row_col_product(nrows.get(), ncols.get()));
    ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
    return detail::const_convert2D(*this, nrows, ncols);
 }
-- 
2.43.0


From 3157d642351049212f11f4091f5edbcbdbc2eeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:45 +0000
Subject: [PATCH 23/36] fix: reject slices whose last position overflows

---
 strictpp/slice.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/strictpp/slice.hpp b/strictpp/slice.hpp
index 9269851..3fc48db 100644
--- a/strictpp/slice.hpp
+++ b/strictpp/slice.hpp
@@ -45,8 +45,7 @@ public:
    template <BaseType BaseT>
    STRICT_CONSTEXPR StrictBool valid(const BaseT& A) const {
       if(size_ != 0_sl) {
-         return detail::valid_index(A, start_)
-             && detail::valid_index(A, start_ + stride_ * (size_ - 1_sl));
+         return detail::valid_index(A, start_) && this->valid_end(A.size());
       }
       return true_sb;
    }
@@ -54,8 +53,7 @@ public:
    template <TwoDimBaseType TwoDimBaseT>
    STRICT_CONSTEXPR StrictBool valid_first(const TwoDimBaseT& A) const {
       if(size_ != 0_sl) {
-         return detail::valid_row(A, start_)
-             && detail::valid_row(A, start_ + stride_ * (size_ - 1_sl));
+         return detail::valid_row(A, start_) && this->valid_end(A.rows());
       }
       return true_sb;
    }
@@ -63,8 +61,7 @@ public:
    template <TwoDimBaseType TwoDimBaseT>
    STRICT_CONSTEXPR StrictBool valid_second(const TwoDimBaseT& A) const {
       if(size_ != 0_sl) {
-         return detail::valid_col(A, start_)
-             && detail::valid_col(A, start_ + stride_ * (size_ - 1_sl));
+         return detail::valid_col(A, start_) && this->valid_end(A.cols());
       }
       return true_sb;
    }
@@ -73,6 +70,18 @@ private:
    index_t start_;
    index_t size_;
    index_t stride_;
+
+   // Start is valid and size is not zero. Position of the last element is not computed since it
+   // may be too large to be represented.
+   STRICT_CONSTEXPR StrictBool valid_end(index_t n) const {
+      if(stride_ > 0_sl) {
+         return size_ - 1_sl <= (n - 1_sl - start_) / stride_;
+      }
+      if(stride_ < 0_sl) {
+         return -(size_ - 1_sl) >= start_ / stride_;
+      }
+      return true_sb;
+   }
 };
 
 
-- 
2.43.0


From 7803bbb50883b30203d2aa776e78f12b5d37448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 24/36] fix: slices with a large skip do not overflow

---
 strictpp/slice.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/strictpp/slice.hpp b/strictpp/slice.hpp
index 3fc48db..f3c33a7 100644
--- a/strictpp/slice.hpp
+++ b/strictpp/slice.hpp
@@ -392,18 +392,23 @@ public:
    }
 
    STRICT_CONSTEXPR_INLINE auto get(OneDimBaseType auto const& A) const {
-      return seqN{0, (A.size() + x_.stride() - 1_sl) / x_.stride(), x_.stride()};
+      return seqN{0, size_of(A.size()), x_.stride()};
    }
 
    STRICT_CONSTEXPR_INLINE auto get_row(TwoDimBaseType auto const& A) const {
-      return seqN{0, (A.rows() + x_.stride() - 1_sl) / x_.stride(), x_.stride()};
+      return seqN{0, size_of(A.rows()), x_.stride()};
    }
 
    STRICT_CONSTEXPR_INLINE auto get_col(TwoDimBaseType auto const& A) const {
-      return seqN{0, (A.cols() + x_.stride() - 1_sl) / x_.stride(), x_.stride()};
+      return seqN{0, size_of(A.cols()), x_.stride()};
    }
 
 private:
+   // Avoids adding a large stride to n.
+   STRICT_CONSTEXPR_INLINE index_t size_of(index_t n) const {
+      return n == 0_sl ? 0_sl : (n - 1_sl) / x_.stride() + 1_sl;
+   }
+
    place::skipN x_;
 };
 
-- 
2.43.0


From eb21b005f2550e01399cae0dcd539d65c51bd0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:03 +0000
Subject: [PATCH 25/36] fix: reject removal and exclusion counts that overflow
 the position

---
 strictpp/Expr/special.hpp | 2 +-
 strictpp/array_base1D.hpp | 2 +-
 strictpp/array_base2D.hpp | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index f7be2d6..be7cb16 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -395,7 +395,7 @@ template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto exclude(const Base& A, ImplicitInt pos, ImplicitInt count) {
    ASSERT_STRICT_DEBUG(count.get() > 0_sl);
    ASSERT_STRICT_DEBUG(detail::valid_index(A, pos.get()));
-   ASSERT_STRICT_DEBUG(detail::valid_index(A, pos.get() + count.get() - 1_sl));
+   ASSERT_STRICT_DEBUG(count.get() <= A.size() - pos.get());
    auto AE = generate(A, [](auto x) { return x; });
    return generate(irange(A.size() - count.get()), [pos, count, AE](auto j) {
       return j < pos.get() ? AE.un(j) : AE.un(j + count.get());
diff --git a/strictpp/array_base1D.hpp b/strictpp/array_base1D.hpp
index 1e44c11..57caceb 100644
--- a/strictpp/array_base1D.hpp
+++ b/strictpp/array_base1D.hpp
@@ -322,7 +322,7 @@ template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase1D<T, AF>::remove(ImplicitInt pos, ImplicitInt count) {
    ASSERT_STRICT_DEBUG(count.get() > 0_sl);
    ASSERT_STRICT_DEBUG(valid_index(*this, pos.get()));
-   ASSERT_STRICT_DEBUG(valid_index(*this, pos.get() + count.get() - 1_sl));
+   ASSERT_STRICT_DEBUG(count.get() <= this->size() - pos.get());
 
    ArrayBase1D tmp(this->size() - count.get());
    copyn(*this, tmp, pos.get());
diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index bff35be..f889c36 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -307,7 +307,7 @@ template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_rows(ImplicitInt row_pos, ImplicitInt count) {
    ASSERT_STRICT_DEBUG(count.get() > 0_sl);
    ASSERT_STRICT_DEBUG(valid_row(*this, row_pos.get()));
-   ASSERT_STRICT_DEBUG(valid_row(*this, row_pos.get() + count.get() - 1_sl));
+   ASSERT_STRICT_DEBUG(count.get() <= this->rows() - row_pos.get());
 
    index_t new_rows = this->rows() - count.get();
    ArrayBase2D tmp(new_rows, new_rows == 0_sl ? 0_sl : this->cols());
@@ -332,7 +332,7 @@ template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_cols(ImplicitInt col_pos, ImplicitInt count) {
    ASSERT_STRICT_DEBUG(count.get() > 0_sl);
    ASSERT_STRICT_DEBUG(valid_col(*this, col_pos.get()));
-   ASSERT_STRICT_DEBUG(valid_col(*this, col_pos.get() + count.get() - 1_sl));
+   ASSERT_STRICT_DEBUG(count.get() <= this->cols() - col_pos.get());
 
    index_t new_cols = this->cols() - count.get();
    ArrayBase2D tmp(new_cols == 0_sl ? 0_sl : this->rows(), new_cols);
-- 
2.43.0


From 22a331809b4a1af12dc0f832dc33f87f74d8bf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:48 +0000
Subject: [PATCH 26/36] fix: reject the lowest diagonal index

---
 strictpp/derived2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/derived2D.hpp b/strictpp/derived2D.hpp
index b813d9b..c3a13f2 100644
--- a/strictpp/derived2D.hpp
+++ b/strictpp/derived2D.hpp
@@ -636,7 +636,7 @@ private:
          ASSERT_STRICT_DEBUG(i.get() < Base::cols());
          return seqN{i, mins(Base::rows(), Base::cols() - i.get()), Base::cols() + 1_sl};
       } else {
-         ASSERT_STRICT_DEBUG(abss(i.get()) < Base::rows());
+         ASSERT_STRICT_DEBUG(i.get() > -Base::rows());
          return seqN{abss(i.get()) * Base::cols(),
                      mins(Base::rows() - abss(i.get()), Base::cols()),
                      Base::cols() + 1_sl};
-- 
2.43.0


From 56d929c51544547b4ff26744d75debc54cbaacc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:31 +0000
Subject: [PATCH 27/36] fix: linspace of one element is not NaN

---
 strictpp/Expr/special.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index be7cb16..ef3e7ae 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -433,8 +433,9 @@ template <Floating T>
 STRICT_CONSTEXPR auto linspace(ImplicitInt size, Strict<T> start, Strict<T> end) {
    ASSERT_STRICT_DEBUG(size.get() > 0_sl);
    auto sz = size.get();
+   // Single element is equal to start, increment must be finite.
    return StrictArrayBase1D<detail::SequenceExpr1D<T>>{
-      start, sz, (end - start) / strict_cast<T>(sz - 1_sl)};
+      start, sz, sz == 1_sl ? Zero<T> : (end - start) / strict_cast<T>(sz - 1_sl)};
 }
 
 
-- 
2.43.0


From b7aed85a0ffb9b6860e6fddb43c2fcef41cf3771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:39 +0000
Subject: [PATCH 28/36] fix: matvec_prod keeps the slice or expression it
 multiplies by

The product held a reference to its vector operand (and to a local lambda),
so keeping the product of a temporary slice and evaluating it later read a
dead object. Slices and expressions are now stored by copy and arrays by
reference, as everywhere else.
---
 strictpp/Expr/binary.hpp | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index d435432..2b72604 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -13,6 +13,7 @@
 #include "special.hpp"
 #include "types.hpp"
 
+#include <type_traits>
 #include <utility>
 
 
@@ -712,19 +713,34 @@ STRICT_CONSTEXPR auto operator^(const Base& A, ValueTypeOf<Base> x) {
 }
 
 
+namespace detail {
+
+
+// Re-implement the dot product function here so that the array_ops header does not need
+// to be included. It is also implemented slightly differently.
+template <OneDimRealBaseType Base1, OneDimRealBaseType Base2>
+STRICT_CONSTEXPR auto row_dot(const Base1& x1, const Base2& x2) {
+   ValueTypeOf<Base1> s{};
+   for(index_t i = 0_sl; i < x1.size(); ++i) {
+      s += x1[i] * x2[i];
+   }
+   return s;
+}
+
+
+} // namespace detail
+
+
 template <TwoDimRealBaseType Base1, OneDimRealBaseType Base2>
 STRICT_CONSTEXPR auto matvec_prod(const Base1& A, const Base2& x) {
    ASSERT_STRICT_DEBUG(A.cols() == x.size());
-   // Re-implement the dot product function here so that the array_ops header does not need
-   // to be included. It is also implemented slightly differently.
-   auto dot = [](const auto& x1, const auto& x2) {
-      ValueTypeOf<Base1> s{};
-      for(index_t i = 0_sl; i < x1.size(); ++i) {
-         s += x1[i] * x2[i];
-      }
-      return s;
-   };
-   return row_reduce(A, [&x, &dot](auto row) { return dot(row, x); });
+   // Slice arrays and expressions are stored by copy, arrays by reference.
+   // Random expressions are not copyable.
+   if constexpr(!detail::ReferenceStorable<Base2> && std::is_copy_constructible_v<Base2>) {
+      return row_reduce(A, [x](const auto& row) { return detail::row_dot(row, x); });
+   } else {
+      return row_reduce(A, [&x](const auto& row) { return detail::row_dot(row, x); });
+   }
 }
 
 
-- 
2.43.0


From 9bc57dacfb3fe69231e55ef05a91efd42366c438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:47 +0000
Subject: [PATCH 29/36] fix: operations on two slices of one type no longer
 resolve to algorithms of std by argument-dependent lookup

---
 strictpp/Expr/binary.hpp      | 34 +++++++++++++++++-----------------
 strictpp/Util/error_tools.hpp |  4 ++--
 strictpp/array_ops.hpp        |  2 +-
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index 2b72604..ef4f6c0 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -465,93 +465,93 @@ STRICT_CONSTEXPR auto generate(const Base1& A1, const Base2& A2, F f) {
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator+(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryPlus{});
+   return spp::generate(A1, A2, expr::BinaryPlus{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator-(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryMinus{});
+   return spp::generate(A1, A2, expr::BinaryMinus{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator*(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryMult{});
+   return spp::generate(A1, A2, expr::BinaryMult{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator/(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryDivide{});
+   return spp::generate(A1, A2, expr::BinaryDivide{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator%(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryModulo{});
+   return spp::generate(A1, A2, expr::BinaryModulo{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator<<(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryRightShift{});
+   return spp::generate(A1, A2, expr::BinaryRightShift{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator>>(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryLeftShift{});
+   return spp::generate(A1, A2, expr::BinaryLeftShift{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator&(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseAnd{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseAnd{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator|(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseOr{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseOr{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator^(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseXor{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseXor{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator&&(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanAnd{});
+   return spp::generate(A1, A2, expr::BinaryBooleanAnd{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator||(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanOr{});
+   return spp::generate(A1, A2, expr::BinaryBooleanOr{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator^(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanXor{});
+   return spp::generate(A1, A2, expr::BinaryBooleanXor{});
 }
 
 
 template <FloatingBaseType Base1, FloatingBaseType Base2>
 auto two_prod(const Base1& A1, const Base2& A2) {
-   return std::pair{generate(A1, A2, expr::BinaryTwoProdFirst{}),
-                    generate(A1, A2, expr::BinaryTwoProdSecond{})};
+   return std::pair{spp::generate(A1, A2, expr::BinaryTwoProdFirst{}),
+                    spp::generate(A1, A2, expr::BinaryTwoProdSecond{})};
 }
 
 
 template <FloatingBaseType Base1, SignedIntegerBaseType Base2>
 auto pow_prod(const Base1& A1, const Base2& A2) {
-   return std::pair{generate(A1, A2, expr::BinaryPowProdFirst{}),
-                    generate(A1, A2, expr::BinaryPowProdSecond{})};
+   return std::pair{spp::generate(A1, A2, expr::BinaryPowProdFirst{}),
+                    spp::generate(A1, A2, expr::BinaryPowProdSecond{})};
 }
 
 
diff --git a/strictpp/Util/error_tools.hpp b/strictpp/Util/error_tools.hpp
index cd884de..969e149 100644
--- a/strictpp/Util/error_tools.hpp
+++ b/strictpp/Util/error_tools.hpp
@@ -64,7 +64,7 @@ STRICT_CONSTEXPR StrictBool within_tol_abs(
    if(A1.empty()) {
       return empty_default;
    }
-   return all_of(A1, A2, [tol](const auto& x, const auto& y) { return within_tol_abs(x, y, tol); });
+   return spp::all_of(A1, A2, [tol](const auto& x, const auto& y) { return within_tol_abs(x, y, tol); });
 }
 
 
@@ -78,7 +78,7 @@ STRICT_CONSTEXPR StrictBool within_tol_rel(
    if(A1.empty()) {
       return empty_default;
    }
-   return all_of(A1, A2, [tol, near_zero](const auto& x, const auto& y) {
+   return spp::all_of(A1, A2, [tol, near_zero](const auto& x, const auto& y) {
       return within_tol_rel(x, y, tol, near_zero);
    });
 }
diff --git a/strictpp/array_ops.hpp b/strictpp/array_ops.hpp
index 536c9f2..07c60e4 100644
--- a/strictpp/array_ops.hpp
+++ b/strictpp/array_ops.hpp
@@ -667,7 +667,7 @@ STRICT_CONSTEXPR StrictBool none_of(const Base1& A1, const Base2& A2, F f,
    if(A1.empty()) {
       return empty_default;
    }
-   return !any_of(A1, A2, f);
+   return !spp::any_of(A1, A2, f);
 }
 
 
-- 
2.43.0


From e9273ffbafb44c048494d004a4f233b4393ae380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:47 +0000
Subject: [PATCH 30/36] fix: the absolute value of a floating-point zero was
 negative zero

---
 strictpp/StrictCommon/strict_math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strictpp/StrictCommon/strict_math.hpp b/strictpp/StrictCommon/strict_math.hpp
index b70c138..37859ae 100644
--- a/strictpp/StrictCommon/strict_math.hpp
+++ b/strictpp/StrictCommon/strict_math.hpp
@@ -27,7 +27,8 @@ STRICT_NODISCARD_CONSTEXPR_INLINE Strict<T> abss(Strict<T> x) {
    if constexpr(UnsignedInteger<T>) {
       return x;
    } else {
-      return x > Zero<T> ? x : -x;
+      // Subtraction from zero turns both zeros into positive zero.
+      return x > Zero<T> ? x : Zero<T> - x;
    }
 }
 
-- 
2.43.0


From 7f5ca38de0903fe95a13444c62652dd1de1dc06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:47 +0000
Subject: [PATCH 31/36] fix: quadruple-precision literals ended at the first
 digit separator

---
 strictpp/StrictCommon/strict_literals.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strictpp/StrictCommon/strict_literals.hpp b/strictpp/StrictCommon/strict_literals.hpp
index 07489bb..6ee72c1 100644
--- a/strictpp/StrictCommon/strict_literals.hpp
+++ b/strictpp/StrictCommon/strict_literals.hpp
@@ -7,6 +7,7 @@
 #include "error.hpp"
 #include "strict_val.hpp"
 
+#include <algorithm>
 #include <limits>
 
 
@@ -62,7 +63,10 @@ inline Strict<float128> operator""_sq() {
         && (str[1] == 'b' || str[1] == 'B' || (str[1] >= '0' && str[1] <= '7'))),
       "A real128 cannot be constructed from binary or octal literals\n");
 
-   float128 x = strtoflt128(str, nullptr);
+   // Digit separators are not part of the number for strtoflt128.
+   char digits[sizeof(str)]{};
+   std::remove_copy(str, str + sizeof(str), digits, '\'');
+   float128 x = strtoflt128(digits, nullptr);
    return Strict{x};
 }
 #endif
-- 
2.43.0


From aaaca2b4434984aac4a0e6b435945752da4444c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:15 +0000
Subject: [PATCH 32/36] fix: the even slice of an array of the greatest size
 overflowed

The number of elements at even positions was computed as (n + 1) / 2,
which overflows for slices of the greatest representable size.
---
 strictpp/slice.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strictpp/slice.hpp b/strictpp/slice.hpp
index f3c33a7..8d21a72 100644
--- a/strictpp/slice.hpp
+++ b/strictpp/slice.hpp
@@ -332,15 +332,15 @@ public:
    }
 
    STRICT_CONSTEXPR_INLINE static auto get(OneDimBaseType auto const& A) {
-      return seqN{0, (A.size() + 1_sl) / 2_sl, 2};
+      return seqN{0, A.size() - A.size() / 2_sl, 2};
    }
 
    STRICT_CONSTEXPR_INLINE static auto get_row(TwoDimBaseType auto const& A) {
-      return seqN{0, (A.rows() + 1_sl) / 2_sl, 2};
+      return seqN{0, A.rows() - A.rows() / 2_sl, 2};
    }
 
    STRICT_CONSTEXPR_INLINE static auto get_col(TwoDimBaseType auto const& A) {
-      return seqN{0, (A.cols() + 1_sl) / 2_sl, 2};
+      return seqN{0, A.cols() - A.cols() / 2_sl, 2};
    }
 };
 
-- 
2.43.0


From 4cf06bd0d1c4ef5fe86ebe9cbc4f483a5056c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:08 +0000
Subject: [PATCH 33/36] fix: a blank line after the first row made a file of an
 Array2D unreadable

---
 strictpp/array_IO.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 713e4bf..abb3a56 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -184,7 +184,7 @@ std::istream& istream_base_read(std::istream& is, Array2D<T, AF>& A) {
 
       tmp.resize(2, ncols);
       while(std::getline(is, line)) {
-         if(line.empty()) {
+         if((std::istringstream{line} >> std::ws).eof()) {
             continue;
          }
          get_row<T>(line, row_count, tmp);
-- 
2.43.0


From cec75f9b7c5ef82808de94b11dbc4893430ae4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:08 +0000
Subject: [PATCH 34/36] fix: tensor_prod of a temporary array and a named one
 compiled and dangled

---
 strictpp/Expr/binary.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index ef4f6c0..a022137 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -427,8 +427,9 @@ template <OneDimRealBaseType Base1, OneDimRealBaseType Base2>
 STRICT_CONSTEXPR auto tensor_prod(const Base1& A1, const Base2& A2);
 
 
-template <OneDimRealBaseType Base1, OneDimRealBaseType Base2>
-   requires(detail::RealExprDeleted<Base1, Base2>)
+template <typename Base1, typename Base2>
+   requires OneDimRealBaseType<RemoveRef<Base1>> && OneDimRealBaseType<RemoveRef<Base2>>
+            && (detail::ArrayRealTypeRvalue<Base1> || detail::ArrayRealTypeRvalue<Base2>)
 STRICT_CONSTEXPR auto tensor_prod(Base1&& A1, Base2&& A2) = delete;
 
 
-- 
2.43.0


From 7c031b83cc5c997461daeace40528fe1038b7161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:08 +0000
Subject: [PATCH 35/36] fix: pow_prod of a temporary array compiled and dangled

---
 strictpp/Expr/binary.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index a022137..e914ebf 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -166,7 +166,8 @@ auto two_prod(Base1&& A1, Base2&& A2) = delete;
 
 
 template <typename Base1, typename Base2>
-   requires(detail::FloatingExprDeleted<Base1, Base2>)
+   requires FloatingBaseType<RemoveRef<Base1>> && SignedIntegerBaseType<RemoveRef<Base2>>
+            && (detail::ArrayFloatingTypeRvalue<Base1> || detail::ArrayIntegerTypeRvalue<Base2>)
 auto pow_prod(Base1&& A1, Base2&& A2) = delete;
 
 
-- 
2.43.0


From b4c5ae2eaa24537975255addab51e7eecb120d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:08 +0000
Subject: [PATCH 36/36] fix: a list slice of a temporary array compiled and
 dangled

---
 strictpp/derived1D.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strictpp/derived1D.hpp b/strictpp/derived1D.hpp
index 6544494..01fcbba 100644
--- a/strictpp/derived1D.hpp
+++ b/strictpp/derived1D.hpp
@@ -230,7 +230,9 @@ public:
       return operator()(std::move(slice));
    }
 
-   STRICT_CONSTEXPR auto operator()(use::IndexList list) && {
+   STRICT_CONSTEXPR auto operator()(use::IndexList list) &&
+      requires(!detail::ArrayOneDimType<StrictArrayBase1D>)
+   {
       return operator()(std::move(list));
    }
 
@@ -251,6 +253,10 @@ public:
       requires detail::ArrayOneDimType<StrictArrayBase1D>
    = delete;
 
+   STRICT_CONSTEXPR auto operator()(use::IndexList list) const&&
+      requires detail::ArrayOneDimType<StrictArrayBase1D>
+   = delete;
+
    STRICT_CONSTEXPR auto view1D() const&&
       requires detail::ArrayOneDimType<StrictArrayBase1D>
    = delete;
-- 
2.43.0

