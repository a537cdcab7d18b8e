From 7d5d0c46ef1b7b0d9bb9fc7ddbc3166592d9d8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:16 +0000
Subject: [PATCH 01/36] fix: int_ext_gcd divided by zero when the second
 argument is zero

---
 spffl/intmath/int_gcd.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index 56017f8..4105798 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -51,6 +51,12 @@ int int_ext_gcd(int a, int b, int &m, int &n) {
   c      = a;
   d      = b;
 
+  if (b == 0) {
+    m = 1;
+    n = 0;
+    return a;
+  }
+
   while (1) {
 
     // Divide
-- 
2.43.0


From 799add096e4d886787b20bef0a02bd6faa327a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:16 +0000
Subject: [PATCH 02/36] fix: int_lcm divided by zero on zero inputs and
 overflowed on representable results

---
 spffl/intmath/int_gcd.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index 4105798..47f7ec6 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -87,7 +87,13 @@ int int_ext_gcd(int a, int b, int &m, int &n) {
 }
 
 // ----------------------------------------------------------------
-int int_lcm(int a, int b) { return (a * b) / int_gcd(a, b); }
+int int_lcm(int a, int b) {
+  if (a == 0 || b == 0) {
+    return 0;
+  }
+  // Divide first, lest the product overflow when the lcm itself fits.
+  return (a / int_gcd(a, b)) * b;
+}
 
 // ----------------------------------------------------------------
 int gcd(const int a, const int b) { return int_gcd(a, b); }
-- 
2.43.0


From 81b0a3ea71239507c1205e6c3e9cbffad7dddf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:16 +0000
Subject: [PATCH 03/36] fix: int_power overflowed computing a square it does
 not use

---
 spffl/intmath/int_power.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spffl/intmath/int_power.cpp b/spffl/intmath/int_power.cpp
index a2fa5a2..a2143ca 100644
--- a/spffl/intmath/int_power.cpp
+++ b/spffl/intmath/int_power.cpp
@@ -16,8 +16,10 @@ int int_power(int b, int e) {
     if (e & 1) {
       rv = rv * b2;
     }
-    e  = (unsigned)e >> 1;
-    b2 = b2 * b2;
+    e = (unsigned)e >> 1;
+    if (e != 0) { // The square past the last bit is unused and may overflow.
+      b2 = b2 * b2;
+    }
   }
   return rv;
 }
-- 
2.43.0


From 3a6eda7a0c48db95f69d0aac9d7c423f119bdf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:16 +0000
Subject: [PATCH 04/36] fix: intrat_t::exp overflowed (and threw divide by
 zero) computing a square it does not use

---
 spffl/intmath/intrat_t.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spffl/intmath/intrat_t.cpp b/spffl/intmath/intrat_t.cpp
index 14bd838..eb3526d 100644
--- a/spffl/intmath/intrat_t.cpp
+++ b/spffl/intmath/intrat_t.cpp
@@ -11,6 +11,7 @@
 #include "spffl/intmath/int_totient.h"
 #include <iomanip>
 #include <iostream>
+#include <limits.h>
 #include <stdlib.h>
 
 namespace spffl::intmath {
@@ -141,7 +142,7 @@ intrat_t intrat_t::exp(int e) {
       ss << "intrat_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e < -INT_MAX) {
       std::stringstream ss;
       ss << "intrat_t::exp:  can't handle "
             "MIN_INT.\n";
@@ -156,7 +157,9 @@ intrat_t intrat_t::exp(int e) {
       rv *= xp;
     }
     e = (unsigned)e >> 1;
-    xp *= xp;
+    if (e != 0) { // The square past the last bit is unused and may overflow.
+      xp *= xp;
+    }
   }
 
   return rv;
-- 
2.43.0


From 9872afae5a1d37e79d7f4907be9c77276a737902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:17 +0000
Subject: [PATCH 05/36] fix: intmod_t arithmetic overflowed int for moduli
 above 46341

---
 spffl/intmath/intmod_t.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 4ca4b6c..0fb5b3c 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -8,6 +8,7 @@
 #include "spffl/base/spffl_exception.h"
 #include <iomanip>
 #include <iostream>
+#include <limits.h>
 
 namespace spffl::intmath {
 
@@ -39,7 +40,7 @@ intmod_t intmod_t::exp(int e) const {
       ss << "intmod_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e < -INT_MAX) {
       std::stringstream ss;
       ss << "intmod_t::exp:  can't handle "
             "MIN_INT.\n";
@@ -52,10 +53,10 @@ intmod_t intmod_t::exp(int e) const {
 
   while (e != 0) {
     if (e & 1) {
-      rv.residue = (rv.residue * xp) % this->modulus;
+      rv.residue = ((long long)rv.residue * xp) % this->modulus;
     }
     e  = (unsigned)e >> 1;
-    xp = (xp * xp) % this->modulus;
+    xp = ((long long)xp * xp) % this->modulus;
   }
 
   return rv;
@@ -260,14 +261,15 @@ intmod_t &intmod_t::operator=(const intmod_t &that) {
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator+(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->residue + that.residue, this->modulus);
+  intmod_t rv(
+      ((long long)this->residue + that.residue) % this->modulus, this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator-(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->modulus + this->residue - that.residue, this->modulus);
+  intmod_t rv(this->residue - that.residue, this->modulus);
   return rv;
 }
 
@@ -281,25 +283,29 @@ intmod_t intmod_t::operator-(void) const {
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator*(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->residue * that.residue, this->modulus);
+  intmod_t rv(
+      ((long long)this->residue * that.residue) % this->modulus, this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator+(int a) const {
-  intmod_t rv(this->residue + a, this->modulus);
+  this->check_modulus();
+  intmod_t rv(((long long)this->residue + a) % this->modulus, this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator-(int a) const {
-  intmod_t rv(this->modulus + this->residue - a, this->modulus);
+  this->check_modulus();
+  intmod_t rv(((long long)this->residue - a) % this->modulus, this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator*(int a) const {
-  intmod_t rv(this->residue * a, this->modulus);
+  this->check_modulus();
+  intmod_t rv(((long long)this->residue * a) % this->modulus, this->modulus);
   return rv;
 }
 
@@ -354,7 +360,7 @@ bool intmod_t::recip(intmod_t &rinv) const {
   }
 
   intmod_t rv = this->exp(phi - 1);
-  int check   = (this->residue * rv.residue) % this->modulus;
+  int check   = ((long long)this->residue * rv.residue) % this->modulus;
   if (check != 1) {
     return false;
   } else {
-- 
2.43.0


From cae66e7b4ff938cdbccbda542baa68261db199a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:17 +0000
Subject: [PATCH 06/36] fix: reading a negative intmod_t left a non-canonical
 residue

---
 spffl/intmath/intmod_t.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 0fb5b3c..01ca1c5 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -89,6 +89,9 @@ std::istream &operator>>(std::istream &is, intmod_t &a) {
   a.check_modulus();
   is >> a.residue;
   a.residue %= a.modulus;
+  if (a.residue < 0) { // Wacky C mod operator.
+    a.residue += a.modulus;
+  }
   return is;
 }
 
-- 
2.43.0


From cb240db4cd9a69c62390496c7450913cf9393c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:10 +0000
Subject: [PATCH 07/36] fix: bit_vector_t assignment from a longer vector
 overflowed its buffer

---
 spffl/bits/bit_vector_t.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 42d568d..93a84d0 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -98,14 +98,17 @@ bit_vector_t::~bit_vector_t(void) {
 
 // ----------------------------------------------------------------
 bit_vector_t &bit_vector_t::operator=(const bit_vector_t &that) {
-  this->num_bits  = that.num_bits;
-  this->num_words = that.num_words;
+  if (this == &that) {
+    return *this;
+  }
   if (this->words == 0) {
     this->words = new uint64_t[that.num_words];
   } else if (this->num_words < that.num_words) {
     delete[] this->words;
     this->words = new uint64_t[that.num_words];
   }
+  this->num_bits  = that.num_bits;
+  this->num_words = that.num_words;
   memcpy(this->words, that.words, that.num_words * sizeof(uint64_t));
   return *this;
 }
-- 
2.43.0


From 969d0a1ef74fe8a9263e7e24ecd6682a76ec3a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:10 +0000
Subject: [PATCH 08/36] fix: bit_vector_t::trim masked the wrong bits of the
 last word

---
 spffl/bits/bit_vector_t.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 93a84d0..869e6d5 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -415,9 +415,7 @@ void bit_vector_t::trim(void) {
   if (num_dribble_bits == 0) {
     return;
   }
-  this->words[this->num_words - 1] &=
-      ((1 << (BITS_PER_WORD - num_dribble_bits)) - 1)
-      << (BITS_PER_WORD - this->num_bits);
+  this->words[this->num_words - 1] &= ~(uint64_t)0 << num_dribble_bits;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From d410a3a7b0277e333406358ce7ce198cba12d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:10 +0000
Subject: [PATCH 09/36] fix: bit_vector_t comparisons ignored the last word

---
 spffl/bits/bit_vector_t.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 869e6d5..54952e6 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -340,7 +340,7 @@ bool bit_vector_t::operator==(const bit_vector_t &that) const {
   if (this->num_bits != that.num_bits) {
     return false;
   }
-  for (int i = 0; i < this->num_words - 1; i++) {
+  for (int i = 0; i < this->num_words; i++) {
     if (this->words[i] != that.words[i]) {
       return false;
     }
@@ -355,12 +355,9 @@ bool bit_vector_t::operator!=(const bit_vector_t &that) const {
 
 // ----------------------------------------------------------------
 bool bit_vector_t::operator==(const bit_t &scalar) const {
-  uint64_t fill = 0;
-  if (scalar == bit_t(1)) {
-    fill = ~fill;
-  }
-  for (int i = 0; i < this->num_words - 1; i++) {
-    if (this->words[i] != fill) {
+  bit_t one(1);
+  for (int i = 0; i < this->num_bits; i++) {
+    if ((GET_BIT(this->words, i) == 1) != (scalar == one)) {
       return false;
     }
   }
-- 
2.43.0


From 115bb9de26c483de427760f672518ff73958191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:10 +0000
Subject: [PATCH 10/36] fix: bit_vector_t += and -= did not reject mismatched
 lengths

---
 spffl/bits/bit_vector_t.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 54952e6..996c282 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -308,12 +308,14 @@ bit_t bit_vector_t::dot(const bit_vector_t &that) {
 
 // ----------------------------------------------------------------
 bit_vector_t bit_vector_t::operator+=(const bit_vector_t &that) {
+  this->check_equal_lengths(that);
   for (int i = 0; i < this->num_words; i++) {
     this->words[i] ^= that.words[i];
   }
   return *this;
 }
 bit_vector_t bit_vector_t::operator-=(const bit_vector_t &that) {
+  this->check_equal_lengths(that);
   for (int i = 0; i < this->num_words; i++) {
     this->words[i] ^= that.words[i];
   }
-- 
2.43.0


From b88bcfef94bc63066c849ed91dd148e4215b88c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:10 +0000
Subject: [PATCH 11/36] fix: bit_t assignment from an int did not reduce modulo
 2

---
 spffl/bits/bit_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_t.h b/spffl/bits/bit_t.h
index f13f82e..f8efa0a 100644
--- a/spffl/bits/bit_t.h
+++ b/spffl/bits/bit_t.h
@@ -38,7 +38,7 @@ public:
   }
 
   bit_t &operator=(int e) {
-    this->residue = e;
+    this->residue = e & 1;
     return *this;
   }
 
-- 
2.43.0


From fd5319acd0e7d9c1a6b1ca22dde3aa523e8606b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:05 +0000
Subject: [PATCH 12/36] fix: f2_poly_t product with a zero operand left
 untrimmed parts, overflowing the next product

---
 spffl/polynomials/f2_poly_t.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index f428664..689243d 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -153,6 +153,8 @@ f2_poly_t f2_poly_t::operator*(const f2_poly_t &that) const {
     }
     ashift._promote_1();
   }
+  // A zero operand leaves high zero parts.
+  out.trim_parts();
   return out;
 }
 
-- 
2.43.0


From 4dbcc86c3a0bd2a67c63329b6662194350576c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:05 +0000
Subject: [PATCH 13/36] fix: f2_poly_t set_bit and set_coeff emptied the
 polynomial before rejecting a negative position

---
 spffl/polynomials/f2_poly_t.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index 689243d..244bc41 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -762,15 +762,16 @@ void f2_poly_t::dprint(std::ostream &os, int reqdeg) const {
 void f2_poly_t::set_bit(int pos) {
   int which_part = pos >> F2_POLY_PART_LOG;
   int which_bit  = pos & F2_POLY_PART_MASK;
+  this->check_neg_pos(pos);
   if (which_part >= this->parts.size()) {
     this->extend_parts(which_part + 1);
   }
-  this->check_neg_pos(pos);
   this->parts[which_part] |= (F2_POLY_LSB << which_bit);
 }
 void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
   int which_part = pos >> F2_POLY_PART_LOG;
   int which_bit  = pos & F2_POLY_PART_MASK;
+  this->check_neg_pos(pos);
   if (which_part >= this->parts.size()) {
     if (b.get_residue()) {
       this->extend_parts(which_part + 1);
@@ -778,7 +779,6 @@ void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
       return;
     }
   }
-  this->check_neg_pos(pos);
   if (b.get_residue()) {
     this->parts[which_part] |= (1 << which_bit);
   } else {
-- 
2.43.0


From e0798286ceffec34f2ebd1f8d471f5708d66c27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:05 +0000
Subject: [PATCH 14/36] fix: f2_poly_t set_coeff shifted an int, corrupting
 coefficients from position 31 up

---
 spffl/polynomials/f2_poly_t.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index 244bc41..d6f6a19 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -780,9 +780,9 @@ void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
     }
   }
   if (b.get_residue()) {
-    this->parts[which_part] |= (1 << which_bit);
+    this->parts[which_part] |= (F2_POLY_LSB << which_bit);
   } else {
-    this->parts[which_part] &= ~(1 << which_bit);
+    this->parts[which_part] &= ~(F2_POLY_LSB << which_bit);
     this->trim_parts();
   }
 }
-- 
2.43.0


From f0867273dcb8082c3c597ab24ba4df2d9de41532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:05 +0000
Subject: [PATCH 15/36] fix: polymod and polyrat exp tested for the most
 negative exponent with overflowing arithmetic

---
 spffl/polynomials/f2_polymod_t.cpp  | 3 ++-
 spffl/polynomials/f2n_polymod_t.cpp | 3 ++-
 spffl/polynomials/fp_polymod_t.cpp  | 3 ++-
 spffl/polynomials/fpn_polymod_t.cpp | 3 ++-
 spffl/rationals/f2_polyrat_t.cpp    | 3 ++-
 spffl/rationals/f2n_polyrat_t.cpp   | 3 ++-
 spffl/rationals/fp_polyrat_t.cpp    | 3 ++-
 7 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/spffl/polynomials/f2_polymod_t.cpp b/spffl/polynomials/f2_polymod_t.cpp
index befefb0..dc5d91f 100644
--- a/spffl/polynomials/f2_polymod_t.cpp
+++ b/spffl/polynomials/f2_polymod_t.cpp
@@ -6,6 +6,7 @@
 
 #include "spffl/polynomials/f2_polymod_t.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits.h>
 #include <iomanip>
 #include <iostream>
 
@@ -151,7 +152,7 @@ f2_polymod_t f2_polymod_t::exp(int e) const {
       ss << "f2_polymod_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e < -INT_MAX) {
       std::stringstream ss;
       ss << "f2_polymod_t::exp:  can't handle "
             "MIN_INT.\n";
diff --git a/spffl/polynomials/f2n_polymod_t.cpp b/spffl/polynomials/f2n_polymod_t.cpp
index 9ae3b5f..6d474fb 100644
--- a/spffl/polynomials/f2n_polymod_t.cpp
+++ b/spffl/polynomials/f2n_polymod_t.cpp
@@ -6,6 +6,7 @@
 
 #include "spffl/polynomials/f2n_polymod_t.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits.h>
 #include <iomanip>
 #include <iostream>
 
@@ -177,7 +178,7 @@ f2n_polymod_t f2n_polymod_t::exp(int e) const {
       ss << "f2n_polymod_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e < -INT_MAX) {
       std::stringstream ss;
       ss << "f2n_polymod_t::exp:  can't handle "
             "MIN_INT.\n";
diff --git a/spffl/polynomials/fp_polymod_t.cpp b/spffl/polynomials/fp_polymod_t.cpp
index eb90b3f..27da7ca 100644
--- a/spffl/polynomials/fp_polymod_t.cpp
+++ b/spffl/polynomials/fp_polymod_t.cpp
@@ -6,6 +6,7 @@
 
 #include "spffl/polynomials/fp_polymod_t.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits.h>
 #include <iomanip>
 #include <iostream>
 
@@ -187,7 +188,7 @@ fp_polymod_t fp_polymod_t::exp(int e) const {
       ss << "fp_polymod_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e < -INT_MAX) {
       std::stringstream ss;
       ss << "fp_polymod_t::exp:  can't handle "
             "MIN_INT.\n";
diff --git a/spffl/polynomials/fpn_polymod_t.cpp b/spffl/polynomials/fpn_polymod_t.cpp
index cac4515..7a3de91 100644
--- a/spffl/polynomials/fpn_polymod_t.cpp
+++ b/spffl/polynomials/fpn_polymod_t.cpp
@@ -6,6 +6,7 @@
 
 #include "spffl/polynomials/fpn_polymod_t.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits.h>
 #include <iomanip>
 #include <iostream>
 
@@ -177,7 +178,7 @@ fpn_polymod_t fpn_polymod_t::exp(int e) const {
       ss << "fpn_polymod_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e < -INT_MAX) {
       std::stringstream ss;
       ss << "fpn_polymod_t::exp:  can't handle "
             "MIN_INT.\n";
diff --git a/spffl/rationals/f2_polyrat_t.cpp b/spffl/rationals/f2_polyrat_t.cpp
index e3c2da0..0cc2f54 100644
--- a/spffl/rationals/f2_polyrat_t.cpp
+++ b/spffl/rationals/f2_polyrat_t.cpp
@@ -7,6 +7,7 @@
 #include "spffl/rationals/f2_polyrat_t.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits.h>
 #include <iomanip>
 #include <iostream>
 
@@ -156,7 +157,7 @@ f2_polyrat_t f2_polyrat_t::exp(int e) const {
       ss << "f2_polyrat_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e < -INT_MAX) {
       std::stringstream ss;
       ss << "f2_polyrat_t::exp:  can't handle "
             "MIN_F2POLY.\n";
diff --git a/spffl/rationals/f2n_polyrat_t.cpp b/spffl/rationals/f2n_polyrat_t.cpp
index c81e816..910bfa0 100644
--- a/spffl/rationals/f2n_polyrat_t.cpp
+++ b/spffl/rationals/f2n_polyrat_t.cpp
@@ -7,6 +7,7 @@
 #include "spffl/rationals/f2n_polyrat_t.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits.h>
 #include <iomanip>
 #include <iostream>
 
@@ -152,7 +153,7 @@ f2n_polyrat_t f2n_polyrat_t::exp(int e) const {
       ss << "f2n_polyrat_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e < -INT_MAX) {
       std::stringstream ss;
       ss << "f2n_polyrat_t::exp:  can't handle "
             "MIN_F2NPOLY.\n";
diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index 7878e52..1b5d968 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -7,6 +7,7 @@
 #include "spffl/rationals/fp_polyrat_t.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits.h>
 #include <iomanip>
 #include <iostream>
 
@@ -152,7 +153,7 @@ fp_polyrat_t fp_polyrat_t::exp(int e) const {
       ss << "fp_polyrat_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e < -INT_MAX) {
       std::stringstream ss;
       ss << "fp_polyrat_t::exp:  can't handle "
             "MIN_FPPOLY.\n";
-- 
2.43.0


From 0ec7e26a1d388adee404584d29030204f50b3871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:12 +0000
Subject: [PATCH 16/36] fix: polynomial negation must set the degree of its
 result

The result kept the default degree 0, so coefficients above the constant one
were written outside the array and then lost.
---
 spffl/polynomials/f2n_poly_t.cpp | 1 +
 spffl/polynomials/fp_poly_t.cpp  | 1 +
 spffl/polynomials/fpn_poly_t.cpp | 1 +
 spffl/polynomials/q_poly_t.cpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index f4bf107..a5fc15a 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -222,6 +222,7 @@ f2n_poly_t f2n_poly_t::operator-(const f2_polymod_t &a) const {
 // ----------------------------------------------------------------
 f2n_poly_t f2n_poly_t::operator-(void) const {
   f2n_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new f2_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 2225c4e..3fe3bef 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -196,6 +196,7 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
 // ----------------------------------------------------------------
 fp_poly_t fp_poly_t::operator-(void) const {
   fp_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 968c3db..a290d0f 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -166,6 +166,7 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
 // ----------------------------------------------------------------
 fpn_poly_t fpn_poly_t::operator-(void) const {
   fpn_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new fp_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index c39c7b8..9b2cd5f 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -165,6 +165,7 @@ q_poly_t q_poly_t::operator-(const spffl::intmath::intrat_t &a) const {
 // ----------------------------------------------------------------
 q_poly_t q_poly_t::operator-(void) const {
   q_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
-- 
2.43.0


From 4964923e68040220385201e2a6994d25e435864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:12 +0000
Subject: [PATCH 17/36] fix: polynomial self-assignment used freed coefficients

---
 spffl/polynomials/f2n_poly_t.cpp | 3 +++
 spffl/polynomials/fp_poly_t.cpp  | 3 +++
 spffl/polynomials/fpn_poly_t.cpp | 3 +++
 spffl/polynomials/q_poly_t.cpp   | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index a5fc15a..17af115 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -136,6 +136,9 @@ int f2n_poly_t::get_characteristic(void) const { return 2; }
 
 // ----------------------------------------------------------------
 f2n_poly_t &f2n_poly_t::operator=(const f2n_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 3fe3bef..24d17fb 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -126,6 +126,9 @@ int fp_poly_t::get_characteristic(void) const {
 
 // ----------------------------------------------------------------
 fp_poly_t &fp_poly_t::operator=(const fp_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index a290d0f..5635cb4 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -96,6 +96,9 @@ int fpn_poly_t::get_characteristic(void) const {
 
 // ----------------------------------------------------------------
 fpn_poly_t &fpn_poly_t::operator=(const fpn_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 9b2cd5f..4c914c3 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -79,6 +79,9 @@ q_poly_t::~q_poly_t(void) {
 
 // ----------------------------------------------------------------
 q_poly_t &q_poly_t::operator=(const q_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
-- 
2.43.0


From e399fb3b8fdfa1ca40f99665fddf72ea915996dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:12 +0000
Subject: [PATCH 18/36] fix: polynomial extended gcd with a zero second
 argument divided by zero

---
 spffl/polynomials/f2n_poly_t.cpp | 6 ++++++
 spffl/polynomials/fp_poly_t.cpp  | 6 ++++++
 spffl/polynomials/fpn_poly_t.cpp | 6 ++++++
 spffl/polynomials/q_poly_t.cpp   | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 17af115..68c9650 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -466,6 +466,12 @@ f2n_poly_t f2n_poly_t::ext_gcd(
   c      = *this;
   d      = that;
 
+  if (that == 0) {
+    rm = mprime;
+    rn = nprime;
+    return *this;
+  }
+
   while (1) {
     c.quot_and_rem(d, q, r);
     if (r == 0) {
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 24d17fb..6ee42cc 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -456,6 +456,12 @@ fp_poly_t fp_poly_t::ext_gcd(
   c      = *this;
   d      = that;
 
+  if (that == 0) {
+    rm = mprime;
+    rn = nprime;
+    return *this;
+  }
+
   while (1) {
     c.quot_and_rem(d, q, r);
     if (r == 0) {
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 5635cb4..760125d 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -436,6 +436,12 @@ fpn_poly_t fpn_poly_t::ext_gcd(
   c      = *this;
   d      = that;
 
+  if (that == 0) {
+    rm = mprime;
+    rn = nprime;
+    return *this;
+  }
+
   while (1) {
     c.quot_and_rem(d, q, r);
     if (r == 0) {
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 4c914c3..a5560b7 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -402,6 +402,12 @@ q_poly_t q_poly_t::ext_gcd(
   c      = *this;
   d      = that;
 
+  if (that == 0) {
+    rm = mprime;
+    rn = nprime;
+    return *this;
+  }
+
   while (1) {
     c.quot_and_rem(d, q, r);
     if (r == 0) {
-- 
2.43.0


From 87a7874ea2a0e53c4c09d350c857132cb6a72ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:12 +0000
Subject: [PATCH 19/36] fix: promoting the zero polynomial left a zero leading
 coefficient

---
 spffl/polynomials/f2n_poly_t.cpp | 1 +
 spffl/polynomials/fp_poly_t.cpp  | 1 +
 spffl/polynomials/fpn_poly_t.cpp | 1 +
 spffl/polynomials/q_poly_t.cpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 68c9650..b00bc77 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -953,6 +953,7 @@ void f2n_poly_t::promote(void) {
   this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
   this->degree++;
   delete[] ocoeffs;
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 6ee42cc..a14160d 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -911,6 +911,7 @@ void fp_poly_t::promote(void) {
   this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
   this->degree++;
   delete[] ocoeffs;
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 760125d..ec43310 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -866,6 +866,7 @@ void fpn_poly_t::promote(void) {
   this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
   this->degree++;
   delete[] ocoeffs;
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index a5560b7..c474894 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -802,6 +802,7 @@ void q_poly_t::promote(void) {
   this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
   this->degree++;
   delete[] ocoeffs;
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 4169cbccbba00db3773054bacb0226b4538f62db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:06 +0000
Subject: [PATCH 20/36] fix: fp_polymod_t times an intmod_t scaled the modulus
 instead of the residue

---
 spffl/polynomials/fp_polymod_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/polynomials/fp_polymod_t.cpp b/spffl/polynomials/fp_polymod_t.cpp
index 27da7ca..62b7a9b 100644
--- a/spffl/polynomials/fp_polymod_t.cpp
+++ b/spffl/polynomials/fp_polymod_t.cpp
@@ -110,7 +110,7 @@ fp_polymod_t fp_polymod_t::operator*(int a) const {
 // ----------------------------------------------------------------
 fp_polymod_t fp_polymod_t::operator*(spffl::intmath::intmod_t a) const {
   fp_polymod_t rv(*this);
-  rv.modulus *= a;
+  rv.residue *= a;
   return rv;
 }
 
-- 
2.43.0


From c55a6aec909826d5f2bd5f6cb735b9b951130b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:06 +0000
Subject: [PATCH 21/36] fix: fp_polymod_t times a negative integer returned the
 value unchanged

---
 spffl/polynomials/fp_polymod_t.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spffl/polynomials/fp_polymod_t.cpp b/spffl/polynomials/fp_polymod_t.cpp
index 62b7a9b..0c24293 100644
--- a/spffl/polynomials/fp_polymod_t.cpp
+++ b/spffl/polynomials/fp_polymod_t.cpp
@@ -97,6 +97,9 @@ fp_polymod_t fp_polymod_t::operator*(int a) const {
   fp_polymod_t rv(*this);
   int p = this->get_characteristic();
   a %= p;
+  if (a < 0) {
+    a += p;
+  }
   if (a == 0) {
     rv = rv - rv;
   } else {
-- 
2.43.0


From b82583c798107f3acff489abf2492290214e8e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:48 +0000
Subject: [PATCH 22/36] fix: tstack assignment: survive self-assignment and
 return *this

---
 spffl/containers/tstack.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spffl/containers/tstack.h b/spffl/containers/tstack.h
index f0a0804..350974a 100644
--- a/spffl/containers/tstack.h
+++ b/spffl/containers/tstack.h
@@ -46,6 +46,9 @@ public:
 
   // ----------------------------------------------------------------
   tstack<element_type> &operator=(const tstack<element_type> &that) {
+    if (this == &that) {
+      return *this;
+    }
     if (this->elements != 0) {
       delete[] this->elements;
     }
@@ -55,6 +58,7 @@ public:
     for (int i = 0; i < that.freeidx; i++) {
       this->elements[i] = that.elements[i];
     }
+    return *this;
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From 2a1ce1d6f61389a35a4492670bdcb1d1497336ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:48 +0000
Subject: [PATCH 23/36] fix: tvector assignment compared the new length with
 itself, so a longer vector overran the old storage

---
 spffl/containers/tvector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 7e309e3..b458bce 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -95,13 +95,13 @@ public:
 
   // ----------------------------------------------------------------
   tvector<element_type> &operator=(const tvector<element_type> &that) {
-    this->num_elements = that.num_elements;
     if (this->elements == 0) {
       this->elements = new element_type[that.num_elements];
     } else if (this->num_elements < that.num_elements) {
       delete[] this->elements;
       this->elements = new element_type[that.num_elements];
     }
+    this->num_elements = that.num_elements;
     for (int i = 0; i < that.num_elements; i++) {
       this->elements[i] = that.elements[i];
     }
-- 
2.43.0


From 8dc57808f61b94e3fd901c13cbbf4dcc19205db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:48 +0000
Subject: [PATCH 24/36] fix: tfacinfo assignment: survive self-assignment and
 return *this

---
 spffl/containers/tfacinfo.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index a766a45..43aa532 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -64,6 +64,9 @@ public:
 
   // ----------------------------------------------------------------
   tfacinfo<element_type> &operator=(const tfacinfo<element_type> &that) {
+    if (this == &that) {
+      return *this;
+    }
     if (this->pfactors_and_counts) {
       delete[] this->pfactors_and_counts;
     }
@@ -76,6 +79,7 @@ public:
     }
     this->have_unit = that.have_unit;
     this->unit      = that.unit;
+    return *this;
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From d0dbf002e766ef7b57ec084adb6a1c65e33bbf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:48 +0000
Subject: [PATCH 25/36] fix: tfacinfo::insert_factor leaked the old list when
 it grew

---
 spffl/containers/tfacinfo.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index 43aa532..e8a6c7d 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -236,6 +236,7 @@ public:
       for (int i = 0; i < this->num_distinct; i++) {
         this->pfactors_and_counts[i] = temp[i];
       }
+      delete[] temp;
     }
 
     // Insert a new factor.  The find() method has returned the correct
-- 
2.43.0


From ff4e54b4d543e44f770f868290d7c4fd2c1100a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:48 +0000
Subject: [PATCH 26/36] fix: tfacinfo exponentiation: signed overflow on the
 most negative exponent and on the last unused squaring

---
 spffl/containers/tfacinfo.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index e8a6c7d..6b6d82b 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -287,7 +287,7 @@ public:
     }
 
     if (e < 0) {
-      if (e == -e) {
+      if ((unsigned)e == -(unsigned)e) {
         std::stringstream ss;
         ss << "Can't handle MIN_INT.\n";
         throw spffl::exception_t(ss.str());
@@ -301,7 +301,9 @@ public:
         rv *= xp;
       }
       e = (unsigned)e >> 1;
-      xp *= xp;
+      if (e != 0) {
+        xp *= xp;
+      }
     }
 
     return rv;
-- 
2.43.0


From 5a5f7e99087b97cad981ae07d0a45250794f302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:53 +0000
Subject: [PATCH 27/36] fix: fp_polyrat_t negation left the result outside
 canonical form

---
 spffl/rationals/fp_polyrat_t.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index 1b5d968..457f6eb 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -100,6 +100,7 @@ fp_polyrat_t fp_polyrat_t::operator-(void) const {
   fp_polyrat_t rv;
   rv.numer = -this->numer;
   rv.denom = this->denom;
+  rv.simplify();
   return rv;
 }
 
-- 
2.43.0


From e06a0e3dd7f58fe4ad13072f7bce3a19451df5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:53 +0000
Subject: [PATCH 28/36] fix: f2n_poly_t::square_root overflowed an int for
 extension degrees above 31

---
 spffl/polynomials/f2n_poly_t.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index b00bc77..86c4a6c 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -569,8 +569,7 @@ bool f2n_poly_t::square_root(f2n_poly_t &rroot) const {
   f2_polymod_t zero(0, m);
   int si, di;
   f2n_poly_t out;
-  int n   = m.find_degree();
-  int pow = 1 << (n - 1);
+  int n = m.find_degree();
 
   out.set_coeff(this->degree, zero);
   for (di = this->degree - 1; di >= 0; di--) {
@@ -578,7 +577,10 @@ bool f2n_poly_t::square_root(f2n_poly_t &rroot) const {
   }
 
   for (si = 0, di = 0; si <= this->degree; si += 2, di++) {
-    out.coeffs[di] = this->coeffs[si].exp(pow);
+    out.coeffs[di] = this->coeffs[si];
+    for (int k = 1; k < n; k++) {
+      out.coeffs[di] *= out.coeffs[di];
+    }
     if (si + 1 > this->degree) {
       break;
     }
-- 
2.43.0


From 9b5d7d7ba4092e1a14abafc5161e3bfb296b6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:53 +0000
Subject: [PATCH 29/36] fix: fpn_poly_t::pth_root always failed and did not
 take the roots of the coefficients

---
 spffl/polynomials/fpn_poly_t.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index ec43310..79befa3 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -529,16 +529,20 @@ bool fpn_poly_t::pth_root(fpn_poly_t &rroot) const {
   fp_poly_t m       = this->coeffs[0].get_modulus();
   fp_polymod_t zero = this->coeffs[0].prime_subfield_element(0);
   int si, di, j;
-  fpn_poly_t out;
+  fpn_poly_t out = *this;
   int p = this->get_characteristic();
 
-  out.set_coeff(this->degree, zero);
-  for (di = this->degree - 1; di >= 0; di--) {
+  for (di = this->degree; di >= 0; di--) {
     out.coeffs[di] = zero;
   }
 
+  // In an extension field of degree n, a^{p^{n-1}} is the p-th root of a.
+  int n = m.find_degree();
   for (si = 0, di = 0; si <= this->degree; si += p, di++) {
     out.coeffs[di] = this->coeffs[si];
+    for (int k = 1; k < n; k++) {
+      out.coeffs[di] = out.coeffs[di].exp(p);
+    }
     for (j = 1; j < p; j++) {
       if (si + j > this->degree) {
         break;
-- 
2.43.0


From 9dbfa79545aa0729a5f56a1bf65fa58aa89201ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:53 +0000
Subject: [PATCH 30/36] fix: fpn_polymod_t times a negative integer returned
 zero

---
 spffl/polynomials/fpn_polymod_t.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spffl/polynomials/fpn_polymod_t.cpp b/spffl/polynomials/fpn_polymod_t.cpp
index 7a3de91..ad7258d 100644
--- a/spffl/polynomials/fpn_polymod_t.cpp
+++ b/spffl/polynomials/fpn_polymod_t.cpp
@@ -96,9 +96,13 @@ fpn_polymod_t fpn_polymod_t::operator*(const fpn_polymod_t &that) const {
 
 // ----------------------------------------------------------------
 fpn_polymod_t fpn_polymod_t::operator*(int a) const {
-  // xxx get the characteristic and reduce a mod that.
+  int p = this->get_characteristic();
+  int n = a % p;
+  if (n < 0) {
+    n += p;
+  }
   fpn_polymod_t rv = *this - *this;
-  for (int i = 0; i < a; i++) {
+  for (int i = 0; i < n; i++) {
     rv += *this;
   }
   return rv;
-- 
2.43.0


From 660760c79d106b9ab31cae4c6f29df7878fcee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:56 +0000
Subject: [PATCH 31/36] fix: tmatrix paste places the second matrix after the
 columns of the first

---
 spffl/containers/tmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index c30ea2f..1924da9 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1316,7 +1316,7 @@ public:
     }
     for (i = 0; i < this->num_rows; i++) {
       for (j = 0; j < that.num_cols; j++) {
-        rv.rows[i][this->num_rows + j] = that.rows[i][j];
+        rv.rows[i][this->num_cols + j] = that.rows[i][j];
       }
     }
 
-- 
2.43.0


From 2c94c9aa73234eb2413943b94d5ad588057da6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:56 +0000
Subject: [PATCH 32/36] fix: tmatrix exp tests for INT_MIN without signed
 overflow

---
 spffl/containers/tmatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 1924da9..f87cc8c 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -13,6 +13,7 @@
 #include "spffl/containers/tvector.h"
 #include "spffl/intmath/int_gcd.h"
 #include <iostream>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -595,7 +596,7 @@ public:
       } else if (power == 0) {
         rout = I;
         return 1;
-      } else if (power == -power) {
+      } else if (power < -INT_MAX) {
         std::stringstream ss;
         ss << "tmatrix::exp:  can't handle MIN_INT.\n";
         throw spffl::exception_t(ss.str());
-- 
2.43.0


From 2e92b538039be75f1e3643251cc6d1be3912386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:10 +0000
Subject: [PATCH 33/36] fix: bit_matrix_t paste shrank the rows of its result,
 so inverse always threw

---
 spffl/bits/bit_matrix_t.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 74e9d4a..db54bed 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -868,11 +868,13 @@ bit_matrix_t bit_matrix_t::paste(bit_matrix_t &that) const {
   int i, j;
 
   for (i = 0; i < this->num_rows; i++) {
-    rv.rows[i] = this->rows[i];
+    for (j = 0; j < this->num_cols; j++) {
+      rv.rows[i].set(j, this->rows[i].get(j));
+    }
   }
   for (i = 0; i < this->num_rows; i++) {
     for (j = 0; j < that.num_cols; j++) {
-      rv.rows[i].set(this->num_rows + j, that.rows[i].get(j));
+      rv.rows[i].set(this->num_cols + j, that.rows[i].get(j));
     }
   }
 
-- 
2.43.0


From 4cbfdf49fab1c102f99cf0f49e78cf7e0b985671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:10 +0000
Subject: [PATCH 34/36] fix: bit_matrix_t outer filled a matrix of the default
 size

---
 spffl/bits/bit_matrix_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index db54bed..58e7cb9 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -499,7 +499,7 @@ bit_matrix_t &bit_matrix_t::operator*=(const bit_matrix_t &that) {
 bit_matrix_t bit_matrix_t::outer(const bit_vector_t &u, const bit_vector_t &v) {
   int m = u.get_num_elements();
   int n = v.get_num_elements();
-  bit_matrix_t rv;
+  bit_matrix_t rv(m, n);
   for (int i = 0; i < m; i++) {
     for (int j = 0; j < n; j++) {
       rv[i].set(j, u.get(i) * v.get(j));
-- 
2.43.0


From 42e40a49625c180ae46cc8e92d9751aa6c6d5e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:10 +0000
Subject: [PATCH 35/36] fix: bit_matrix_t exp tests for INT_MIN without signed
 overflow

---
 spffl/bits/bit_matrix_t.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 58e7cb9..1c8e597 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -7,6 +7,7 @@
 #include "spffl/bits/bit_matrix_t.h"
 #include "spffl/base/line_scan.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
@@ -428,7 +429,7 @@ int bit_matrix_t::exp(int power, bit_matrix_t &rout) const {
     } else if (power == 0) {
       rout = I;
       return 1;
-    } else if (power == -power) {
+    } else if (power < -INT_MAX) {
       std::stringstream ss;
       ss << "bit_matrix_t::exp:  can't handle "
          << "MIN_INT.\n";
-- 
2.43.0


From 2090973562140cc7eff8174254eddcc555a7d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:05 +0000
Subject: [PATCH 36/36] fix: f2n_poly_t::change_modulus left zero leading
 coefficients in place

---
 spffl/polynomials/f2n_poly_t.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 86c4a6c..5229a30 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -655,6 +655,7 @@ void f2n_poly_t::change_modulus(const f2_poly_t &new_modulus) {
   for (int i = 0; i <= this->degree; i++) {
     this->coeffs[i].change_modulus(new_modulus);
   }
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0

