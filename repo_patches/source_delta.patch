From a3378692a8282c0e1de49eb34354a327402628be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 01/19] fix: to_string wrote the minus sign before its buffer

A negative value whose digits fill every group of nine left no room for the sign.
---
 src/BigInteger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index a871090..4262003 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -884,12 +884,12 @@ std::string BigInteger::to_string() const {
     if (cchMax == std::numeric_limits<int32_t>::max()) {
         throw std::overflow_error("SR.Format_TooLarge");
     } else {
-        rgchBufSize = cchMax + 1;
+        rgchBufSize = cchMax + 1; // room for the sign
     }
 
 //    char rgch[rgchBufSize];
     char *rgch = new char[rgchBufSize];
-    int ichDst = cchMax;
+    int ichDst = rgchBufSize;
     for (int iuDst = 0; iuDst < cuDst - 1; iuDst++) {
         uint32_t uDig = rguDst[iuDst];
         assert(uDig < kuBase);
@@ -910,7 +910,7 @@ std::string BigInteger::to_string() const {
             rgch[--ichDst] = negativeSign[i];
     }
 
-    auto s = std::string(&rgch[ichDst], cchMax - ichDst);
+    auto s = std::string(&rgch[ichDst], rgchBufSize - ichDst);
     delete [] rgch;
     return s;
 }
-- 
2.43.0


From cd6819da2ef51101432c797b182e00701bacaadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 02/19] fix: to_string leaked its buffer when the string could
 not be allocated

---
 src/BigInteger.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 4262003..1cd7677 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -888,7 +888,7 @@ std::string BigInteger::to_string() const {
     }
 
 //    char rgch[rgchBufSize];
-    char *rgch = new char[rgchBufSize];
+    std::vector<char> rgch(rgchBufSize);
     int ichDst = rgchBufSize;
     for (int iuDst = 0; iuDst < cuDst - 1; iuDst++) {
         uint32_t uDig = rguDst[iuDst];
@@ -910,9 +910,7 @@ std::string BigInteger::to_string() const {
             rgch[--ichDst] = negativeSign[i];
     }
 
-    auto s = std::string(&rgch[ichDst], rgchBufSize - ichDst);
-    delete [] rgch;
-    return s;
+    return std::string(&rgch[ichDst], rgchBufSize - ichDst);
 }
 
 bool BigInteger::get_parts_for_bit_manipulation(const BigInteger& x, uint_array& xd, int& xl) {
-- 
2.43.0


From 9ffb2ddf191b0773897f97c1c30ae32503f70cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 03/19] fix: copy assignment changed the sign of its target
 before a failing allocation

---
 include/public/bigintegercpp/BigInteger.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/public/bigintegercpp/BigInteger.h b/include/public/bigintegercpp/BigInteger.h
index 7b25672..a0953f4 100644
--- a/include/public/bigintegercpp/BigInteger.h
+++ b/include/public/bigintegercpp/BigInteger.h
@@ -37,6 +37,19 @@ public:
 
     BigInteger(byte_array value, bool isUnsigned = false, bool isBigEndian = false);
 
+    BigInteger(const BigInteger& other) = default;
+
+    BigInteger(BigInteger&& other) = default;
+
+    BigInteger& operator=(BigInteger&& other) = default;
+
+    // All or nothing: when the copy of the bits cannot be allocated the target keeps its value.
+    BigInteger& operator=(const BigInteger& other) {
+        _bits = other._bits;
+        _sign = other._sign;
+        return *this;
+    }
+
     friend bool operator<(const BigInteger& lhs, const BigInteger& rhs) { return lhs.compare_to(rhs) < 0; }
 
     friend bool operator>(const BigInteger& lhs, const BigInteger& rhs) { return rhs < lhs; }
-- 
2.43.0


From 94b9894bd348f56fa5d27fcd4c5ac4a067a34de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 04/19] fix: div_rem gave a wrong remainder or quotient

The remainder of a negative dividend by a small divisor was negated as an unsigned number, and
the remainder was stored before the quotient was built: it was changed although the call then
failed, and a remainder sharing its variable with dividend or divisor gave a wrong quotient.
---
 src/BigInteger.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 1cd7677..d3eeb5a 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -589,8 +589,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
     if (trivialDividend && trivialDivisor) {
         if (divisor._sign == 0)
             throw DivideByZero();
+        BigInteger quotient = dividend._sign / divisor._sign;
         remainder = dividend._sign % divisor._sign;
-        return dividend._sign / divisor._sign;
+        return quotient;
     }
 
     if (trivialDividend) {
@@ -605,8 +606,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = dividend.get_bits();
         uint_array bits = BigIntegerCalculator::divide(rbits, std::abs(divisor._sign), rest);
 
-        remainder = dividend._sign < 0 ? -1 * rest : rest;
-        return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        BigInteger quotient(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        remainder = dividend._sign < 0 ? -1 * static_cast<int64_t>(rest) : static_cast<int64_t>(rest);
+        return quotient;
     }
 
     if (dividend.get_bits().size() < divisor.get_bits().size()) {
@@ -618,8 +620,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = divisor.get_bits();
         uint_array bits = BigIntegerCalculator::divide(lbits, rbits, rest);
 
+        BigInteger quotient(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
         remainder = BigInteger(rest, dividend._sign < 0);
-        return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        return quotient;
     }
 }
 
-- 
2.43.0


From 7b10bb80346427f864e0b0f30027aba71d9f8aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 05/19] fix: mod_pow negated the result of a negative base as
 an unsigned number

---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index d3eeb5a..f739370 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1596,7 +1596,7 @@ BigInteger BigInteger::mod_pow(const BigInteger& value, const BigInteger& expone
             else
                 bits = BigIntegerCalculator::pow(value._bits, exponent._bits, std::abs(modulus._sign));
         }
-        return value._sign < 0 && !exponent.is_even() ? -1 * bits : bits;
+        return value._sign < 0 && !exponent.is_even() ? -1 * static_cast<int64_t>(bits) : static_cast<int64_t>(bits);
     } else {
         uint_array bits;
         if (trivialValue && trivialExponent) {
-- 
2.43.0


From 9c2084cd8137830dfe86dbd0abd3d3171ac4125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 06/19] fix: mod_pow with a large exponent and modulus zero
 ended the process

---
 src/BigIntegerCalculator/PowMod.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerCalculator/PowMod.cpp b/src/BigIntegerCalculator/PowMod.cpp
index ef69c5e..b895345 100644
--- a/src/BigIntegerCalculator/PowMod.cpp
+++ b/src/BigIntegerCalculator/PowMod.cpp
@@ -89,6 +89,8 @@ uint32_t BigIntegerCalculator::pow(const uint_array& value, uint32_t power, uint
 }
 
 uint32_t BigIntegerCalculator::pow_core(const uint_array& power, uint32_t modulus, uint64_t value, uint64_t result) {
+    if (modulus == 0)
+        throw DivideByZero();
     for (int i = 0; i < power.size() - 1; i++) {
         unsigned int p = power[i];
         for (int j = 0; j < 32; j++) {
-- 
2.43.0


From 6a8e12c525fe225b9f4c64866b056fde6e3e28d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 07/19] fix: FastReducer reduced a copy of the value

The value itself kept its limbs, so modular powers with a modulus of 32 limbs or more were wrong.
---
 include/FastReducer.h                    | 4 ++--
 src/BigIntegerCalculator/FastReducer.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/FastReducer.h b/include/FastReducer.h
index 1737648..e504836 100644
--- a/include/FastReducer.h
+++ b/include/FastReducer.h
@@ -6,7 +6,7 @@ struct FastReducer {
 public:
     FastReducer(uint_array modulus);
 
-    int Reduce(uint_array, int length);
+    int Reduce(uint_array& value, int length);
 
 private:
     uint_array _modulus;
@@ -17,6 +17,6 @@ private:
 
     int DivMul(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& bits, int k);
 
-    int SubMod(uint_array left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k);
+    int SubMod(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& modulus, int k);
 
 };
\ No newline at end of file
diff --git a/src/BigIntegerCalculator/FastReducer.cpp b/src/BigIntegerCalculator/FastReducer.cpp
index ef96902..baac9a0 100644
--- a/src/BigIntegerCalculator/FastReducer.cpp
+++ b/src/BigIntegerCalculator/FastReducer.cpp
@@ -14,7 +14,7 @@ FastReducer::FastReducer(uint_array modulus) {
     _muLength = BigIntegerCalculator::actual_length(_mu);
 }
 
-int FastReducer::Reduce(uint_array value, int length) {
+int FastReducer::Reduce(uint_array& value, int length) {
     if (length < _modulus.size())
         return length;
 
@@ -42,7 +42,7 @@ int FastReducer::DivMul(uint_array& left, int leftLength, uint_array& right, int
     return 0;
 }
 
-int FastReducer::SubMod(uint_array left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k) {
+int FastReducer::SubMod(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& modulus, int k) {
     if (leftLength > k)
         leftLength = k;
 
@@ -61,6 +61,6 @@ int FastReducer::SubMod(uint_array left, int leftLength, uint_array right, int r
         leftLength = BigIntegerCalculator::actual_length(left, leftLength);
     }
 
-    std::fill(left.begin(), left.begin() + leftLength, left.size() - leftLength);
+    std::fill(left.begin() + leftLength, left.end(), 0);
     return leftLength;
 }
-- 
2.43.0


From 974c222fdc696791ea5f2fb9d1b9ceb7f366b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 08/19] fix: modular powers with a large modulus used the
 exponent's last limb twice

---
 src/BigIntegerCalculator/PowMod.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BigIntegerCalculator/PowMod.cpp b/src/BigIntegerCalculator/PowMod.cpp
index b895345..d01aea0 100644
--- a/src/BigIntegerCalculator/PowMod.cpp
+++ b/src/BigIntegerCalculator/PowMod.cpp
@@ -214,7 +214,8 @@ uint_array BigIntegerCalculator::pow_core(const uint_array& power, const uint_ar
 void
 BigIntegerCalculator::pow_core(const uint_array& power, FastReducer& reducer, BitsBuffer& value, BitsBuffer& result,
                                BitsBuffer& temp) {
-    for (auto p : power) {
+    for (size_t i = 0; i < power.size() - 1; i++) {
+        unsigned int p = power[i];
         for (int j = 0; j < 32; j++) {
             if ((p & 1) == 1) {
                 result.MultiplySelf(value, temp);
-- 
2.43.0


From 624ce0288d444ecde0282822b5131332d929e6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 09/19] fix: FastReducer wrote behind its buffers for a modulus
 that is a power of 2^32

---
 src/BigIntegerCalculator/FastReducer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerCalculator/FastReducer.cpp b/src/BigIntegerCalculator/FastReducer.cpp
index baac9a0..63bf3ea 100644
--- a/src/BigIntegerCalculator/FastReducer.cpp
+++ b/src/BigIntegerCalculator/FastReducer.cpp
@@ -8,8 +8,9 @@ FastReducer::FastReducer(uint_array modulus) {
     _mu = BigIntegerCalculator::divide(r, modulus);
     _modulus = modulus;
 
-    _q1 = uint_array(modulus.size() * 2 + 2);
-    _q2 = uint_array(modulus.size() * 2 + 1);
+    // the reciprocal of a power of 2^32 has one limb more than any other
+    _q1 = uint_array(modulus.size() * 2 + 3);
+    _q2 = uint_array(modulus.size() * 2 + 2);
 
     _muLength = BigIntegerCalculator::actual_length(_mu);
 }
-- 
2.43.0


From 4934de52552cff192383c8be9a15aeefae7d15c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 10/19] fix: greatest common divisors of large values were
 wrong or never returned

Lehmer's step worked on copies of its operands, and dropped limbs were not cleared.
---
 include/BitsBuffer.h                    | 2 +-
 src/BigIntegerCalculator/BitsBuffer.cpp | 6 +++---
 src/BigIntegerCalculator/GcdInv.cpp     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/BitsBuffer.h b/include/BitsBuffer.h
index 66f2918..b1894d3 100644
--- a/include/BitsBuffer.h
+++ b/include/BitsBuffer.h
@@ -27,7 +27,7 @@ public:
 
     void Overwrite(uint32_t value);
 
-    uint_array GetBits() { return _bits; }
+    uint_array& GetBits() { return _bits; }
 
     int GetSize() { return _bits.size(); }
 
diff --git a/src/BigIntegerCalculator/BitsBuffer.cpp b/src/BigIntegerCalculator/BitsBuffer.cpp
index f5bd7f7..c4845d0 100644
--- a/src/BigIntegerCalculator/BitsBuffer.cpp
+++ b/src/BigIntegerCalculator/BitsBuffer.cpp
@@ -55,7 +55,7 @@ void BitsBuffer::Reduce(BitsBuffer& modulus) {
 
 void BitsBuffer::Overwrite(uint64_t value) {
     if (_length > 2)
-        std::fill(_bits.begin(), _bits.begin() + (_length - 2), 2);
+        std::fill(_bits.begin() + 2, _bits.begin() + _length, 0);
     uint32_t lo = static_cast<uint32_t>(value); // unchecked()
     uint32_t hi = static_cast<uint32_t>(value >> 32);
     _bits[0] = lo;
@@ -65,14 +65,14 @@ void BitsBuffer::Overwrite(uint64_t value) {
 
 void BitsBuffer::Overwrite(uint32_t value) {
     if (_length > 1)
-        std::fill(_bits.begin(), _bits.begin() + (_length - 1), 1);
+        std::fill(_bits.begin() + 1, _bits.begin() + _length, 0);
     _bits[0] = value;
     _length = value != 0 ? 1 : 0;
 }
 
 void BitsBuffer::Refresh(int maxLength) {
     if (_length > maxLength)
-        std::fill(_bits.begin(), _bits.begin() + (_length - maxLength), maxLength);
+        std::fill(_bits.begin() + maxLength, _bits.begin() + _length, 0);
     _length = BigIntegerCalculator::actual_length(_bits, maxLength);
 }
 
diff --git a/src/BigIntegerCalculator/GcdInv.cpp b/src/BigIntegerCalculator/GcdInv.cpp
index 3f5936b..bf8a5e1 100644
--- a/src/BigIntegerCalculator/GcdInv.cpp
+++ b/src/BigIntegerCalculator/GcdInv.cpp
@@ -228,8 +228,8 @@ void BigIntegerCalculator::lehmer_core(BitsBuffer& xBuffer, BitsBuffer& yBuffer,
 
     // Executes the combined calculation of Lehmer's step.
 
-    uint_array x = xBuffer.GetBits();
-    uint_array y = yBuffer.GetBits();
+    uint_array& x = xBuffer.GetBits();
+    uint_array& y = yBuffer.GetBits();
 
     int length = yBuffer.GetLength();
 
-- 
2.43.0


From e9d4ee28b4bb4f192a48640b752f6b0ca5e96662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 11/19] fix: shifting a negative value right by whole limbs
 could lose its sign limb

A value such as -0xFFFFFFFF00000001 has a zero top limb in two's complement; shifted by 32 it gave 0.
---
 src/BigInteger.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index f739370..596053d 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1075,7 +1075,9 @@ BigInteger& BigInteger::operator>>=(const int shift) {
 
     int zl = xl - digitShift;
     if (zl < 0) zl = 0;
-    uint_array zd(zl, 0);
+    // A negative value whose top limb is zero in two's complement needs a limb for its sign
+    bool trackSignBit = negx && smallShift == 0 && xd[xl - 1] == 0;
+    uint_array zd(zl + (trackSignBit ? 1 : 0), 0);
 
     if (smallShift == 0) {
         for (int i = xl - 1; i >= digitShift; i--) {
@@ -1095,6 +1097,8 @@ BigInteger& BigInteger::operator>>=(const int shift) {
         }
     }
     if (negx) {
+        if (trackSignBit)
+            zd[zl] = 0xFFFFFFFF;
         NumericsHelpers::dangerous_make_twos_complement(zd); // Mutates zd
     }
     *this = BigInteger(zd, negx);
-- 
2.43.0


From 2b58f54d538571a116d54b998aa4c74d0e075a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 12/19] fix: globals could use the library's constants before
 they existed

Values made from INT_MIN, -1 or 0 in initialisers of other globals came out as zero, and copies made
by destructors of other globals read destroyed constants.
---
 include/public/bigintegercpp/BigInteger.h |  5 ---
 src/BigInteger.cpp                        | 40 +++++++++++------------
 2 files changed, 20 insertions(+), 25 deletions(-)

diff --git a/include/public/bigintegercpp/BigInteger.h b/include/public/bigintegercpp/BigInteger.h
index a0953f4..8d37e1c 100644
--- a/include/public/bigintegercpp/BigInteger.h
+++ b/include/public/bigintegercpp/BigInteger.h
@@ -200,11 +200,6 @@ private:
     int _sign;
     uint_array _bits;
 
-    static const BigInteger s_bnMinInt;
-    static const BigInteger s_bnOneInt;
-    static const BigInteger s_bnZeroInt;
-    static const BigInteger s_bnMinusOneInt;
-
     BigInteger(uint_array value);
 
     static int get_diff_length(const uint_array& rgu1, const uint_array& rgu2, int cu);
diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 596053d..3ec8d40 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -11,10 +11,10 @@
 #include <algorithm>
 #include "../include/BigIntegerCalculator.h"
 
-const BigInteger BigInteger::s_bnMinInt = BigInteger(-1, uint_array{kuMaskHighBit});
-const BigInteger BigInteger::s_bnOneInt = BigInteger(1);
-const BigInteger BigInteger::s_bnZeroInt = BigInteger(0);
-const BigInteger BigInteger::s_bnMinusOneInt = BigInteger(-1);
+// Built anew for each use: an object here would not exist yet, or any more, for other globals' constructors and destructors.
+static BigInteger min_int() {
+    return BigInteger(-1, uint_array{BigInteger::kuMaskHighBit});
+}
 
 
 BigInteger::BigInteger() {
@@ -24,7 +24,7 @@ BigInteger::BigInteger() {
 
 BigInteger::BigInteger(int32_t value) {
     if (value == std::numeric_limits<int32_t>::min()) {
-        *this = s_bnMinInt;
+        *this = min_int();
     } else {
         _sign = value;
         _bits.clear();
@@ -47,7 +47,7 @@ BigInteger::BigInteger(int64_t value) {
     if (std::numeric_limits<int32_t>::min() < value && value <= std::numeric_limits<int32_t>::max()) {
         _sign = static_cast<int32_t>(value);
     } else if (value == std::numeric_limits<int32_t>::min()) {
-        *this = s_bnMinInt;
+        *this = min_int();
     } else {
         uint64_t x = 0;
         if (value < 0) {
@@ -151,7 +151,7 @@ BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
             _sign = +1;
         }
         if (_sign == std::numeric_limits<int>::min()) {
-            *this = s_bnMinInt;
+            *this = min_int();
         }
     } else {
         int unalignedBytes = byteCount % 4;
@@ -216,11 +216,11 @@ BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
             if (len == 1) {
                 switch (val[0]) {
                     case 1: // abs(-1)
-                        *this = s_bnMinusOneInt;
+                        *this = minus_one();
                         return;
 
                     case kuMaskHighBit: // abs(Int32.MinValue)
-                        *this = s_bnMinInt;
+                        *this = min_int();
                         return;
 
                     default:
@@ -260,7 +260,7 @@ BigInteger::BigInteger(uint_array value) {
 
     if (dwordCount == 0) {
         // BigInteger.zero
-        *this = BigInteger::s_bnZeroInt;
+        *this = BigInteger::zero();
         assert_valid();
         return;
     }
@@ -271,7 +271,7 @@ BigInteger::BigInteger(uint_array value) {
         }
             // Handle the special cases where the BigInteger likely fits into _sign
         else if (std::numeric_limits<int>::min() == static_cast<int>(value[0])) {
-            *this = BigInteger::s_bnMinInt;
+            *this = min_int();
         } else {
             _sign = static_cast<int>(value[0]);
         }
@@ -304,9 +304,9 @@ BigInteger::BigInteger(uint_array value) {
     // The number is represented by a single dword
     if (len == 1 && static_cast<int>((value[0])) > 0) {
         if (value[0] == 1 /* abs(-1) */) {
-            *this = s_bnMinusOneInt;
+            *this = minus_one();
         } else if (value[0] == kuMaskHighBit /* abs(Int32.MinValue) */) {
-            *this = s_bnMinInt;
+            *this = min_int();
         } else {
             _sign = (-1) * ((int) value[0]);
         }
@@ -335,14 +335,14 @@ BigInteger::BigInteger(uint_array value, bool negative) {
     for (len = value.size(); len > 0 && value[len - 1] == 0; len--);
 
     if (len == 0)
-        *this = s_bnZeroInt;
+        *this = zero();
         // Values like (Int32.MaxValue+1) are stored as "0x80000000" and as such cannot be packed into _sign
     else if (len == 1 && value[0] < kuMaskHighBit) {
         _sign = (negative ? -(int) value[0] : (int) value[0]);
         _bits = uint_array();
         // Although Int32.MinValue fits in _sign, we represent this case differently for negate
         if (_sign == std::numeric_limits<int>::min())
-            *this = s_bnMinInt;
+            *this = min_int();
     } else {
         _sign = negative ? -1 : +1;
         _bits.swap(value);
@@ -696,7 +696,7 @@ BigInteger& BigInteger::operator/=(const BigInteger& div) {
     if (trivialDividend) {
         // The divisor is non-trivial
         // and therefore the bigger one
-        *this = BigInteger::s_bnZeroInt;
+        *this = BigInteger::zero();
         return *this;
     }
 
@@ -710,7 +710,7 @@ BigInteger& BigInteger::operator/=(const BigInteger& div) {
     assert(!dividend._bits.empty() && !divisor._bits.empty());
 
     if (dividend._bits.size() < divisor._bits.size()) {
-        *this = BigInteger::s_bnZeroInt;
+        *this = BigInteger::zero();
         return *this;
     } else {
         uint_array bits = BigIntegerCalculator::divide(dividend._bits, divisor._bits);
@@ -1065,7 +1065,7 @@ BigInteger& BigInteger::operator>>=(const int shift) {
 
     if (negx) {
         if (shift >= (kcbitUint * xl)) {
-            *this = s_bnMinusOneInt;
+            *this = minus_one();
             return *this;
         }
         uint_array temp = xd;
@@ -1552,7 +1552,7 @@ BigInteger BigInteger::pow(const BigInteger& value, int exponent) {
     value.assert_valid();
 
     if (exponent == 0)
-        return s_bnOneInt;
+        return one();
     if (exponent == 1)
         return value;
 
@@ -1562,7 +1562,7 @@ BigInteger BigInteger::pow(const BigInteger& value, int exponent) {
         if (value._sign == 1)
             return value;
         if (value._sign == -1)
-            return (exponent & 1) != 0 ? value : s_bnOneInt;
+            return (exponent & 1) != 0 ? value : one();
         if (value._sign == 0)
             return value;
     }
-- 
2.43.0


From 0c5c0cb5f86b4766f0cab86a572029af8d9c99f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 13/19] fix: shifting zero left took memory for all the zero
 bits

---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 3ec8d40..90c888f 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -936,7 +936,7 @@ BigInteger operator<<(BigInteger lhs, const int shift) {
 }
 
 BigInteger& BigInteger::operator<<=(const int shift) {
-    if (shift == 0) {
+    if (shift == 0 || _sign == 0) {
         return *this;
     } else if (shift == std::numeric_limits<int>::min()) {
         *this = ((*this >> std::numeric_limits<int>::max()) >> 1);
-- 
2.43.0


From 134fb214eb8ceea9c365ffbd4620e784fa56a6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:53 +0000
Subject: [PATCH 14/19] fix: Python bindings report MemoryError when the int
 result cannot be allocated

---
 bindings/python/python-bindings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index 57abc12..861f5fa 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -74,6 +74,8 @@ py::int_ to_py_int(const BigInteger& value, bool is_signed = true, bool is_bigen
             data.size(),
             !is_bigendian,
             is_signed));
+    if (obj == nullptr)
+        throw py::error_already_set();
     return py::reinterpret_steal<py::int_>(obj);
 }
 
-- 
2.43.0


From 4bcd5ba40993db68bab2afa0496f05bb777d0bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:53 +0000
Subject: [PATCH 15/19] fix: Python buffer constructor follows the strides of
 the buffer

---
 bindings/python/python-bindings.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index 861f5fa..a5cd0da 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -95,7 +95,9 @@ PYBIND11_MODULE(pybiginteger, m) {
                   throw std::runtime_error("Incompatible buffer format!");
 
               auto data_ptr = static_cast<unsigned char *>(info.ptr);
-              std::vector<unsigned char> data(data_ptr, data_ptr + info.size);
+              std::vector<unsigned char> data(info.size);
+              for (py::ssize_t i = 0; i < info.size; i++)
+                  data[i] = data_ptr[i * info.strides[0]];
               return BigInteger(data);
             }), py::arg("value"))
             .def("__lt__", [](BigInteger& self, BigInteger& other) {
-- 
2.43.0


From 9f43d23ed1438fe4a9904eb5b2efe83ced33ce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:20 +0000
Subject: [PATCH 16/19] fix: Python bytes() and to_array() end the interpreter
 when memory runs out

---
 bindings/python/python-bindings.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index a5cd0da..11cf246 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -79,6 +79,15 @@ py::int_ to_py_int(const BigInteger& value, bool is_signed = true, bool is_bigen
     return py::reinterpret_steal<py::int_>(obj);
 }
 
+py::bytes to_py_bytes(const BigInteger& value, bool is_unsigned = false, bool is_bigendian = false) {
+    const auto data = value.to_byte_array(is_unsigned, is_bigendian);
+
+    auto obj = PyBytes_FromStringAndSize(reinterpret_cast<const char*>(data.data()), data.size());
+    if (obj == nullptr)
+        throw py::error_already_set();
+    return py::reinterpret_steal<py::bytes>(obj);
+}
+
 static constexpr auto VERSION_BINDINGS = "1.3.4";
 
 PYBIND11_MODULE(pybiginteger, m) {
@@ -304,16 +313,14 @@ PYBIND11_MODULE(pybiginteger, m) {
             .def("__abs__", [](BigInteger& self) { return BigInteger::abs(self);})
             .def("__invert__", [](BigInteger& self) { return ~self; })
             .def("__bytes__", [](BigInteger& self) {
-                auto v_bytes = self.to_byte_array();
-                return py::bytes(std::string(v_bytes.begin(), v_bytes.end()));
+                return to_py_bytes(self);
             }, R"(
                 Return the value of the BigInteger in little endian order.
                 For more information on the byte representation see:
                 https://docs.microsoft.com/en-us/dotnet/api/system.numerics.biginteger.tobytearray?view=netcore-3.1)")
             .def("to_array",
                  [](BigInteger& self, bool is_unsigned, bool is_bigendian) {
-                     auto v_bytes = self.to_byte_array(is_unsigned, is_bigendian);
-                     return py::bytes(std::string(v_bytes.begin(), v_bytes.end()));
+                     return to_py_bytes(self, is_unsigned, is_bigendian);
                  }, R"(
                 Return the value of the BigInteger.
                 For more information on the options see:
-- 
2.43.0


From ee80e8713a3fe121bf7a46113fecdbf075c43698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:22 +0000
Subject: [PATCH 17/19] fix: divmod(int, BigInteger) fails for results of more
 than 4300 digits

---
 bindings/python/python-bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index 11cf246..f32ef29 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -207,7 +207,7 @@ PYBIND11_MODULE(pybiginteger, m) {
                 BigInteger remainder;
                 auto big_self = to_biginteger(self);
                 auto div = BigInteger::div_rem(big_self, other, remainder);
-                return py::make_tuple(py::int_(py::str(div.to_string())), py::int_(py::str(remainder.to_string())));
+                return py::make_tuple(to_py_int(div), to_py_int(remainder));
             })
             .def("__pow__", [](BigInteger& base, BigInteger& exp) {
                 return BigInteger::pow(base, exp);
-- 
2.43.0


From 15abcc39edc8d429b6f1ef6f16b63f804f6be110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:49 +0000
Subject: [PATCH 18/19] fix: to_byte_array(AllocateArray) of zero wrote through
 the null default of bytesWritten

---
 src/BigInteger.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 90c888f..9d3ab35 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1267,7 +1267,9 @@ byte_array BigInteger::to_byte_array(GetBytesMode mode, bool isUnsigned, bool is
                 *bytesWritten = 1;
                 return byte_array();
             default:
-                *bytesWritten = 1;
+                if (bytesWritten) {
+                    *bytesWritten = 1;
+                }
                 return byte_array(1, 0);
         }
     }
-- 
2.43.0


From 38249a181f22a5d67563b2f3ce7527785953d7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:26 +0000
Subject: [PATCH 19/19] fix: converting -2^63 to a 64-bit number was refused by
 builds that rely on the absence of signed overflow

The magnitude of the smallest 64-bit number was negated as a signed number, which is undefined; g++ -O1 and -Os
drop the sign check that follows and throw std::overflow_error for a value that fits.
---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 9d3ab35..d10cbb5 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1459,7 +1459,7 @@ BigInteger::operator long() {
         uu = _bits[0];
     }
 
-    long ll = _sign > 0 ? static_cast<long>(uu) : -static_cast<long>(uu);
+    long ll = _sign > 0 ? static_cast<long>(uu) : static_cast<long>(0 - uu);
     if ((ll > 0 && _sign > 0) || (ll < 0 && _sign < 0))
         return ll;
     throw std::overflow_error("SR.Overflow_Int64");
-- 
2.43.0

