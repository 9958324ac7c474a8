From 43e28fbdf242435683b737a52f359d0eee83df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 01/12] fix: reserve room for the minus sign in to_string

A negative value whose digit count is a multiple of nine wrote its minus
sign one byte before the start of the heap buffer.
---
 src/BigInteger.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index a871090..77730f3 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -878,6 +878,11 @@ std::string BigInteger::to_string() const {
         cchMax = cuDst * kcchBase;
     }
 
+    if (_sign < 0) {
+        // Leave an extra slot for a minus sign.
+        cchMax += 1;
+    }
+
     // We'll pass the rgch buffer to native code, which is going to treat it like a string of digits, so it needs
     // to be null terminated.  Let's ensure that we can allocate a buffer of that size.
     int rgchBufSize;
-- 
2.43.0


From 1d93bb0342558861875f4f09a7eecb6624f422ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:03 +0000
Subject: [PATCH 02/12] fix: sign of the div_rem remainder for a negative
 multi-limb dividend

The remainder by a single-int divisor was negated as an unsigned 32-bit
value, so div_rem(-2327714523, 2) reported 4294967295 instead of -1.
---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 77730f3..c7d288c 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -605,7 +605,7 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = dividend.get_bits();
         uint_array bits = BigIntegerCalculator::divide(rbits, std::abs(divisor._sign), rest);
 
-        remainder = dividend._sign < 0 ? -1 * rest : rest;
+        remainder = dividend._sign < 0 ? -1 * static_cast<int64_t>(rest) : static_cast<int64_t>(rest);
         return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
     }
 
-- 
2.43.0


From a8ec05ec9c1597460fae8fda7121623a06f4adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:12 +0000
Subject: [PATCH 03/12] fix: sign of mod_pow for a negative base and a
 single-int modulus

The 32-bit result was negated as an unsigned value, so mod_pow(-5, 1, 3)
returned 4294967294 instead of -2.
---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index c7d288c..60e9b67 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1600,7 +1600,7 @@ BigInteger BigInteger::mod_pow(const BigInteger& value, const BigInteger& expone
             else
                 bits = BigIntegerCalculator::pow(value._bits, exponent._bits, std::abs(modulus._sign));
         }
-        return value._sign < 0 && !exponent.is_even() ? -1 * bits : bits;
+        return value._sign < 0 && !exponent.is_even() ? -1 * static_cast<int64_t>(bits) : static_cast<int64_t>(bits);
     } else {
         uint_array bits;
         if (trivialValue && trivialExponent) {
-- 
2.43.0


From d0d4bea0562c03e29a4309d8c0d2941e91da11c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:17 +0000
Subject: [PATCH 04/12] fix: mod_pow with a zero modulus and a multi-limb
 exponent

A single-int base with an exponent above 32 bits divided by the zero
modulus (SIGFPE) instead of throwing DivideByZero.
---
 src/BigIntegerCalculator/PowMod.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerCalculator/PowMod.cpp b/src/BigIntegerCalculator/PowMod.cpp
index ef69c5e..b895345 100644
--- a/src/BigIntegerCalculator/PowMod.cpp
+++ b/src/BigIntegerCalculator/PowMod.cpp
@@ -89,6 +89,8 @@ uint32_t BigIntegerCalculator::pow(const uint_array& value, uint32_t power, uint
 }
 
 uint32_t BigIntegerCalculator::pow_core(const uint_array& power, uint32_t modulus, uint64_t value, uint64_t result) {
+    if (modulus == 0)
+        throw DivideByZero();
     for (int i = 0; i < power.size() - 1; i++) {
         unsigned int p = power[i];
         for (int j = 0; j < 32; j++) {
-- 
2.43.0


From 65ff4de9de59de6dbdba643878d919acfbc33d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:25 +0000
Subject: [PATCH 05/12] fix: right shift of negative values by whole limbs

When the two's complement of the magnitude has a zero top limb and all
shifted limbs are zero the sign was lost: -18446744071562067968 >> 32
gave 0 instead of -4294967296 (same repair as in .NET).
---
 src/BigInteger.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 60e9b67..fa45cb0 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1066,6 +1066,7 @@ BigInteger& BigInteger::operator>>=(const int shift) {
     int xl;
     bool negx;
     negx = get_parts_for_bit_manipulation(*this, xd, xl);
+    bool trackSignBit = false;
 
     if (negx) {
         if (shift >= (kcbitUint * xl)) {
@@ -1075,11 +1076,15 @@ BigInteger& BigInteger::operator>>=(const int shift) {
         uint_array temp = xd;
         xd = temp;
         NumericsHelpers::dangerous_make_twos_complement(xd); // Mutates xd
+
+        // For a shift by whole limbs there is no sign extension below. If the top limb became 0 then the sign bit
+        // lies outside of the array, e.g. [1, 0xFFFFFFFF] becomes [0xFFFFFFFF, 0], and has to be tracked separately.
+        trackSignBit = smallShift == 0 && xd[xl - 1] == 0;
     }
 
     int zl = xl - digitShift;
     if (zl < 0) zl = 0;
-    uint_array zd(zl, 0);
+    uint_array zd(zl + (trackSignBit ? 1 : 0), 0);
 
     if (smallShift == 0) {
         for (int i = xl - 1; i >= digitShift; i--) {
@@ -1099,6 +1104,8 @@ BigInteger& BigInteger::operator>>=(const int shift) {
         }
     }
     if (negx) {
+        if (trackSignBit)
+            zd[zl] = 0xFFFFFFFF;
         NumericsHelpers::dangerous_make_twos_complement(zd); // Mutates zd
     }
     *this = BigInteger(zd, negx);
-- 
2.43.0


From 9ba2e4136c85624373e2b98e05267cdee74651db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:05 +0000
Subject: [PATCH 06/12] fix: Lehmer step of the gcd for operands of three or
 more limbs

The combined step was computed on copies of the limbs and thrown away, so
greatest_common_divisor did not terminate; the buffer's clearing of limbs
past its new length also used the wrong range and value.
---
 include/BitsBuffer.h                    | 2 +-
 src/BigIntegerCalculator/BitsBuffer.cpp | 6 +++---
 src/BigIntegerCalculator/GcdInv.cpp     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/BitsBuffer.h b/include/BitsBuffer.h
index 66f2918..b1894d3 100644
--- a/include/BitsBuffer.h
+++ b/include/BitsBuffer.h
@@ -27,7 +27,7 @@ public:
 
     void Overwrite(uint32_t value);
 
-    uint_array GetBits() { return _bits; }
+    uint_array& GetBits() { return _bits; }
 
     int GetSize() { return _bits.size(); }
 
diff --git a/src/BigIntegerCalculator/BitsBuffer.cpp b/src/BigIntegerCalculator/BitsBuffer.cpp
index f5bd7f7..c4845d0 100644
--- a/src/BigIntegerCalculator/BitsBuffer.cpp
+++ b/src/BigIntegerCalculator/BitsBuffer.cpp
@@ -55,7 +55,7 @@ void BitsBuffer::Reduce(BitsBuffer& modulus) {
 
 void BitsBuffer::Overwrite(uint64_t value) {
     if (_length > 2)
-        std::fill(_bits.begin(), _bits.begin() + (_length - 2), 2);
+        std::fill(_bits.begin() + 2, _bits.begin() + _length, 0);
     uint32_t lo = static_cast<uint32_t>(value); // unchecked()
     uint32_t hi = static_cast<uint32_t>(value >> 32);
     _bits[0] = lo;
@@ -65,14 +65,14 @@ void BitsBuffer::Overwrite(uint64_t value) {
 
 void BitsBuffer::Overwrite(uint32_t value) {
     if (_length > 1)
-        std::fill(_bits.begin(), _bits.begin() + (_length - 1), 1);
+        std::fill(_bits.begin() + 1, _bits.begin() + _length, 0);
     _bits[0] = value;
     _length = value != 0 ? 1 : 0;
 }
 
 void BitsBuffer::Refresh(int maxLength) {
     if (_length > maxLength)
-        std::fill(_bits.begin(), _bits.begin() + (_length - maxLength), maxLength);
+        std::fill(_bits.begin() + maxLength, _bits.begin() + _length, 0);
     _length = BigIntegerCalculator::actual_length(_bits, maxLength);
 }
 
diff --git a/src/BigIntegerCalculator/GcdInv.cpp b/src/BigIntegerCalculator/GcdInv.cpp
index 3f5936b..bf8a5e1 100644
--- a/src/BigIntegerCalculator/GcdInv.cpp
+++ b/src/BigIntegerCalculator/GcdInv.cpp
@@ -228,8 +228,8 @@ void BigIntegerCalculator::lehmer_core(BitsBuffer& xBuffer, BitsBuffer& yBuffer,
 
     // Executes the combined calculation of Lehmer's step.
 
-    uint_array x = xBuffer.GetBits();
-    uint_array y = yBuffer.GetBits();
+    uint_array& x = xBuffer.GetBits();
+    uint_array& y = yBuffer.GetBits();
 
     int length = yBuffer.GetLength();
 
-- 
2.43.0


From 4410e861289727cf3e3ea0757bfb8071ae16697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 07/12] fix: mod_pow with a modulus of 32 or more limbs

The Barrett reduction worked on copies of the value, so nothing was ever
reduced (wrong results and out of bounds writes), cleared the wrong limbs,
and the top exponent limb was applied twice.
---
 include/FastReducer.h                    | 4 ++--
 src/BigIntegerCalculator/FastReducer.cpp | 6 +++---
 src/BigIntegerCalculator/PowMod.cpp      | 3 ++-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/FastReducer.h b/include/FastReducer.h
index 1737648..34b8104 100644
--- a/include/FastReducer.h
+++ b/include/FastReducer.h
@@ -6,7 +6,7 @@ struct FastReducer {
 public:
     FastReducer(uint_array modulus);
 
-    int Reduce(uint_array, int length);
+    int Reduce(uint_array& value, int length);
 
 private:
     uint_array _modulus;
@@ -17,6 +17,6 @@ private:
 
     int DivMul(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& bits, int k);
 
-    int SubMod(uint_array left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k);
+    int SubMod(uint_array& left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k);
 
 };
\ No newline at end of file
diff --git a/src/BigIntegerCalculator/FastReducer.cpp b/src/BigIntegerCalculator/FastReducer.cpp
index ef96902..d0af920 100644
--- a/src/BigIntegerCalculator/FastReducer.cpp
+++ b/src/BigIntegerCalculator/FastReducer.cpp
@@ -14,7 +14,7 @@ FastReducer::FastReducer(uint_array modulus) {
     _muLength = BigIntegerCalculator::actual_length(_mu);
 }
 
-int FastReducer::Reduce(uint_array value, int length) {
+int FastReducer::Reduce(uint_array& value, int length) {
     if (length < _modulus.size())
         return length;
 
@@ -42,7 +42,7 @@ int FastReducer::DivMul(uint_array& left, int leftLength, uint_array& right, int
     return 0;
 }
 
-int FastReducer::SubMod(uint_array left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k) {
+int FastReducer::SubMod(uint_array& left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k) {
     if (leftLength > k)
         leftLength = k;
 
@@ -61,6 +61,6 @@ int FastReducer::SubMod(uint_array left, int leftLength, uint_array right, int r
         leftLength = BigIntegerCalculator::actual_length(left, leftLength);
     }
 
-    std::fill(left.begin(), left.begin() + leftLength, left.size() - leftLength);
+    std::fill(left.begin() + leftLength, left.end(), 0);
     return leftLength;
 }
diff --git a/src/BigIntegerCalculator/PowMod.cpp b/src/BigIntegerCalculator/PowMod.cpp
index b895345..c66caba 100644
--- a/src/BigIntegerCalculator/PowMod.cpp
+++ b/src/BigIntegerCalculator/PowMod.cpp
@@ -214,7 +214,8 @@ uint_array BigIntegerCalculator::pow_core(const uint_array& power, const uint_ar
 void
 BigIntegerCalculator::pow_core(const uint_array& power, FastReducer& reducer, BitsBuffer& value, BitsBuffer& result,
                                BitsBuffer& temp) {
-    for (auto p : power) {
+    for (size_t i = 0; i < power.size() - 1; i++) {
+        uint32_t p = power[i];
         for (int j = 0; j < 32; j++) {
             if ((p & 1) == 1) {
                 result.MultiplySelf(value, temp);
-- 
2.43.0


From aad3712ab6f5abb551682e982697f11becc5091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:10 +0000
Subject: [PATCH 08/12] fix: heap overflow in the modular reducer for moduli
 2^(32*k)

For such a modulus mu has two limbs more than the modulus, and the product
with a value of twice the modulus' length was written past its buffer.
---
 src/BigIntegerCalculator/FastReducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BigIntegerCalculator/FastReducer.cpp b/src/BigIntegerCalculator/FastReducer.cpp
index d0af920..abea59f 100644
--- a/src/BigIntegerCalculator/FastReducer.cpp
+++ b/src/BigIntegerCalculator/FastReducer.cpp
@@ -8,7 +8,8 @@ FastReducer::FastReducer(uint_array modulus) {
     _mu = BigIntegerCalculator::divide(r, modulus);
     _modulus = modulus;
 
-    _q1 = uint_array(modulus.size() * 2 + 2);
+    // mu has two limbs more than the modulus if that is a power of 2^32
+    _q1 = uint_array(modulus.size() * 2 + 3);
     _q2 = uint_array(modulus.size() * 2 + 1);
 
     _muLength = BigIntegerCalculator::actual_length(_mu);
-- 
2.43.0


From 23ec93a215f279732c5fe00ed2eab470d2de3d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:50 +0000
Subject: [PATCH 09/12] fix: div_rem when the remainder is the same object as
 an operand

---
 src/BigInteger.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index fa45cb0..8a80723 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -585,12 +585,15 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
 
     bool trivialDividend = dividend.get_bits().empty();
     bool trivialDivisor = divisor.get_bits().empty();
+    bool negativeQuotient = (dividend._sign < 0) ^ (divisor._sign < 0);
 
     if (trivialDividend && trivialDivisor) {
         if (divisor._sign == 0)
             throw DivideByZero();
+        // The remainder may be the very same object as one of the operands
+        int quotient = dividend._sign / divisor._sign;
         remainder = dividend._sign % divisor._sign;
-        return dividend._sign / divisor._sign;
+        return quotient;
     }
 
     if (trivialDividend) {
@@ -606,7 +609,7 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array bits = BigIntegerCalculator::divide(rbits, std::abs(divisor._sign), rest);
 
         remainder = dividend._sign < 0 ? -1 * static_cast<int64_t>(rest) : static_cast<int64_t>(rest);
-        return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        return BigInteger(bits, negativeQuotient);
     }
 
     if (dividend.get_bits().size() < divisor.get_bits().size()) {
@@ -619,7 +622,7 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array bits = BigIntegerCalculator::divide(lbits, rbits, rest);
 
         remainder = BigInteger(rest, dividend._sign < 0);
-        return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        return BigInteger(bits, negativeQuotient);
     }
 }
 
-- 
2.43.0


From 457e0be2264edf71e3b26e92ac73a46ebcfb72cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:57 +0000
Subject: [PATCH 10/12] fix: signed overflow when constructing from INT64_MIN

---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 8a80723..487d9a8 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -51,7 +51,7 @@ BigInteger::BigInteger(int64_t value) {
     } else {
         uint64_t x = 0;
         if (value < 0) {
-            x = static_cast<uint64_t>(-value);
+            x = 0 - static_cast<uint64_t>(value);
             _sign = -1;
         } else {
             x = static_cast<uint64_t>(value);
-- 
2.43.0


From 10e0e005e12f40088e8e330bf1683b9b77e284e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:05 +0000
Subject: [PATCH 11/12] fix: left shift of a negative value when importing
 bytes

---
 src/BigInteger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 487d9a8..b7694fc 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -133,11 +133,11 @@ BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
 
         if (isBigEndian) {
             for (int i = 0; i < byteCount; i++) {
-                _sign = (_sign << 8) | value[i];
+                _sign = static_cast<int>((static_cast<unsigned int>(_sign) << 8) | value[i]);
             }
         } else {
             for (int i = byteCount - 1; i >= 0; i--) {
-                _sign = (_sign << 8) | value[i];
+                _sign = static_cast<int>((static_cast<unsigned int>(_sign) << 8) | value[i]);
             }
         }
 
-- 
2.43.0


From b9482104ed6ea9965cf5fa1a07cf184a435d939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:14 +0000
Subject: [PATCH 12/12] fix: signed overflow when casting INT_MIN and LONG_MIN

---
 src/BigInteger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index b7694fc..3ed6520 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1436,7 +1436,7 @@ BigInteger::operator int() {
     if (_bits[0] > kuMaskHighBit)
         throw std::overflow_error("SR.Overflow_Int32");
 
-    return -static_cast<int>(_bits[0]);
+    return static_cast<int>(0 - _bits[0]);
 }
 
 BigInteger::operator unsigned int() {
@@ -1467,7 +1467,7 @@ BigInteger::operator long() {
         uu = _bits[0];
     }
 
-    long ll = _sign > 0 ? static_cast<long>(uu) : -static_cast<long>(uu);
+    long ll = _sign > 0 ? static_cast<long>(uu) : static_cast<long>(0 - uu);
     if ((ll > 0 && _sign > 0) || (ll < 0 && _sign < 0))
         return ll;
     throw std::overflow_error("SR.Overflow_Int64");
-- 
2.43.0

