From 1383273cece4aa7df302f986f61382ff11f7fc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 01/18] fix: keep the carry when a 64-bit built-in addend
 overflows the lowest block

---
 include/AesiMultiprecision/Aeu.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 5773baf..c651261 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -362,8 +362,9 @@ public:
         template <typename Unsigned> requires (std::is_unsigned_v<Unsigned>)
         gpu constexpr friend auto operator+=(Aeu& addition, Unsigned addendum) noexcept -> Aeu& {
             for(std::size_t i = 0; i < blocksNumber; ++i) {
-                const auto currentSum = static_cast<uint64_t>(addition.blocks[i]) + static_cast<uint64_t>(addendum);
-                addendum = static_cast<Unsigned>(currentSum / blockBase); addition.blocks[i] = static_cast<block>(currentSum % blockBase);
+                const auto currentSum = static_cast<uint64_t>(addition.blocks[i]) + static_cast<uint64_t>(addendum) % blockBase;
+                addendum = static_cast<Unsigned>(static_cast<uint64_t>(addendum) / blockBase + currentSum / blockBase);
+                addition.blocks[i] = static_cast<block>(currentSum % blockBase);
             }
             return addition;
         }
-- 
2.43.0


From e81a6236cb36a5afaae4da757de054a20636af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 02/18] fix: multiply by every 64-bit built-in type through the
 two-block path

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index c651261..830c47b 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -437,7 +437,7 @@ public:
          */
         template <typename Unsigned> requires (std::is_unsigned_v<Unsigned>)
         gpu constexpr friend auto operator*=(Aeu& multiplication, Unsigned factor) noexcept -> Aeu& {
-            if constexpr (std::is_same_v<Unsigned, uint64_t>) {
+            if constexpr (sizeof(Unsigned) > sizeof(block)) {
                 const auto longerLength = multiplication.filledBlocksNumber();
                 const auto smallerLength = (factor > blockMax ? 2UL : 1UL);
                 blockLine buffer {};
-- 
2.43.0


From 9d0d665dce08188ba0b922e97ce26ca0faf4b197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 03/18] fix: reject the first byte index past the number in
 setByte and getByte

---
 include/AesiMultiprecision/Aeu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 830c47b..1b98ead 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -930,7 +930,7 @@ public:
      */
     gpu constexpr auto setByte(std::size_t index, byte byte) noexcept -> void {
 #ifndef AESI_UNSAFE
-        if(index > blocksNumber * sizeof(block)) return;
+        if(index >= blocksNumber * sizeof(block)) return;
 #endif
         const std::size_t blockNumber = index / sizeof(block), byteInBlock = index % sizeof(block), shift = byteInBlock * bitsInByte;
         assert(blockNumber < blocksNumber && byteInBlock < sizeof(block));
@@ -946,7 +946,7 @@ public:
     [[nodiscard]]
     gpu constexpr auto getByte(std::size_t index) const noexcept -> byte {
 #ifndef AESI_UNSAFE
-        if(index > blocksNumber * sizeof(block)) return 0;
+        if(index >= blocksNumber * sizeof(block)) return 0;
 #endif
         const std::size_t blockNumber = index / sizeof(block), byteInBlock = index % sizeof(block), shift = byteInBlock * bitsInByte;
         assert(blockNumber < blocksNumber && byteInBlock < sizeof(block));
-- 
2.43.0


From 2000ae52bc7aca7c11b98bb558c34569d175d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 04/18] fix: compare the blocks above the shorter number before
 the common ones

---
 include/AesiMultiprecision/Aeu.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 1b98ead..02c7003 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -807,12 +807,6 @@ public:
             using enum Comparison;
 
             const auto lowerBlockBorder = (blocksNumber < other.totalBlocksNumber() ? blocksNumber : other.totalBlocksNumber());
-            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
-                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
-                if(thisBlock != otherBlock)
-                    return (thisBlock > otherBlock ? greater : less);
-            }
-
             if constexpr (otherBitness != blocksNumber * blockBitLength) {
                 using enum Comparison;
                 if (other.totalBlocksNumber() > blocksNumber) {
@@ -826,6 +820,12 @@ public:
                 }
             }
 
+            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
+                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
+                if(thisBlock != otherBlock)
+                    return (thisBlock > otherBlock ? greater : less);
+            }
+
             return equal;
         }
     /* --------------------------------------------------------------------------- */
-- 
2.43.0


From 371536959d1acf34830686211bb65e85b6c681c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 05/18] fix: powm at the corners: base 0 with nonzero power,
 base 1 or power 0 with modulo 1

---
 include/AesiMultiprecision/Aeu.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 02c7003..a559d8f 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1200,12 +1200,7 @@ public:
      */
     template <std::size_t powerBitness = bitness> [[nodiscard]]
     gpu static constexpr auto powm(const Aeu& base, const Aeu<powerBitness>& power, const Aeu& modulo) noexcept -> Aeu {
-        if(base == 1u)
-            return base;
-        if(base == 0u)
-            return { 1u };
-
-        Aeu output = 1u;
+        Aeu output = (modulo == 1u) ? 0u : 1u;
         auto [_, b] = divide(base, modulo);
 
         for(unsigned iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {
@@ -1223,7 +1218,7 @@ public:
 
     [[nodiscard]]
     gpu static constexpr auto powm(const Aeu& base, const Aeu& power, const Aeu& mod) noexcept -> Aeu {
-        Aeu output = 1u;
+        Aeu output = (mod == 1u) ? 0u : 1u;
         auto [_, b] = divide(base, mod);
 
         for(std::size_t iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {
-- 
2.43.0


From f844c5e251d4d42db6ffe9a25dabcd8b78964b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 06/18] fix: build signed numbers from the minimum of a
 built-in without overflow

---
 include/AesiMultiprecision/Aesi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 960e459..0557a7c 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -100,7 +100,7 @@ public:
     gpu constexpr Aesi(Integral value) noexcept {
         using enum Sign;
         if(value < 0) {
-            base = Base(static_cast<unsigned long long>(-value));
+            base = Base(0ULL - static_cast<unsigned long long>(value));
             sign = Negative;
         } else if(value > 0) {
             base = Base(static_cast<unsigned long long>(value));
-- 
2.43.0


From 4f0a6c9742623516c44069a914aa1559fc93959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 07/18] fix: compare signed numbers with INT64_MIN without
 overflow

---
 include/AesiMultiprecision/Aesi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 0557a7c..5457d0d 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -659,7 +659,7 @@ public:
                 }
             } else if(integral < 0) {
                 if(sign == Negative)
-                    switch(base.compareTo(static_cast<uint64_t>(-static_cast<int64_t>(integral)))) {
+                    switch(base.compareTo(static_cast<uint64_t>(0ULL - static_cast<unsigned long long>(integral)))) {
                         using enum Comparison;
                         case greater:
                             return less;
-- 
2.43.0


From d0193507ec0a6ba1ec29f4fe13d50f5f53f1d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 08/18] fix: multiply signed numbers by the minimum of a
 built-in exactly

---
 include/AesiMultiprecision/Aesi.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 5457d0d..fd819ff 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -428,11 +428,12 @@ public:
             if(factor == 0) {
                 multiplication.sign = Zero;
             } else {
+                unsigned long long magnitude = static_cast<unsigned long long>(factor);
                 if(factor < 0) {
                     multiplication.inverse();
-                    factor = static_cast<Integral>(-factor);
+                    magnitude = 0ULL - magnitude;
                 }
-                multiplication.base *= static_cast<unsigned long long>(factor);
+                multiplication.base *= magnitude;
             }
             return multiplication;
         }
-- 
2.43.0


From b886e866f46a3626b4bc66b6dce116a106cb111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 09/18] fix: divide signed numbers by the minimum of a built-in
 exactly

---
 include/AesiMultiprecision/Aesi.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index fd819ff..51914da 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -495,11 +495,12 @@ public:
             if(divisor == 0) {
                 division.sign = Zero;
             } else {
+                unsigned long long magnitude = static_cast<unsigned long long>(divisor);
                 if(divisor < 0) {
                     division.inverse();
-                    divisor = static_cast<Integral>(-divisor);
+                    magnitude = 0ULL - magnitude;
                 }
-                division.base /= static_cast<unsigned long long>(divisor);
+                division.base /= magnitude;
                 if(division.base.isZero()) division.sign = Zero;
             }
             return division;
-- 
2.43.0


From fd793f93a4b080c48b73c22359bf6380cd51d4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 10/18] fix: give the signed remainder the dividend's sign and
 a canonical zero

---
 include/AesiMultiprecision/Aesi.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 51914da..bccf93e 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -566,11 +566,9 @@ public:
             if(modulo == 0) {
                 modulation.sign = Zero;
             } else {
-                if(modulo < 0) {
-                    modulation.inverse();
-                    modulo = static_cast<Integral>(-modulo);
-                }
-                modulation.base %= static_cast<unsigned long long>(modulo);
+                const unsigned long long magnitude = static_cast<unsigned long long>(modulo);
+                modulation.base %= (modulo < 0 ? 0ULL - magnitude : magnitude);
+                if(modulation.base.isZero()) modulation.sign = Zero;
             }
             return modulation;
         }
@@ -587,8 +585,6 @@ public:
             if(modulo.isZero())
                 return modulation;
 
-            if(modulo.isNegative())
-                modulation.inverse();
             modulation.base %= modulo.base;
             if(modulation.base.isZero())
                 modulation.sign = Sign::Zero;
-- 
2.43.0


From 40a7b74a61159755ecf9b237834055ab0bffe147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:34 +0000
Subject: [PATCH 11/18] fix: keep signed zero canonical through arithmetic

---
 include/AesiMultiprecision/Aesi.h | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index bccf93e..135f76c 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -212,7 +212,7 @@ public:
             if(sign == Negative) {
                 --base; if(base.isZero()) sign = Zero;
             } else if(sign == Positive) {
-                ++base;
+                ++base; if(base.isZero()) sign = Zero;
             } else { base = 1u; sign = Positive; }
             return *this;
         }
@@ -230,7 +230,7 @@ public:
         gpu constexpr auto operator--() noexcept -> Aesi& {
             using enum Sign;
             if(sign == Negative) {
-                ++base;
+                ++base; if(base.isZero()) sign = Zero;
             } else if(sign == Positive) {
                 --base; if(base.isZero()) sign = Zero;
             } else { base = 1u; sign = Negative; }
@@ -273,6 +273,7 @@ public:
                 return addition = addendum;
             else if(lSign == rSign) {
                 lBase += rBase;
+                if(lBase.isZero()) lSign = Zero;
                 return addition;
             }
 
@@ -289,7 +290,7 @@ public:
                         return addition;
                     }
                     default: {
-                        lSign = Zero;
+                        lBase = {}; lSign = Zero;
                         return addition;
                     }
                 }
@@ -306,7 +307,7 @@ public:
                         return addition;
                     }
                     default: {
-                        lSign = Zero;
+                        lBase = {}; lSign = Zero;
                         return addition;
                     }
                 }
@@ -359,12 +360,13 @@ public:
                             return subtraction;
                         }
                         default: {
-                            lSign = Zero;
+                            lBase = {}; lSign = Zero;
                             return subtraction;
                         }
                     }
                 } else {
                     lBase += rBase;
+                    if(lBase.isZero()) lSign = Zero;
                     return subtraction;
                 }
             } else {
@@ -381,12 +383,13 @@ public:
                             return subtraction;
                         }
                         default: {
-                            lSign = Zero;
+                            lBase = {}; lSign = Zero;
                             return subtraction;
                         }
                     }
                 } else {
                     lBase += rBase;
+                    if(lBase.isZero()) lSign = Zero;
                     return subtraction;
                 }
             }
@@ -426,7 +429,7 @@ public:
         gpu constexpr friend auto operator*=(Aesi& multiplication, Integral factor) noexcept -> Aesi& {
             using enum Sign;
             if(factor == 0) {
-                multiplication.sign = Zero;
+                multiplication.base = {}; multiplication.sign = Zero;
             } else {
                 unsigned long long magnitude = static_cast<unsigned long long>(factor);
                 if(factor < 0) {
@@ -434,6 +437,7 @@ public:
                     magnitude = 0ULL - magnitude;
                 }
                 multiplication.base *= magnitude;
+                if(multiplication.base.isZero()) multiplication.sign = Zero;
             }
             return multiplication;
         }
@@ -447,11 +451,12 @@ public:
         gpu constexpr friend auto operator*=(Aesi& multiplication, const Aesi& factor) noexcept -> Aesi& {
             using enum Sign;
             if(factor.isZero()) {
-                multiplication.sign = Zero;
+                multiplication.base = {}; multiplication.sign = Zero;
             } else {
                 if(factor.isNegative())
                     multiplication.inverse();
                 multiplication.base *= factor.base;
+                if(multiplication.base.isZero()) multiplication.sign = Zero;
             }
             return multiplication;
         }
@@ -493,7 +498,7 @@ public:
         gpu constexpr friend auto operator/=(Aesi& division, Integral divisor) noexcept -> Aesi& {
             using enum Sign;
             if(divisor == 0) {
-                division.sign = Zero;
+                division.base = {}; division.sign = Zero;
             } else {
                 unsigned long long magnitude = static_cast<unsigned long long>(divisor);
                 if(divisor < 0) {
@@ -516,7 +521,7 @@ public:
         gpu constexpr friend auto operator/=(Aesi& division, const Aesi& divisor) noexcept -> Aesi& {
             using enum Sign;
             if(divisor.isZero()) {
-                division.sign = Zero;
+                division.base = {}; division.sign = Zero;
             } else {
                 if(divisor.isNegative())
                     division.inverse();
@@ -564,7 +569,7 @@ public:
         gpu constexpr friend auto operator%=(Aesi& modulation, Integral modulo) noexcept -> Aesi& {
             using enum Sign;
             if(modulo == 0) {
-                modulation.sign = Zero;
+                modulation.base = {}; modulation.sign = Zero;
             } else {
                 const unsigned long long magnitude = static_cast<unsigned long long>(modulo);
                 modulation.base %= (modulo < 0 ? 0ULL - magnitude : magnitude);
@@ -940,8 +945,8 @@ public:
     gpu static constexpr auto divide(const Aesi& number, const Aesi& divisor, Aesi& quotient, Aesi& remainder) noexcept -> void {
         using enum Sign;
         if(number.sign == Zero || divisor.sign == Zero) {
-            quotient.sign = Zero;
-            remainder.sign = Zero;
+            quotient.base = {}; quotient.sign = Zero;
+            remainder.base = {}; remainder.sign = Zero;
             return;
         }
 
-- 
2.43.0


From 02936e1284cc28a9fb1d9bc3dff416b8388afb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 12/18] fix: compare signed numbers of different precision
 without truncating

---
 include/AesiMultiprecision/Aesi.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 135f76c..a170cf2 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -620,11 +620,7 @@ public:
          */
         template <std::size_t otherBitness>
         gpu constexpr friend auto operator==(const Aesi& our, const Aesi<otherBitness>& other) noexcept -> bool {
-            if constexpr (bitness == otherBitness) {
-                return our.compareTo(other) == Comparison::equal;
-            } else {
-                return our.precisionCast<otherBitness>() == other;
-            }
+            return our.compareTo(other) == Comparison::equal;
         }
 
 #ifdef AESI_GMP_INTEGRATION
@@ -686,7 +682,10 @@ public:
          */
         template <std::size_t otherBitness = bitness> [[nodiscard]]
         gpu constexpr auto compareTo(const Aesi<otherBitness>& value) const noexcept -> Comparison {
-            return precisionCast<otherBitness>().compareTo(value);
+            if constexpr (otherBitness > bitness)
+                return precisionCast<otherBitness>().compareTo(value);
+            else
+                return compareTo(value.template precisionCast<bitness>());
         }
 
         /**
-- 
2.43.0


From 82f2d1206c8b28a954f7b3abca2393c0c3a2bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 13/18] fix: yield canonical signed zero from unsigned numbers,
 GMP integers and precision casts

---
 include/AesiMultiprecision/Aesi.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index a170cf2..31e6241 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -148,7 +148,7 @@ public:
      * @brief Unsigned integer conversion
      * @param value Aeu&
      */
-    explicit gpu constexpr Aesi(const Aeu<bitness>& value) : sign(Sign::Positive), base(value) {}
+    explicit gpu constexpr Aesi(const Aeu<bitness>& value) : sign(value.isZero() ? Sign::Zero : Sign::Positive), base(value) {}
 
 
 #ifdef AESI_GMP_INTEGRATION
@@ -163,7 +163,9 @@ public:
             sign = Zero;
         } else {
             base = number;
-            if(number < 0)
+            if(base.isZero())
+                sign = Zero;
+            else if(number < 0)
                 sign = Negative;
             else sign = Positive;
         }
@@ -1033,6 +1035,9 @@ public:
             for(std::size_t blockIdx = 0; blockIdx < blockBoarder; ++blockIdx)
                 result.setBlock(blockIdx, getBlock(blockIdx));
 
+            if(result.filledBlocksNumber() == 0)
+                return Aesi<newBitness> {};
+
             if(sign == Negative)
                 result.inverse();
 
-- 
2.43.0


From 12b8faf70b9f9233d94cb58211f9ba349f841a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 14/18] fix: cast signed numbers to the minimum of a built-in
 without overflow

---
 include/AesiMultiprecision/Aesi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 31e6241..3800111 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1015,7 +1015,7 @@ public:
 
         if constexpr (std::is_signed_v<Integral>) {
             if(sign == Negative)
-                return base.template integralCast<Integral>() * -1;
+                return static_cast<Integral>(std::make_unsigned_t<Integral>(0) - base.template integralCast<std::make_unsigned_t<Integral>>());
         }
 
         return base.template integralCast<Integral>();
-- 
2.43.0


From 095a3843cd5b29f1b4623a03ea002225f692a6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:44 +0000
Subject: [PATCH 15/18] fix: classify characters above 127 without undefined
 behaviour in the string constructor

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index a559d8f..98b6c6c 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -188,7 +188,7 @@ public:
         std::size_t position = 0;
 
         if constexpr (std::is_same_v<Char, char>) {
-            for(; position < size && !std::isalnum(data[position]); ++position) ;
+            for(; position < size && !std::isalnum(static_cast<unsigned char>(data[position])); ++position) ;
         } else {
             for(; position < size && !std::iswalnum(static_cast<wint_t>(data[position])); ++position) ;
         }
-- 
2.43.0


From 6d163f74bd8eea2fb3ae6dd3a45caec1bf8c2130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:44 +0000
Subject: [PATCH 16/18] fix: do not write outside the number when constructing
 from a wider GMP integer with AESI_UNSAFE

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 98b6c6c..7e4d7c2 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -262,7 +262,7 @@ public:
         std::vector<block> buffer (tBlocksNumber, 0u);
         mpz_export(buffer.data(), &tBlocksNumber, -1, sizeof(block), -1, 0, value.get_mpz_t());
 
-        for (std::size_t i = 0; i < tBlocksNumber; ++i)
+        for (std::size_t i = 0; i < tBlocksNumber && i < blocksNumber; ++i)
             setBlock(i, buffer[i]);
     }
 #endif
-- 
2.43.0


From dfd7229cd1bd99efa5a1ea17b170cbf7a4c8461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:54 +0000
Subject: [PATCH 17/18] fix: terminate the text of a signed zero and write
 nothing into an empty buffer

---
 include/AesiMultiprecision/Aesi.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 3800111..3a308bb 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1083,6 +1083,7 @@ public:
                     buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
                     buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'b'; } else { return L'b'; } } ();
                     buffer[2] = buffer[0];
+                    if(bufferSize > 3) buffer[3] = Char {};
                     return 3;
                 }
                 case 8: {
@@ -1090,6 +1091,7 @@ public:
                     buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
                     buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'o'; } else { return L'o'; } } ();
                     buffer[2] = buffer[0];
+                    if(bufferSize > 3) buffer[3] = Char {};
                     return 3;
                 }
                 case 16: {
@@ -1097,17 +1099,21 @@ public:
                     buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
                     buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'x'; } else { return L'x'; } } ();
                     buffer[2] = buffer[0];
+                    if(bufferSize > 3) buffer[3] = Char {};
                     return 3;
                 }
                 default: {
                     if(bufferSize < 1) return 0;
                     buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
+                    if(bufferSize > 1) buffer[1] = Char {};
                     return 1;
                 }
             }
         }
 
+        if(bufferSize < 1) return 0;
         buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
+        if(bufferSize > 1) buffer[1] = Char {};
         return 1;
     }
 
-- 
2.43.0


From 208d34fefd70df7f6685fb3bd1d2191ce63f9aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:54 +0000
Subject: [PATCH 18/18] fix: keep getString inside the buffer and terminate the
 text of zero

---
 include/AesiMultiprecision/Aeu.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 7e4d7c2..c4c8c59 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1306,6 +1306,7 @@ public:
 
         if(isZero()) {
             buffer[position++] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; }}();
+            if(position < bufferSize) buffer[position] = Char {};
             return position;
         }
 
@@ -1314,25 +1315,31 @@ public:
             for (; iter > 0 && blocks[iter] == 0; --iter)
                 ;
 
+            /* What does not fit into the buffer is cut, leaving place for the terminator */
+            const auto append = [&position, &bufferSize] (int printed) {
+                const auto available = bufferSize - position;
+                position += (printed < 0 || static_cast<std::size_t>(printed) >= available ? available - 1 : static_cast<std::size_t>(printed));
+            };
+
             if constexpr (std::is_same_v<Char, char>) {
                 if constexpr (hexUppercase) {
-                    position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%X", blocks[iter]));
+                    append(snprintf(buffer + position, bufferSize - position, "%X", blocks[iter]));
                     for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%08X", blocks[iter]));
+                        append(snprintf(buffer + position, bufferSize - position, "%08X", blocks[iter]));
                 } else {
-                    position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%x", blocks[iter]));
+                    append(snprintf(buffer + position, bufferSize - position, "%x", blocks[iter]));
                     for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%08x", blocks[iter]));
+                        append(snprintf(buffer + position, bufferSize - position, "%08x", blocks[iter]));
                 }
             } else {
                 if constexpr (hexUppercase) {
-                    position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%X", blocks[iter]));
+                    append(swprintf(buffer + position, bufferSize - position, L"%X", blocks[iter]));
                     for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%08X", blocks[iter]));
+                        append(swprintf(buffer + position, bufferSize - position, L"%08X", blocks[iter]));
                 } else {
-                    position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%x", blocks[iter]));
+                    append(swprintf(buffer + position, bufferSize - position, L"%x", blocks[iter]));
                     for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%08x", blocks[iter]));
+                        append(swprintf(buffer + position, bufferSize - position, L"%08x", blocks[iter]));
                 }
             }
         } else {
@@ -1355,7 +1362,7 @@ public:
                 buffer[startPosition + digitsTotal - 1 - i] = t;
             }
         }
-        buffer[position++] = Char {};
+        if(position < bufferSize) buffer[position++] = Char {};
         return position;
     }
 
-- 
2.43.0

