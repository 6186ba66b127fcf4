From c0f3dd5a2daa1a64a6642516fa30b9e133a7d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 01/35] fix: assigning an int64 of magnitude 4294967295 left a
 leading zero word; negating INT64_MIN overflowed

---
 src/BigIntegerImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 1aca459..bbecef1 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -489,11 +489,11 @@ BigIntegerImpl & BigIntegerImpl::assign(std::int64_t i64) {
     }
 
     m_flags = i64 > 0 ? BNFlag::POSITIVE : BNFlag::NEGATIVE;
-    if (i64 < 0) i64 = -i64;
 
     std::uint64_t u64 = i64;
+    if (i64 < 0) u64 = 0 - u64;
 
-    int u32s = u64 < std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
+    int u32s = u64 <= std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
     m_mag.slice(0, u32s);
 
     std::uint32_t * p = reinterpret_cast<std::uint32_t*>(&u64);
-- 
2.43.0


From e26b9cdd8e06aea971149335eab3066e1b59347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 02/35] fix: parsing a string of zeros did not report success

---
 src/BigIntegerImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index bbecef1..16dcf9c 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -557,6 +557,8 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     pos = str.find_first_not_of('0', pos);
     if (pos == StringArg::npos) { // 没有非0位, 就是0
         beZero();
+        PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
+        ok && (*ok = true);
         return *this;
     }
 
-- 
2.43.0


From 1fca2d41df287a630b93fcbf6cc7b3aaccae6a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 03/35] fix: a number string with an invalid character after
 the first digit of a block was accepted

---
 src/BigIntegerImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 16dcf9c..194786b 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -580,7 +580,7 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     
     std::uint32_t mag0;
     auto fistCov2U32Result = std::from_chars(cStr + pos, cStr + pos + fistBlockDigitCnt, mag0, radix);
-    if (fistCov2U32Result.ec != std::errc{}) { // to uint32_t出错
+    if (fistCov2U32Result.ec != std::errc{} || fistCov2U32Result.ptr != cStr + pos + fistBlockDigitCnt) { // to uint32_t出错
         PGBN_GetGlobalStatus() = ErrCode::NUMBER_STRING_PARSE2NUM_ERROR;
         ok && (*ok = false);
         return *this;
@@ -593,7 +593,7 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     std::uint32_t blockValue = 0;
     while (pos < slen) {
         auto toU32Result = std::from_chars(cStr + pos, cStr + pos + blockSize, blockValue, radix);
-        if (toU32Result.ec != std::errc{}) {
+        if (toU32Result.ec != std::errc{} || toU32Result.ptr != cStr + pos + blockSize) {
             PGBN_GetGlobalStatus() = ErrCode::NUMBER_STRING_PARSE2NUM_ERROR;
             ok && (*ok = false);
             return *this;
-- 
2.43.0


From 6940eda6cb2c45a6cc092ac77e975bf54848f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 04/35] fix: importing -(256 ** n) from two's complement bytes
 gave a wrong value unless n is a multiple of 4

---
 src/BigIntegerImpl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 194786b..2a5bcb9 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -719,8 +719,9 @@ BigIntegerImpl & BigIntegerImpl::assign(const void * bin, SizeType len, bool lit
         SizeType i = 0;
         for (; i < len && bytes[i] == 0; ++i);
 
-        if (i == len) { // - pow2
-            m_mag.append(1);
+        if (i == len) { // - pow2, 真值为256 ** len
+            if (len % 4 == 0) m_mag.append(1);
+            else m_mag[u32s - 1] = std::uint32_t(1) << (len % 4 * 8);
             return *this;
         }          
 
-- 
2.43.0


From 99dc83aee3cb3fea60749dd096ccf265ffe53087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 05/35] fix: growing a slice exposed stale words of an earlier,
 longer value

---
 src/Slice.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Slice.h b/src/Slice.h
index 788ea54..3a767a2 100644
--- a/src/Slice.h
+++ b/src/Slice.h
@@ -113,7 +113,10 @@ public:
             m_hi = m_lo;
             return *this;
         }
-        if (hi > count()) m_data->resize(m_lo + hi);
+        if (const SizeType cnt = count(); hi > cnt) {
+            m_data->resize(m_lo + cnt); // 丢弃[m_lo, m_hi)后的旧数据, 使扩展的部分为0
+            m_data->resize(m_lo + hi);
+        }
         m_lo = m_lo + lo;
         m_hi = m_lo - lo + hi;
 
-- 
2.43.0


From 8343c28fa53826e0670cd900aa83e04d2b78a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 06/35] fix: notBits left leading zero words or a zero that is
 not canonical

---
 src/BigIntegerImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 2a5bcb9..f9f4f4e 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1206,6 +1206,9 @@ void BigIntegerImpl::notBits() {
     auto & last = m_mag[len - 1];
     int leadingZeroCnt = util::clz(last);
     last = ~last & (MASK >> leadingZeroCnt);
+
+    detail::eraseZerosSuffix(m_mag); // 去除前导零
+    if (m_mag.count() == 0) beZero();
 }
 
 void BigIntegerImpl::shiftLeftAssign(std::uint64_t u64) {
-- 
2.43.0


From a7ba87e231432b68dfddf3ae81f372387b431f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 07/35] fix: built-in status codes were registered again by
 every thread, overwriting registrations (and racing), and unusable before
 getInstance

---
 src/Status.cpp | 45 +++++++++++++++++++++++----------------------
 src/Status.h   |  2 +-
 src/errInfos.h |  2 +-
 3 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/Status.cpp b/src/Status.cpp
index b94f570..3ea6416 100644
--- a/src/Status.cpp
+++ b/src/Status.cpp
@@ -6,30 +6,34 @@
 
 using namespace pgbn;
 
-static bool pgbn_reg() {
-    for (SizeType i = 0; i < errInfoCount; ++i) {
-        auto & errInfo = errInfos[i];
-        Status::registe(
-            errInfo.code,
-            errInfo.info,
-            errInfo.callback, errInfo.code, errInfo.info
-        );
-    }
-    return errInfoCount % 2 == 0;
-}
-
 // static member
-std::unordered_map<Enum, std::tuple<std::string, Callback>> Status::s_mp;
+std::unordered_map<Enum, std::tuple<std::string, Callback>> & Status::registry() {
+    using Map = std::unordered_map<Enum, std::tuple<std::string, Callback>>;
+
+    static Map mp = [] {
+        Map res;
+        for (SizeType i = 0; i < errInfoCount; ++i) {
+            auto & errInfo = errInfos[i];
+            res[errInfo.code] = std::make_tuple(
+                std::string(errInfo.info),
+                Callback(std::bind(errInfo.callback, errInfo.code, errInfo.info))
+            );
+        }
+        return res;
+    }();
+
+    return mp;
+}
 
 // member functions
 Status::Status(Enum no) noexcept : m_errno(no) {
-    PGZXB_DEBUG_ASSERT_EX("no not exsits", s_mp.find(no) != s_mp.end());
+    PGZXB_DEBUG_ASSERT_EX("no not exsits", registry().find(no) != registry().end());
 
     callback(no);
 }
 
 Status & Status::operator= (Enum no) noexcept {
-    PGZXB_DEBUG_ASSERT_EX("no not exsits", s_mp.find(no) != s_mp.end());
+    PGZXB_DEBUG_ASSERT_EX("no not exsits", registry().find(no) != registry().end());
 
     m_errno = no;
     callback(no);
@@ -52,26 +56,23 @@ void Status::setContext(const std::any & context) {
 // static functions
 Status * Status::getInstance() {
     static thread_local Status s_ins;
-    static thread_local bool h = pgbn_reg();
-    PGZXB_UNUSED(h);
-
     return &s_ins;
 }
 
 void Status::registeImpl(Enum no, const StringArg & info, Callback callback) {
-    s_mp[no] = std::make_tuple(std::string(info.data(), info.size()), callback);
+    registry()[no] = std::make_tuple(std::string(info.data(), info.size()), callback);
 }
 
 void Status::callback(Enum no) {
-    auto iter = s_mp.find(no); // no不存在的情况已被上层劫持
+    auto iter = registry().find(no); // no不存在的情况已被上层劫持
     if (!!std::get<1>(iter->second)) {
         std::get<1>(iter->second)(); // call
     }
 }
 
 bool Status::find(Enum no, std::tuple<std::string, Callback> ** t) {
-    auto iter = s_mp.find(no);
-    if (iter == s_mp.end()) {
+    auto iter = registry().find(no);
+    if (iter == registry().end()) {
         t && (*t = nullptr);
         return false;
     }
diff --git a/src/Status.h b/src/Status.h
index 9db867e..5093fb3 100644
--- a/src/Status.h
+++ b/src/Status.h
@@ -50,7 +50,7 @@ public:
     static const Callback & getCallback(Enum no); // 获取回调, 如果no不存在则返回空
     static const std::string & getInfo(Enum no);  // 获取信息, 不在在返回"<ERROR_INFO>"
 private:
-    static std::unordered_map<Enum, std::tuple<std::string, Callback>> s_mp;
+    static std::unordered_map<Enum, std::tuple<std::string, Callback>> & registry(); // 所有线程共享, 首次使用时(仅一次)填入内建错误码
 
     static void registeImpl(Enum no, const StringArg & info, Callback callback);
 
diff --git a/src/errInfos.h b/src/errInfos.h
index a8124a1..b1169d8 100644
--- a/src/errInfos.h
+++ b/src/errInfos.h
@@ -7,7 +7,7 @@ PGBN_NAMESPACE_START
 struct ErrInfo {
     Enum code;
     const char * info;
-    std::function<void(Enum, const char *)> callback;
+    void (*callback)(Enum, const char *); // 函数指针, 使errInfos可以常量初始化(静态对象构造时即可用)
 };
 
 namespace ErrCode {
-- 
2.43.0


From 72f82d97de37b9aaf29b22640936c03c757f86e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 08/35] fix: notifyAllPop could be missed by a thread about to
 wait, so that joining the pool never returned

---
 src/parallel/SimpleConcurrenceQueue.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parallel/SimpleConcurrenceQueue.h b/src/parallel/SimpleConcurrenceQueue.h
index f5d8c49..a8e211d 100644
--- a/src/parallel/SimpleConcurrenceQueue.h
+++ b/src/parallel/SimpleConcurrenceQueue.h
@@ -72,7 +72,10 @@ public:
     }
 
     void notifyAllPop() {
-        m_alwaysPop = true;
+        {
+            std::lock_guard<std::mutex> _(m_mutex); // 不加锁会丢失唤醒
+            m_alwaysPop = true;
+        }
         m_cond.notify_all();
     }
     
-- 
2.43.0


From 7ba6bfb5e766a84de2cf1190bf79af7d1890ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 09/35] fix: the reciprocal of zero was not reported as a
 division by zero

---
 src/Fraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index cfad1c6..9304dcd 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -83,7 +83,7 @@ public:
     }
 
     Fraction reciprocal(bool *ok = nullptr) const {
-        if (m_den == 0) {
+        if (m_num == 0) {
             if (ok) *ok = false;
             PGBN_GetGlobalStatus() = ErrCode::DIVBY0;
             return {};
-- 
2.43.0


From 17b109ee4d206ebcf45641fe7d504f79e05b7065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 10/35] fix: toDecimal lost zeros after the point, the sign of
 values between -1 and 0, and a negative denominator

---
 src/Fraction.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index 9304dcd..1ada7ae 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -69,17 +69,18 @@ public:
     }
 
     std::string toDecimal(int maxDecimalDigitCount = 8) const {
-        auto q = m_num.absoluted() % m_den.absoluted();
-        std::string digitalDigitsStr;
-        if(maxDecimalDigitCount > 0) {
+        const auto num = m_num.absoluted();
+        const auto den = m_den.absoluted();
+        std::string result = m_num.cmp(0) * m_den.cmp(0) < 0 ? "-" : "";
+        result.append((num / den).toString(10));
+        if (maxDecimalDigitCount > 0) {
             auto mul = BigInteger("1" + std::string(maxDecimalDigitCount, '0'));
-            digitalDigitsStr.append(".")
-                .append((q * mul / m_den).toString());
-            if (maxDecimalDigitCount > digitalDigitsStr.size()) {
-                digitalDigitsStr.append(std::string(maxDecimalDigitCount - digitalDigitsStr.size(), '0'));
-            }
+            auto digits = (num % den * mul / den).toString(10);
+            result.append(".")
+                .append(maxDecimalDigitCount - digits.size(), '0')
+                .append(digits);
         }
-        return (m_num / m_den).toString(10) + digitalDigitsStr;
+        return result;
     }
 
     Fraction reciprocal(bool *ok = nullptr) const {
-- 
2.43.0


From a0308dcc5cbac6d51b94a76b763436abd0bd9707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 11/35] fix: including Fraction.h in two translation units
 defined its operators twice

---
 src/Fraction.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index 1ada7ae..2855ab8 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -112,7 +112,7 @@ private:
     BigInteger m_den{1}; // denominator
 };
 
-Fraction operator+(const Fraction &left, const Fraction &right) {
+inline Fraction operator+(const Fraction &left, const Fraction &right) {
     auto new_num = left.m_num * right.m_den + right.m_num * left.m_den;
     auto new_den = left.m_den * right.m_den;
     Fraction result;
@@ -122,7 +122,7 @@ Fraction operator+(const Fraction &left, const Fraction &right) {
     return result;
 }
 
-Fraction operator-(const Fraction &left, const Fraction &right) {
+inline Fraction operator-(const Fraction &left, const Fraction &right) {
     auto new_num = left.m_num * right.m_den - right.m_num * left.m_den;
     auto new_den = left.m_den * right.m_den;
     Fraction result;
@@ -132,7 +132,7 @@ Fraction operator-(const Fraction &left, const Fraction &right) {
     return result;
 }
 
-Fraction operator*(const Fraction &left, const Fraction &right) {
+inline Fraction operator*(const Fraction &left, const Fraction &right) {
     auto new_num = left.m_num * right.m_num;
     auto new_den = left.m_den * right.m_den;
     Fraction result;
@@ -142,7 +142,7 @@ Fraction operator*(const Fraction &left, const Fraction &right) {
     return result;
 }
 
-Fraction operator/(const Fraction &left, const Fraction &right) {
+inline Fraction operator/(const Fraction &left, const Fraction &right) {
     if (right.m_num == 0) {
         PGBN_GetGlobalStatus() = ErrCode::DIVBY0;
         return {};
-- 
2.43.0


From 7043956f9b8725fa0e08ce1b14997bcd545e426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 12/35] fix: pgfmt::format overflowed its fixed-size buffers
 (empty string, wide field, large floating-point value)

---
 src/pgdebug.h | 758 ++++++++++++++++++++++++--------------------------
 1 file changed, 356 insertions(+), 402 deletions(-)

diff --git a/src/pgdebug.h b/src/pgdebug.h
index df36470..038e6c4 100755
--- a/src/pgdebug.h
+++ b/src/pgdebug.h
@@ -1,402 +1,356 @@
-//
-// Created by PGZXB on 2021/4/21.
-//
-#ifndef PGDEBUG_H
-#define PGDEBUG_H
-
-#define PGZXB_PASS (void(0))
-#define PGZXB_UNUSED(val) (void(val))
-
-#if defined(PGZXB_DEBUG)
-
-#include <bitset>
-#include <iostream>
-#define PGZXB_DEBUG_INFO_HEADER "[DEBUG]In " << __FILE__ << " in " << __func__ << " at " << __LINE__ << " : "
-#define PGZXB_DEBUG_Print(msg) std::cout << PGZXB_DEBUG_INFO_HEADER << (msg) << "\n"
-#define PGZXB_DEBUG_PrintVar(val) std::cout << PGZXB_DEBUG_INFO_HEADER << #val" : " << (val) << "\n"
-#define PGZBX_DEBUG_PrintBin(val) std::cout << PGZXB_DEBUG_INFO_HEADER << #val" : " << std::bitset<sizeof(val) * 8>(val) << "\n"
-#define PGZXB_DEBUG_CallFunc(func) PGZXB_DEBUG_PrintVar(func)
-
-#else
-
-#define PGZXB_DEBUG_INFO_HEADER ""
-#define PGZXB_DEBUG_Print(msg) PGZXB_UNUSED(msg)
-#define PGZXB_DEBUG_PrintVar(val) PGZXB_UNUSED(val)
-#define PGZBX_DEBUG_PrintBin(val) PGZXB_UNUSED(val)
-#define PGZXB_DEBUG_CallFunc(func) PGZXB_UNUSED(func)
-
-#endif
-
-#endif // PGDEBUG_H
-
-#ifndef __TOSTRING_UTIL_H__
-#define __TOSTRING_UTIL_H__
-
-#include <cstring>
-#include <string>
-#include <type_traits>
-#include <iterator>
-#include <memory>
-#include <cinttypes>
-
-#include <typeinfo>
-
-namespace pg::util::stringUtil::__IN_fmtUtil {
-#if __cplusplus >= 201703L
-    using std::void_t;
-#else
-    template<typename...> using void_t = void;
-#endif
-
-    template <typename _Type, typename _Iter = void_t<>>
-    struct has_iterator : public std::false_type { };
-
-    template <typename _Type>
-    struct has_iterator<_Type, void_t<typename _Type::iterator>> : public std::true_type { };
-
-    // function-delarations
-    template <typename _First, typename _Second>
-    std::string transToString(const std::pair<_First, _Second> & ele, const std::string &);
-
-    template<typename _Type>
-    std::enable_if_t<has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string & limit);
-
-    template<typename _Type>
-    std::enable_if_t<!has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string &);
-
-    // function-definitions
-    inline std::string transToString(const bool & ele, const std::string &) {
-        return ele ? "true" : "false";
-    }
-
-    inline std::string transToString(const char & ele, const std::string &) {
-        return std::string() + ele;
-    }
-
-    inline std::string transToString(const std::int16_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRId16 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
-    }
-
-    inline std::string transToString(const std::uint16_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRIu16 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
-    }
-
-    inline std::string transToString(const std::uint8_t & ele, const std::string &) {
-        return transToString(static_cast<std::uint16_t>(ele), "");
-    }
-
-    inline std::string transToString(const std::int32_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRId32 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
-    }
-
-    inline std::string transToString(const std::uint32_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRIu32 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
-    }
-
-    inline std::string transToString(const std::int64_t & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%s" PRId64 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
-    }
-
-    inline std::string transToString(const std::uint64_t & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%s" PRIu64 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
-    }
-
-    inline std::string transToString(const float & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%sf", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
-    }
-
-    inline std::string transToString(const double & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%slf", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
-    }
-
-    inline std::string transToString(const long double & ele, const std::string & limit) {
-        char buf[50] = { 0 };
-        char fmt[30] = { 0 };
-        sprintf(fmt, "%%%sllf", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
-    }
-
-    inline std::string transToString(const std::string & ele, const std::string & limit) {
-        struct HeapCharArrayWrapper {  // temp-tool
-            HeapCharArrayWrapper(char * arr) : ptr(arr) { }
-            ~HeapCharArrayWrapper() { if (ptr != nullptr) delete [] ptr; }
-            char * ptr = nullptr;
-        };
-
-        HeapCharArrayWrapper buf(new char[(ele.size() + 1) * 2]);  // temp-processing ==> Buffer
-        char fmt[50] = { 0 };
-
-        sprintf(fmt, "%%%ss", limit.c_str());
-        sprintf(buf.ptr, fmt, ele.c_str());
-        return std::string(buf.ptr);
-    }
-
-    inline std::string transToString(const char * ele, const std::string & limit) {
-        struct HeapCharArrayWrapper {  // temp-tool
-            HeapCharArrayWrapper(char * arr) : ptr(arr) { }
-            ~HeapCharArrayWrapper() { if (ptr != nullptr) delete [] ptr; }
-            char * ptr = nullptr;
-        };
-
-        const size_t len = std::strlen(ele);
-        HeapCharArrayWrapper buf(new char[len << 1]);  // temp-processing ==> Buffer
-        char fmt[50] = { 0 };
-
-        sprintf(fmt, "%%%ss", limit.c_str());
-        sprintf(buf.ptr, fmt, ele);
-        return std::string(buf.ptr);
-    }
-
-    template <typename _First, typename _Second>
-    std::string transToString(const std::pair<_First, _Second> & ele, const std::string &) {
-        const std::string NULL_STRING;
-        return std::string()
-            .append(transToString(ele.first, NULL_STRING))
-            .append(" : ")
-            .append(transToString(ele.second, NULL_STRING));
-    }
-
-    // string, const char*
-    template<typename _Type>
-    std::enable_if_t<has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string & limit) {
-        typedef typename _Type::const_iterator Iter;
-        
-        const std::string NULL_STRING;
-        std::string res("[");
-
-        for (
-            Iter iter = ele.begin(), end = ele.end();
-            iter != end;
-            ++iter
-        )
-            res.append( transToString(*iter, NULL_STRING) ).append(", ");  // useless second-param
-
-        if (res.size() > 1) {
-            res.pop_back();
-            res.back() = ']';
-        } else {
-            res.push_back(']');
-        }
-        return res;
-    }
-
-    template<typename _Type>
-    std::enable_if_t<!has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string &) {  // temp-function to show
-        return "<default-string>";
-    }
-
-} // namespace pg::util::stringUtl::__IN_fmtUtil
-
-
-#endif
-
-#ifndef __FMT_UTILS_H__
-#define __FMT_UTILS_H__
-
-#include <vector>
-#include <string>
-#include <algorithm>
-
-namespace pg::util::stringUtil {
-    namespace __IN_fmtUtil {
-        // function-delaration(s)
-        std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> 
-            parseBracket(
-                const std::string & str, const char * leftBracket, const char * rightBracket);
-        
-        template<typename..._Args>
-        std::vector<std::string> parseArgs(
-            const std::vector<std::string>& limits, const _Args&... args);
-
-        template<typename _First, typename..._Args>
-        void __IN_parseArgs(
-            std::vector<std::string> & res, 
-            const std::vector<std::string>& limits, 
-            std::vector<std::string>::const_iterator & limStrIter,
-            const _First& fArg, const _Args&... args);
-
-        void __IN_parseArgs(
-            std::vector<std::string> & res, 
-            const std::vector<std::string> & limits, 
-            std::vector<std::string>::const_iterator & limStrIter);
-        
-        // function-definitions
-        template<typename..._Args>
-        std::vector<std::string> parseArgs(
-            const std::vector<std::string>& limits, const _Args&... args) {
-            std::vector<std::string> res;
-            std::vector<std::string>::const_iterator iter = limits.begin();
-            __IN_parseArgs(res, limits, iter, args...);
-
-            return res;
-        }
-
-        template<typename _First, typename..._Args>
-        void __IN_parseArgs(
-            std::vector<std::string> & res, 
-            const std::vector<std::string>& limits, 
-            std::vector<std::string>::const_iterator & limStrIter,
-            const _First& fArg, const _Args&... args
-            ) {
-            res.push_back(transToString(fArg, *limStrIter));
-            ++limStrIter;
-            if (limStrIter == limits.end()) return;
-            __IN_parseArgs(res, limits, limStrIter, args...);
-        }
-
-        inline void __IN_parseArgs(
-            std::vector<std::string> & res,
-            const std::vector<std::string>& limits,
-            std::vector<std::string>::const_iterator & limStrIter
-            ) { }
-
-        inline std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> 
-            parseBracket(
-                const std::string & str, const char * leftBracket, const char * rightBracket) {
-                
-                std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> res;
-
-                size_t pos = 0, npos = std::string::npos;
-                std::string::const_iterator begin = str.begin();
-                while (true) {
-                    size_t beginPos = str.find(leftBracket, pos);
-                    if (beginPos == npos) break;
-                    size_t endPos = str.find(rightBracket, beginPos);
-                    if (endPos == npos) break;
-                    res.push_back({begin + beginPos + 1, begin + endPos});
-                    pos = endPos;
-                }
-                return res;
-
-            }
-
-        template <typename _Res>
-        void pushStringIntoBracket(
-            _Res & res,
-            const std::string & fmt,
-            const std::vector<std::string> & contents,
-            const std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> & ranges,
-            const std::vector<int> & nos) {
-            res.append(fmt.begin(), ranges.front().first - 1);
-            const std::size_t cSize = contents.size();
-            const std::size_t nosSize = nos.size();
-            std::size_t idx = 0;
-            for (std::size_t i = 0; i + 1 < nosSize; ++i) {
-                idx = nos.at(i);
-                if (idx < cSize) res.append(contents.at(idx));
-                res.append(ranges.at(i).second + 1, ranges.at(i + 1).first - 1);
-            }
-            if ((idx = nos.back()) < cSize) res.append(contents.at(idx));
-            res.append(ranges.back().second + 1, fmt.end());
-        }
-
-    } // namespace __IN_fmtUtil
-
-
-    template<typename..._Args>
-    std::string format(const std::string & fmt, _Args&& ...args) {
-        typedef std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>::iterator Iter;
-        
-        std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>
-            contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
-        if (contentRangeInBracket.empty()) return fmt;
-
-        std::vector<std::string> limits;
-        std::vector<int> nos;
-        
-        for (
-            Iter iter = contentRangeInBracket.begin(), end = contentRangeInBracket.end();
-            iter != end; ++iter) {
-            
-            std::string::const_iterator partiIter =  std::find(iter->first, iter->second, ':');
-            nos.push_back(std::atoi(fmt.c_str() + (iter->first - fmt.begin())));
-            if (partiIter != iter->second)
-                limits.push_back(std::string().assign(partiIter + 1, iter->second));
-            else limits.emplace_back();
-        }
-        
-        std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
-
-        std::string res; res.append(fmt.begin(), contentRangeInBracket.front().first - 1);
-        const std::size_t cSize = contents.size();
-        const std::size_t nosSize = nos.size();
-        std::size_t idx = 0;
-        for (std::size_t i = 0; i + 1 < nosSize; ++i) {
-            idx = nos.at(i);
-            if (idx < cSize) res.append(contents.at(idx));
-            res.append(contentRangeInBracket.at(i).second + 1, contentRangeInBracket.at(i + 1).first - 1);
-        }
-        if ((idx = nos.back()) < cSize) res.append(contents.at(idx));
-        res.append(contentRangeInBracket.back().second + 1, fmt.end());
-
-        return res;
-    }
-
-    template<typename _Res, typename..._Args>
-    void formatAppend(_Res & res, const std::string & fmt, _Args&& ...args) {
-        typedef std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>::iterator Iter;
-        
-        std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>
-            contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
-        if (contentRangeInBracket.empty()) { res = fmt; return; }
-
-        std::vector<std::string> limits;
-        std::vector<int> nos;
-        
-        for (
-            Iter iter = contentRangeInBracket.begin(), end = contentRangeInBracket.end();
-            iter != end; ++iter) {
-            
-            std::string::const_iterator partiIter =  std::find(iter->first, iter->second, ':');
-            nos.push_back(std::atoi(fmt.c_str() + (iter->first - fmt.begin())));
-            if (partiIter != iter->second)
-                limits.push_back(std::string().assign(partiIter + 1, iter->second));
-            else limits.emplace_back();
-        }
-        
-        std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
-
-        __IN_fmtUtil::pushStringIntoBracket(res, fmt, contents, contentRangeInBracket, nos);
-    }
-
-} // namespace pg::util::stringUtil
-
-namespace pgfmt {
-    using ::pg::util::stringUtil::format;
-    using ::pg::util::stringUtil::formatAppend;
-}
-
-#endif
+//
+// Created by PGZXB on 2021/4/21.
+//
+#ifndef PGDEBUG_H
+#define PGDEBUG_H
+
+#define PGZXB_PASS (void(0))
+#define PGZXB_UNUSED(val) (void(val))
+
+#if defined(PGZXB_DEBUG)
+
+#include <bitset>
+#include <iostream>
+#define PGZXB_DEBUG_INFO_HEADER "[DEBUG]In " << __FILE__ << " in " << __func__ << " at " << __LINE__ << " : "
+#define PGZXB_DEBUG_Print(msg) std::cout << PGZXB_DEBUG_INFO_HEADER << (msg) << "\n"
+#define PGZXB_DEBUG_PrintVar(val) std::cout << PGZXB_DEBUG_INFO_HEADER << #val" : " << (val) << "\n"
+#define PGZBX_DEBUG_PrintBin(val) std::cout << PGZXB_DEBUG_INFO_HEADER << #val" : " << std::bitset<sizeof(val) * 8>(val) << "\n"
+#define PGZXB_DEBUG_CallFunc(func) PGZXB_DEBUG_PrintVar(func)
+
+#else
+
+#define PGZXB_DEBUG_INFO_HEADER ""
+#define PGZXB_DEBUG_Print(msg) PGZXB_UNUSED(msg)
+#define PGZXB_DEBUG_PrintVar(val) PGZXB_UNUSED(val)
+#define PGZBX_DEBUG_PrintBin(val) PGZXB_UNUSED(val)
+#define PGZXB_DEBUG_CallFunc(func) PGZXB_UNUSED(func)
+
+#endif
+
+#endif // PGDEBUG_H
+
+#ifndef __TOSTRING_UTIL_H__
+#define __TOSTRING_UTIL_H__
+
+#include <cstdio>
+#include <cstring>
+#include <string>
+#include <type_traits>
+#include <iterator>
+#include <memory>
+#include <cinttypes>
+
+#include <typeinfo>
+
+namespace pg::util::stringUtil::__IN_fmtUtil {
+#if __cplusplus >= 201703L
+    using std::void_t;
+#else
+    template<typename...> using void_t = void;
+#endif
+
+    template <typename _Type, typename _Iter = void_t<>>
+    struct has_iterator : public std::false_type { };
+
+    template <typename _Type>
+    struct has_iterator<_Type, void_t<typename _Type::iterator>> : public std::true_type { };
+
+    // function-delarations
+    template <typename _First, typename _Second>
+    std::string transToString(const std::pair<_First, _Second> & ele, const std::string &);
+
+    template<typename _Type>
+    std::enable_if_t<has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string & limit);
+
+    template<typename _Type>
+    std::enable_if_t<!has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string &);
+
+    // function-definitions
+    inline std::string transToString(const bool & ele, const std::string &) {
+        return ele ? "true" : "false";
+    }
+
+    inline std::string transToString(const char & ele, const std::string &) {
+        return std::string() + ele;
+    }
+
+    // 按"%<limit><conv>"格式化, 结果可以任意长
+    template <typename _Type>
+    std::string sprintfToString(const std::string & limit, const char * conv, _Type ele) {
+        const std::string fmt = "%" + limit + conv;
+        const int len = std::snprintf(nullptr, 0, fmt.c_str(), ele);
+        if (len <= 0) return std::string();
+        std::string res(static_cast<std::size_t>(len) + 1, '\0');
+        std::snprintf(&res[0], res.size(), fmt.c_str(), ele);
+        res.pop_back(); // '\0'
+        return res;
+    }
+
+    inline std::string transToString(const std::int16_t & ele, const std::string & limit) {
+        return sprintfToString(limit, PRId16, ele);
+    }
+
+    inline std::string transToString(const std::uint16_t & ele, const std::string & limit) {
+        return sprintfToString(limit, PRIu16, ele);
+    }
+
+    inline std::string transToString(const std::uint8_t & ele, const std::string &) {
+        return transToString(static_cast<std::uint16_t>(ele), "");
+    }
+
+    inline std::string transToString(const std::int32_t & ele, const std::string & limit) {
+        return sprintfToString(limit, PRId32, ele);
+    }
+
+    inline std::string transToString(const std::uint32_t & ele, const std::string & limit) {
+        return sprintfToString(limit, PRIu32, ele);
+    }
+
+    inline std::string transToString(const std::int64_t & ele, const std::string & limit) {
+        return sprintfToString(limit, PRId64, ele);
+    }
+
+    inline std::string transToString(const std::uint64_t & ele, const std::string & limit) {
+        return sprintfToString(limit, PRIu64, ele);
+    }
+
+    inline std::string transToString(const float & ele, const std::string & limit) {
+        return sprintfToString(limit, "f", ele);
+    }
+
+    inline std::string transToString(const double & ele, const std::string & limit) {
+        return sprintfToString(limit, "lf", ele);
+    }
+
+    inline std::string transToString(const long double & ele, const std::string & limit) {
+        return sprintfToString(limit, "Lf", ele);
+    }
+
+    inline std::string transToString(const std::string & ele, const std::string & limit) {
+        return sprintfToString(limit, "s", ele.c_str());
+    }
+
+    inline std::string transToString(const char * ele, const std::string & limit) {
+        return sprintfToString(limit, "s", ele);
+    }
+
+    template <typename _First, typename _Second>
+    std::string transToString(const std::pair<_First, _Second> & ele, const std::string &) {
+        const std::string NULL_STRING;
+        return std::string()
+            .append(transToString(ele.first, NULL_STRING))
+            .append(" : ")
+            .append(transToString(ele.second, NULL_STRING));
+    }
+
+    // string, const char*
+    template<typename _Type>
+    std::enable_if_t<has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string & limit) {
+        typedef typename _Type::const_iterator Iter;
+        
+        const std::string NULL_STRING;
+        std::string res("[");
+
+        for (
+            Iter iter = ele.begin(), end = ele.end();
+            iter != end;
+            ++iter
+        )
+            res.append( transToString(*iter, NULL_STRING) ).append(", ");  // useless second-param
+
+        if (res.size() > 1) {
+            res.pop_back();
+            res.back() = ']';
+        } else {
+            res.push_back(']');
+        }
+        return res;
+    }
+
+    template<typename _Type>
+    std::enable_if_t<!has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string &) {  // temp-function to show
+        return "<default-string>";
+    }
+
+} // namespace pg::util::stringUtl::__IN_fmtUtil
+
+
+#endif
+
+#ifndef __FMT_UTILS_H__
+#define __FMT_UTILS_H__
+
+#include <vector>
+#include <string>
+#include <algorithm>
+
+namespace pg::util::stringUtil {
+    namespace __IN_fmtUtil {
+        // function-delaration(s)
+        std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> 
+            parseBracket(
+                const std::string & str, const char * leftBracket, const char * rightBracket);
+        
+        template<typename..._Args>
+        std::vector<std::string> parseArgs(
+            const std::vector<std::string>& limits, const _Args&... args);
+
+        template<typename _First, typename..._Args>
+        void __IN_parseArgs(
+            std::vector<std::string> & res, 
+            const std::vector<std::string>& limits, 
+            std::vector<std::string>::const_iterator & limStrIter,
+            const _First& fArg, const _Args&... args);
+
+        void __IN_parseArgs(
+            std::vector<std::string> & res, 
+            const std::vector<std::string> & limits, 
+            std::vector<std::string>::const_iterator & limStrIter);
+        
+        // function-definitions
+        template<typename..._Args>
+        std::vector<std::string> parseArgs(
+            const std::vector<std::string>& limits, const _Args&... args) {
+            std::vector<std::string> res;
+            std::vector<std::string>::const_iterator iter = limits.begin();
+            __IN_parseArgs(res, limits, iter, args...);
+
+            return res;
+        }
+
+        template<typename _First, typename..._Args>
+        void __IN_parseArgs(
+            std::vector<std::string> & res, 
+            const std::vector<std::string>& limits, 
+            std::vector<std::string>::const_iterator & limStrIter,
+            const _First& fArg, const _Args&... args
+            ) {
+            res.push_back(transToString(fArg, *limStrIter));
+            ++limStrIter;
+            if (limStrIter == limits.end()) return;
+            __IN_parseArgs(res, limits, limStrIter, args...);
+        }
+
+        inline void __IN_parseArgs(
+            std::vector<std::string> & res,
+            const std::vector<std::string>& limits,
+            std::vector<std::string>::const_iterator & limStrIter
+            ) { }
+
+        inline std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> 
+            parseBracket(
+                const std::string & str, const char * leftBracket, const char * rightBracket) {
+                
+                std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> res;
+
+                size_t pos = 0, npos = std::string::npos;
+                std::string::const_iterator begin = str.begin();
+                while (true) {
+                    size_t beginPos = str.find(leftBracket, pos);
+                    if (beginPos == npos) break;
+                    size_t endPos = str.find(rightBracket, beginPos);
+                    if (endPos == npos) break;
+                    res.push_back({begin + beginPos + 1, begin + endPos});
+                    pos = endPos;
+                }
+                return res;
+
+            }
+
+        template <typename _Res>
+        void pushStringIntoBracket(
+            _Res & res,
+            const std::string & fmt,
+            const std::vector<std::string> & contents,
+            const std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> & ranges,
+            const std::vector<int> & nos) {
+            res.append(fmt.begin(), ranges.front().first - 1);
+            const std::size_t cSize = contents.size();
+            const std::size_t nosSize = nos.size();
+            std::size_t idx = 0;
+            for (std::size_t i = 0; i + 1 < nosSize; ++i) {
+                idx = nos.at(i);
+                if (idx < cSize) res.append(contents.at(idx));
+                res.append(ranges.at(i).second + 1, ranges.at(i + 1).first - 1);
+            }
+            if ((idx = nos.back()) < cSize) res.append(contents.at(idx));
+            res.append(ranges.back().second + 1, fmt.end());
+        }
+
+    } // namespace __IN_fmtUtil
+
+
+    template<typename..._Args>
+    std::string format(const std::string & fmt, _Args&& ...args) {
+        typedef std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>::iterator Iter;
+        
+        std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>
+            contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
+        if (contentRangeInBracket.empty()) return fmt;
+
+        std::vector<std::string> limits;
+        std::vector<int> nos;
+        
+        for (
+            Iter iter = contentRangeInBracket.begin(), end = contentRangeInBracket.end();
+            iter != end; ++iter) {
+            
+            std::string::const_iterator partiIter =  std::find(iter->first, iter->second, ':');
+            nos.push_back(std::atoi(fmt.c_str() + (iter->first - fmt.begin())));
+            if (partiIter != iter->second)
+                limits.push_back(std::string().assign(partiIter + 1, iter->second));
+            else limits.emplace_back();
+        }
+        
+        std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
+
+        std::string res; res.append(fmt.begin(), contentRangeInBracket.front().first - 1);
+        const std::size_t cSize = contents.size();
+        const std::size_t nosSize = nos.size();
+        std::size_t idx = 0;
+        for (std::size_t i = 0; i + 1 < nosSize; ++i) {
+            idx = nos.at(i);
+            if (idx < cSize) res.append(contents.at(idx));
+            res.append(contentRangeInBracket.at(i).second + 1, contentRangeInBracket.at(i + 1).first - 1);
+        }
+        if ((idx = nos.back()) < cSize) res.append(contents.at(idx));
+        res.append(contentRangeInBracket.back().second + 1, fmt.end());
+
+        return res;
+    }
+
+    template<typename _Res, typename..._Args>
+    void formatAppend(_Res & res, const std::string & fmt, _Args&& ...args) {
+        typedef std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>::iterator Iter;
+        
+        std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>
+            contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
+        if (contentRangeInBracket.empty()) { res = fmt; return; }
+
+        std::vector<std::string> limits;
+        std::vector<int> nos;
+        
+        for (
+            Iter iter = contentRangeInBracket.begin(), end = contentRangeInBracket.end();
+            iter != end; ++iter) {
+            
+            std::string::const_iterator partiIter =  std::find(iter->first, iter->second, ':');
+            nos.push_back(std::atoi(fmt.c_str() + (iter->first - fmt.begin())));
+            if (partiIter != iter->second)
+                limits.push_back(std::string().assign(partiIter + 1, iter->second));
+            else limits.emplace_back();
+        }
+        
+        std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
+
+        __IN_fmtUtil::pushStringIntoBracket(res, fmt, contents, contentRangeInBracket, nos);
+    }
+
+} // namespace pg::util::stringUtil
+
+namespace pgfmt {
+    using ::pg::util::stringUtil::format;
+    using ::pg::util::stringUtil::formatAppend;
+}
+
+#endif
-- 
2.43.0


From c5215928f1ff651b095ed13d75dd2426f06d3ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 13/35] fix: pgfmt::format dropped an argument, or applied
 another one's width, unless placeholders were in order and as many

---
 src/pgdebug.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/pgdebug.h b/src/pgdebug.h
index 038e6c4..6f0e5d5 100755
--- a/src/pgdebug.h
+++ b/src/pgdebug.h
@@ -288,7 +288,7 @@ namespace pg::util::stringUtil {
             contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
         if (contentRangeInBracket.empty()) return fmt;
 
-        std::vector<std::string> limits;
+        std::vector<std::string> limits(sizeof...(args)); // 与参数一一对应
         std::vector<int> nos;
         
         for (
@@ -297,9 +297,8 @@ namespace pg::util::stringUtil {
             
             std::string::const_iterator partiIter =  std::find(iter->first, iter->second, ':');
             nos.push_back(std::atoi(fmt.c_str() + (iter->first - fmt.begin())));
-            if (partiIter != iter->second)
-                limits.push_back(std::string().assign(partiIter + 1, iter->second));
-            else limits.emplace_back();
+            if (partiIter != iter->second && nos.back() >= 0 && static_cast<std::size_t>(nos.back()) < limits.size())
+                limits[nos.back()].assign(partiIter + 1, iter->second);
         }
         
         std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
@@ -327,7 +326,7 @@ namespace pg::util::stringUtil {
             contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
         if (contentRangeInBracket.empty()) { res = fmt; return; }
 
-        std::vector<std::string> limits;
+        std::vector<std::string> limits(sizeof...(args)); // 与参数一一对应
         std::vector<int> nos;
         
         for (
@@ -336,9 +335,8 @@ namespace pg::util::stringUtil {
             
             std::string::const_iterator partiIter =  std::find(iter->first, iter->second, ':');
             nos.push_back(std::atoi(fmt.c_str() + (iter->first - fmt.begin())));
-            if (partiIter != iter->second)
-                limits.push_back(std::string().assign(partiIter + 1, iter->second));
-            else limits.emplace_back();
+            if (partiIter != iter->second && nos.back() >= 0 && static_cast<std::size_t>(nos.back()) < limits.size())
+                limits[nos.back()].assign(partiIter + 1, iter->second);
         }
         
         std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
-- 
2.43.0


From 7016e7ad3a6aa4e6c6316a128285de8011595020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 14/35] fix: <=, > and >= were evaluated as <

---
 src/infixExpr/ExprParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index a26097f..1b13dc6 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -83,11 +83,11 @@ ExprNode * ExprParser::parseCmp() {
         if (consumeToken(TokenType::LT))
             node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
         else if (consumeToken(TokenType::LE))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::LE, node, parseShift());
         else if (consumeToken(TokenType::GT))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::GT, node, parseShift());
         else if (consumeToken(TokenType::GE))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::GE, node, parseShift());
         else return node;
     }
     return nullptr;
-- 
2.43.0


From 24317f05a1148b0beda70e68b111dc9d44ccc775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 15/35] fix: a second == or != in a chain was not parsed

---
 src/infixExpr/ExprParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 1b13dc6..4f820d6 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -72,7 +72,7 @@ ExprNode * ExprParser::parseEqu() {
             node = m_pNodePool->newBinOpNode(TokenType::EQU, node, parseCmp());
         else if (consumeToken(TokenType::NEQU))
             node = m_pNodePool->newBinOpNode(TokenType::NEQU, node, parseCmp());
-        return node;
+        else return node;
     }
     return nullptr;
 }
-- 
2.43.0


From ebd063bb6bb713f9022533c1bf9798e927514974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 16/35] fix: % was parsed but not evaluated (assertion failure,
 or 0)

---
 src/infixExpr/ExprTree.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 5697f2f..7ac0d32 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -52,6 +52,12 @@ static Value binOpEvalCallback(ExprNode * node, bool peval) {
         lOpAssRAndReturn(mul);
     case TokenType::DIV :
         lOpAssRAndReturn(div);
+    case TokenType::MOD :
+        {
+            Value quotient;
+            left.modAssignAndQuotient(right, quotient);
+            return left;
+        }
     case TokenType::SHIFTLEFT :
         left.shiftLeftAssign(right.toU64());
         return left;
-- 
2.43.0


From 7acf4cf27977c038b06f154d223626970d27097b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 17/35] fix: x ** 0 was 0

---
 src/infixExpr/ExprTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 7ac0d32..2522538 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -67,7 +67,7 @@ static Value binOpEvalCallback(ExprNode * node, bool peval) {
     case TokenType::POW :
         // TODO: Opt it
         if (right.isZero()) {
-            return Value(0);
+            return Value(1);
         }
         {
             auto res = Value(1);
-- 
2.43.0


From 7652e2761131d2799d26c6d3500ac458ee238679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 18/35] fix: an expression ending in white space was never
 finished being read

---
 src/infixExpr/Token.h | 1 +
 src/infixExpr/fwd.h   | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 680c650..2182bf4 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -59,6 +59,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
     while (!stream.eof()) {
         // 跳过空白符
         utils::skipWhiteChar(stream);
+        if (stream.eof()) break;
 
         // 解析
         char ch = stream.get();
diff --git a/src/infixExpr/fwd.h b/src/infixExpr/fwd.h
index 5661529..177b329 100644
--- a/src/infixExpr/fwd.h
+++ b/src/infixExpr/fwd.h
@@ -113,7 +113,7 @@ template<typename STREAM>
 void skipWhiteChar(STREAM & stream) {
     // ' ' '\n' '\r' '\t'
     char ch = stream.peek();
-    while (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t') {
+    while (!stream.eof() && (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t')) {
         stream.get();
         ch = stream.peek();
     }
@@ -127,7 +127,7 @@ template<typename STREAM>
 void skipWhiteChar(STREAM & stream) {
     // ' ' '\n' '\r' '\t'
     char ch = stream.peek();
-    while (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t') {
+    while (!stream.eof() && (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t')) {
         stream.get();
         ch = stream.peek();
     }
-- 
2.43.0


From 2b248b42b43e88ee9f2f244f118811ee1a18b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 19/35] fix: only the first upper-case digit of a literal was
 accepted

---
 src/infixExpr/Token.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 2182bf4..c48ff68 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -222,7 +222,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     }
 
                     if (!onlyZero) {
-                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalBeforeDot.push_back(ch);
                         if (ch == '.') {
                             PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL;
@@ -231,7 +231,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     }
                 } else {
                     literalBeforeDot.push_back(ch);
-                    for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                    for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                         literalBeforeDot.push_back(ch);
                     if (ch == '.') {
                         stream.get();
-- 
2.43.0


From 56989e01431909ea35a20d44730e67c2cac88563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 20/35] fix: reading the digits after a literal's point
 swallowed the character that follows them

---
 src/infixExpr/Token.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index c48ff68..99a82e3 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -235,7 +235,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                         literalBeforeDot.push_back(ch);
                     if (ch == '.') {
                         stream.get();
-                        for (ch = std::tolower(stream.get()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalAfterDot.push_back(ch);
                     }
 
-- 
2.43.0


From 4323609d798eebb24c28390350e7a7fda6b4b2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 21/35] fix: a malformed expression crashed, or its error or
 unread rest was ignored; the status got an unregistered code

---
 src/eval.cpp                 | 14 ++++++++------
 src/infixExpr/ExprParser.cpp |  7 ++++++-
 src/infixExpr/ExprParser.h   | 10 ++++++----
 src/infixExpr/Token.h        | 31 +++++++++++++++++++------------
 4 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 434c1dd..c1719a6 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -10,18 +10,21 @@ using namespace pg::base;
 using namespace pgbn::expr;
 using namespace pgbn::infixExpr;
 
-static inline ExprNode * parseString(const StringArg &str, NodePool *nodePool) {
+static inline ExprNode * parseString(const StringArg &str, NodePool *nodePool, Status *status) {
     StringReadStream testSrc1Stream(str.data());
     ExprParser parser(testSrc1Stream, *Hooks::getInstance(), nodePool);
-    return parser.parse();
+    auto *root = parser.parse();
+    if (!root && status != Status::getInstance()) { // 线程的Status已由tokenizer/parser设置
+        (*status) = parser.errCode();
+    }
+    return root;
 }
 
 Int pgbn::expr::eval(const StringArg &expr, Status *status) {
     if (!status) status = Status::getInstance();
     NodePool nodePool;
-    auto *root = parseString(expr, &nodePool);
+    auto *root = parseString(expr, &nodePool, status);
     if (!root) {
-        (*status) = ~ErrCode::SUCCESS; // FIXME: Temp
         return Int{};
     }
     return BigInteger(std::make_unique<BigIntegerImpl>(root->evalCallback(root, false)));
@@ -33,9 +36,8 @@ Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
     if (!status) status = Status::getInstance();
 
     NodePool nodePool;
-    auto *root = parseString(expr, &nodePool);
+    auto *root = parseString(expr, &nodePool, status);
     if (!root) {
-        (*status) = ~ErrCode::SUCCESS; // FIXME: Temp
         return Int{};
     }
 
diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 4f820d6..681bf65 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -23,7 +23,10 @@ ExprParser::ExprParser() = default;
 
 // public functions
 ExprNode * ExprParser::parse() {
-    return parseExpr();
+    CKERR();
+    Node * root = parseExpr(); CKERR();
+    if (m_tokens[m_currTokenIndex].type != TokenType::INVALID) BADTOK(TokenType::INVALID, "expected end of expression");
+    return root;
 }
 
 // private functions
@@ -176,6 +179,7 @@ ExprNode * ExprParser::parsePrim() {
         if (!consumeToken(TokenType::LEFTBRACKET)) BADTOK(TokenType::LEFTBRACKET, "Expected '()' To Call Function");
         return parseFuncCall(temp.pSymbol);
     }
+    BADTOK(TokenType::LITERAL, "expected an operand");
     return nullptr;
 }
 
@@ -205,6 +209,7 @@ bool ExprParser::hasNextToken() const {
 }
 
 void ExprParser::badToken(TokenType type, const StringArg & msg) const {
+    if (m_errCode != ErrCode::SUCCESS) return; // 只报告第一个错误
     m_errCode = ErrCode::PARSE_INFIXEXPR_BAD_TOKEN;
     PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BAD_TOKEN;
     std::any context = std::make_tuple(type, std::string(msg.data(), msg.size()));
diff --git a/src/infixExpr/ExprParser.h b/src/infixExpr/ExprParser.h
index 85f554e..4e4afad 100644
--- a/src/infixExpr/ExprParser.h
+++ b/src/infixExpr/ExprParser.h
@@ -26,7 +26,8 @@ public:
     ExprParser & operator=(const ExprParser &) = delete;
     ExprParser & operator=(ExprParser &&) = delete;
 
-    Node * parse();
+    Node * parse(); // 表达式不合法时返回nullptr, 错误码见errCode()
+    Enum errCode() const { return m_errCode; }
 
 private:
     Node * parseExpr();
@@ -51,22 +52,23 @@ private:
     void badToken(TokenType type, const StringArg & msg) const;
 
 private:
+    mutable Enum m_errCode = ErrCode::SUCCESS; // 第一个错误
     std::vector<Token> m_tokens;
     SizeType m_currTokenIndex = 0;
     NodePool * m_pNodePool = nullptr;
-    mutable Enum m_errCode = ErrCode::SUCCESS;
 };
 
 template <typename S>
 inline ExprParser::ExprParser(
     S & stream, const Hooks & hooks, NodePool * pNodePool
-) : m_tokens(tokenizer(stream, hooks)), m_pNodePool(pNodePool) {
+) : m_tokens(tokenizer(stream, hooks, &m_errCode)), m_pNodePool(pNodePool) {
 
 }
 
 template <typename S>
 void ExprParser::init(S & stream, const Hooks & hooks, NodePool * pNodePool) {
-    m_tokens = tokenizer(stream, hooks);
+    m_errCode = ErrCode::SUCCESS;
+    m_tokens = tokenizer(stream, hooks, &m_errCode);
     m_currTokenIndex = 0;
     m_pNodePool = pNodePool;
 }
diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 99a82e3..66440ac 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -42,10 +42,10 @@ enum class TokenType : Enum {
 struct ExprNode;
 
 struct Token {
-    TokenType type;
+    TokenType type = TokenType::INVALID;
     SymbolTable::Symbol * pSymbol = nullptr;
     Value val;
-    ExprNode * nptr;
+    ExprNode * nptr = nullptr;
 #ifdef PGBN_DEBUG
     std::string debugInfo;
 #endif
@@ -53,9 +53,16 @@ struct Token {
 
 // FIXME: Support SelfDefined-Hooks
 template<typename STREAM>
-inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // FIXME: vector<Token> -> Lazy-Calcu(getNextToken)
+inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks, Enum * err = nullptr) { // FIXME: vector<Token> -> Lazy-Calcu(getNextToken)
     std::vector<Token> res;
 
+    // 出错: 设置错误码, 未完成的Token作为终止符(INVALID)
+    const auto fail = [&res, err](Enum code) {
+        res.back() = Token{};
+        PGBN_GetGlobalStatus() = code;
+        if (err) *err = code;
+    };
+
     while (!stream.eof()) {
         // 跳过空白符
         utils::skipWhiteChar(stream);
@@ -162,7 +169,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                 tokenType = TokenType::EQU;
                 SET_TOKEN_DEBUG_INFO("==");
             } else {
-                PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_EQU_INVALID;
+                fail(ErrCode::PARSE_INFIXEXPR_EQU_INVALID);
                 return res;
             }
             break;
@@ -187,7 +194,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
             SET_TOKEN_DEBUG_INFO(":");
             break;
         default :
-            if (std::isdigit(ch)) { // 字面量
+            if (std::isdigit(static_cast<unsigned char>(ch))) { // 字面量
                 int radix = 10;
                 std::string literalBeforeDot;
                 std::string literalAfterDot;
@@ -225,7 +232,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                         for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalBeforeDot.push_back(ch);
                         if (ch == '.') {
-                            PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL;
+                            fail(ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL);
                             return res;
                         }
                     }
@@ -242,18 +249,18 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                 }
 
                 if (!(radix >= 2 && radix <= 36)) {
-                    PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_RADIX_INVALID;
+                    fail(ErrCode::PARSE_INFIXEXPR_RADIX_INVALID);
                     return res;
                 }
 
                 tokenType = TokenType::LITERAL;
                 tokenVal = Value{};
                 if (!hooks.literal2Value || !hooks.literal2Value(tokenVal, radix, literalBeforeDot, literalAfterDot)) {
-                    PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR;
+                    fail(ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR);
                     return res;
                 }
                 SET_TOKEN_DEBUG_INFO(pgfmt::format("Literval(Base {0}) : {1}.{2} (Value : {3})", radix, literalBeforeDot, literalAfterDot, tokenVal));
-            } else if (std::isalpha(ch) || ch == '_') { // 内建常量或内建函数
+            } else if (std::isalpha(static_cast<unsigned char>(ch)) || ch == '_') { // 内建常量或内建函数
                 std::string symbolName;
                 symbolName.push_back(ch);
 
@@ -262,13 +269,13 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
 
                 SymbolTable::Symbol * pSymbol = SymbolTable::getInstance()->get(symbolName);
                 if (pSymbol == nullptr) { // UndefinedSymbol
-                    PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_SYMBOL_UNDEFINED;
+                    fail(ErrCode::PARSE_INFIXEXPR_SYMBOL_UNDEFINED);
                     return res;
                 } else {
                     if (pSymbol->is<Func>()) tokenType = TokenType::BUILTINFUNC;
                     else if (pSymbol->is<Value>()) tokenType = TokenType::BUILTINCONSTANT;
                     else { // InvalidBuiltinSymbol
-                        PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BUILTIN_SYMBOL_INVALID;
+                        fail(ErrCode::PARSE_INFIXEXPR_BUILTIN_SYMBOL_INVALID);
                         return res;
                     }
                     tokenPSymbol = pSymbol;
@@ -279,7 +286,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     *tokenPSymbol
                 ));
             } else {
-                PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_CHAR_INVALID;
+                fail(ErrCode::PARSE_INFIXEXPR_CHAR_INVALID);
                 return res;
             }
             break;
-- 
2.43.0


From a9d933fc61a20e3d396988558f75d76e81c5b9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 22/35] fix: eval and peval read past the end of a string view
 that is not null-terminated

---
 src/eval.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index c1719a6..29b37a7 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -11,7 +11,8 @@ using namespace pgbn::expr;
 using namespace pgbn::infixExpr;
 
 static inline ExprNode * parseString(const StringArg &str, NodePool *nodePool, Status *status) {
-    StringReadStream testSrc1Stream(str.data());
+    const std::string source(str.data(), str.size()); // str不一定以'\0'结尾
+    StringReadStream testSrc1Stream(source);
     ExprParser parser(testSrc1Stream, *Hooks::getInstance(), nodePool);
     auto *root = parser.parse();
     if (!root && status != Status::getInstance()) { // 线程的Status已由tokenizer/parser设置
-- 
2.43.0


From 499c129f970e882a040fcff85f29fb48a9e51385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 23/35] fix: a builtin function was called with the wrong
 number of arguments; that error code was not registered

---
 src/errInfos.cpp             | 3 ++-
 src/infixExpr/ExprParser.cpp | 7 +++++++
 src/infixExpr/ExprTree.cpp   | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/errInfos.cpp b/src/errInfos.cpp
index 24c02c7..64e0fe5 100644
--- a/src/errInfos.cpp
+++ b/src/errInfos.cpp
@@ -45,7 +45,8 @@ const ErrInfo errInfos[] = {
     { ErrCode::PARSE_INFIXEXPR_RADIX_INVALID          , "[PGBN-Status: Error]Radix Invalid(Requires 2~36)"           , pgbn::detail::debugPrint        },
     { ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR      , "[PGBN-Status: Error]Parse Literal To Number Error"          , pgbn::detail::debugPrint        },
     { ErrCode::PARSE_INFIXEXPR_EQU_INVALID            , "[PGBN-Status: Error]Expected =="                            , pgbn::detail::debugPrint        },
-    { ErrCode::PARSE_INFIXEXPR_BAD_TOKEN              , "[PGBN-Status: Error]Bad Token"                              , pgbn::detail::debugPrint        }
+    { ErrCode::PARSE_INFIXEXPR_BAD_TOKEN              , "[PGBN-Status: Error]Bad Token"                              , pgbn::detail::debugPrint        },
+    { ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH, "[PGBN-Status: Error]Wrong Number Of Arguments To Builtin Function", pgbn::detail::debugPrint  }
 }; 
 const SizeType errInfoCount = sizeof(errInfos) / sizeof(*errInfos);
 
diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 681bf65..40819ed 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -189,6 +189,13 @@ ExprNode * ExprParser::parseFuncCall(SymbolTable::Symbol * symbol) {
         if (argNodes.size() > 0 && !consumeToken(TokenType::COMMA)) BADTOK(TokenType::COMMA, "Expected ','");
         argNodes.push_back(parseExpr());
     }
+    CKERR();
+    const int argCount = symbol->as<Func>().argCount;
+    if (argCount != -1 && static_cast<SizeType>(argCount) != argNodes.size()) {
+        m_errCode = ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH;
+        PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH;
+        return nullptr;
+    }
     return m_pNodePool->newFunctionCallNode(symbol, std::move(argNodes));
 }
 
diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 2522538..292ceb4 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -126,7 +126,7 @@ static Value valEvalCallback(ExprNode * node, bool) {
 static Value builtinFuncEvalCallback(ExprNode * node, bool peval) {
     PGZXB_DEBUG_ASSERT(node->nodeType == ExprNode::NodeType::BUILTINFUNC);
     Func func = node->symbol->as<Func>();
-    if (func.argCount != -1 && static_cast<SizeType>(func.argCount) != node->children.size()) PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH;
+    PGZXB_DEBUG_ASSERT(func.argCount == -1 || static_cast<SizeType>(func.argCount) == node->children.size());
     PGZXB_DEBUG_ASSERT(!!func.nativeCall);
     std::vector<Value> args;
     for (auto * ch : node->children) { 
-- 
2.43.0


From 48765f8dda5d60660cae462c52fcdfc64d0a68c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 24/35] fix: an exception thrown by a builtin function reached
 peval's caller as a broken promise

---
 src/infixExpr/ExprTree.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 292ceb4..2a02f98 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -139,8 +139,12 @@ static void pevalTask(ExprNode * node) {
     // std::ostringstream oss;
     // oss << std::this_thread::get_id();
     // std::cerr << pgfmt::format("Thread#{0} node#{1} start\n", oss.str(), (std::uint64_t)node );
-    auto temp = node->evalCallback(node, true);
-    node->valPromise.set_value(temp);
+    try {
+        auto temp = node->evalCallback(node, true);
+        node->valPromise.set_value(temp);
+    } catch (...) {
+        node->valPromise.set_exception(std::current_exception()); // 由等待该结点的一方(最终为peval的调用者)重新抛出
+    }
     // std::cerr << pgfmt::format("Thread#{0} node#{1}: peval = {2}\n", oss.str(),
     //     (std::uint64_t)node, temp.cmp(INT64_MAX) == 1 ? temp.toString(10).substr(0, 50).append("...") : temp.toString(10));
 }
-- 
2.43.0


From 6b7f647f4a93d2affb2be84b86330051b39e668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 25/35] fix: peval evaluated both branches of a conditional

---
 src/eval.cpp               | 27 ++++++++++++++++-----------
 src/infixExpr/ExprTree.cpp |  3 ++-
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 29b37a7..f8aa99c 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -44,22 +44,27 @@ Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
 
     // Topological sort tasks & Async run tasks
     parallel::ThreadPool threadPool(threads);
-    const auto N = nodePool.count();
+    // 条件表达式的两个分支不作为任务(选中的分支由条件结点求值), 故只考虑从根结点出发、不经过分支的结点
+    constexpr auto NO_PARENT = static_cast<std::uint32_t>(-1);
     std::queue<std::uint32_t> q;
-    std::vector<std::uint32_t> parents(N);
-    std::vector<std::uint32_t> childCnt(N);
+    std::vector<std::uint32_t> parents(nodePool.count(), NO_PARENT);
+    std::vector<std::uint32_t> childCnt(nodePool.count());
+    std::vector<const ExprNode *> tasks{ root };
 
-    for (std::uint32_t i = 0; i < N; ++i) {
-        auto * node = nodePool.get(i);
+    for (std::size_t i = 0; i < tasks.size(); ++i) {
+        const auto * node = tasks[i];
         const auto & children = node->children;
-        if (children.size() == 0) q.push(i);
-        childCnt[i] = children.size();
-        for (const auto * child : children) {
-            PGZXB_DEBUG_ASSERT(child->indexInPool < N);
-            parents[child->indexInPool] = i;
+        const std::uint32_t childrenToRun = node->nodeType == TokenType::QMARK ? 1 : children.size();
+        if (childrenToRun == 0) q.push(node->indexInPool);
+        childCnt[node->indexInPool] = childrenToRun;
+        for (std::uint32_t j = 0; j < childrenToRun; ++j) {
+            PGZXB_DEBUG_ASSERT(children[j]->indexInPool < nodePool.count());
+            parents[children[j]->indexInPool] = node->indexInPool;
+            tasks.push_back(children[j]);
         }
     }
 
+    const auto N = tasks.size();
     std::uint32_t cnt = 0;
     std::vector<std::future<void>> currLevelFu;
     while (cnt != N) {
@@ -69,7 +74,7 @@ Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
             auto * child = nodePool.get(childIndex);
             q.pop();
             currLevelFu.push_back(threadPool.addTask(child->pevalTask, child));
-            if (--childCnt[parents[childIndex]] == 0) {
+            if (parents[childIndex] != NO_PARENT && --childCnt[parents[childIndex]] == 0) {
                 q.push(parents[childIndex]);
             }
         }
diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 2a02f98..24e521b 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -14,7 +14,8 @@ inline static Value eval(ExprNode * node, bool peval) {
 static Value ifElseNodeEvalCallback(ExprNode * node, bool peval) {
     PGZXB_DEBUG_ASSERT(node->children.size() == 3);
     auto & ch = node->children;
-    return !eval(ch[0], peval).isZero() ? eval(ch[1], peval) : eval(ch[2], peval);
+    // 只对选中的分支求值(并行求值时分支也不作为任务)
+    return !eval(ch[0], peval).isZero() ? eval(ch[1], false) : eval(ch[2], false);
 }
 
 static Value binOpEvalCallback(ExprNode * node, bool peval) {
-- 
2.43.0


From 55c5ea9403c2e46f51d7a45896f075661c7e9486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 26/35] fix: pgbn_Status_GetGlobalInstance's result was shared
 by all threads and redirected to the last caller's status

---
 c/src/pgbn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/pgbn.cpp b/c/src/pgbn.cpp
index ef690e8..f9d5a03 100644
--- a/c/src/pgbn.cpp
+++ b/c/src/pgbn.cpp
@@ -19,7 +19,7 @@ struct pgbn_BigInteger_t {
 
 // pgbn::Status
 pgbn_Status_t * pgbn_Status_GetGlobalInstance() {
-    static pgbn_Status_t ins;
+    static thread_local pgbn_Status_t ins; // 与pgbn::Status::getInstance()一致, 每线程一个
     ins.status = pgbn::Status::getInstance();
     return &ins; 
 }
-- 
2.43.0


From 479ff72b86b37b9a065443af3469574d9a30200e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:01 +0000
Subject: [PATCH 27/35] fix: pgbn_BigInteger_GetUInt64 reported every value as
 an overflow

---
 c/src/pgbn.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/c/src/pgbn.cpp b/c/src/pgbn.cpp
index f9d5a03..28c45a9 100644
--- a/c/src/pgbn.cpp
+++ b/c/src/pgbn.cpp
@@ -168,10 +168,9 @@ uint64_t pgbn_BigInteger_GetUInt64(pgbn_BigInteger_t * b) {
 }
 
 uint64_t pgbn_BigInteger_GetUInt64WithChecking(pgbn_BigInteger_t * b, bool * ok) {
-    if (
-        pgbn_BigInteger_CmpWithI64(b, std::numeric_limits<std::uint64_t>::max()) > 0 ||
-        pgbn_BigInteger_CmpWithI64(b, std::numeric_limits<std::uint64_t>::min()) < 0
-    ) {
+    pgbn::BigIntegerImpl high(*b->impl);
+    high.shiftRightAssign(64);
+    if (b->impl->flagsContains(pgbn::BNFlag::NEGATIVE) || !high.isZero()) {
         *pgbn::Status::getInstance() = pgbn::ErrCode::ARITHMETIC_OVERFLOW;
         ok && (*ok = false);
         return std::numeric_limits<std::uint64_t>::max();
-- 
2.43.0


From 3245cd763e9a39248771642850f8ba3a75d28491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 28/35] fix: an int64 on the left of > was compared as <

---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 6ee4f47..d867276 100755
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -332,7 +332,7 @@ bool pgbn::operator<= (std::int64_t left, const BigInteger & right)       { retu
 
 bool pgbn::operator>  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) > 0;  }
 bool pgbn::operator>  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) > 0;  }
-bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) > 0;  }
+bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) < 0;  }
 
 bool pgbn::operator>= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) >= 0; }
 bool pgbn::operator>= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) >= 0; }
-- 
2.43.0


From 05c9fb24fc379c9a0ea4cd22e92cae730204c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:57 +0000
Subject: [PATCH 29/35] fix: formatAppend replaced the text instead of
 appending when the format has no placeholder

---
 src/pgdebug.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pgdebug.h b/src/pgdebug.h
index 6f0e5d5..6c0b7ac 100755
--- a/src/pgdebug.h
+++ b/src/pgdebug.h
@@ -324,7 +324,7 @@ namespace pg::util::stringUtil {
         
         std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>
             contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
-        if (contentRangeInBracket.empty()) { res = fmt; return; }
+        if (contentRangeInBracket.empty()) { res.append(fmt); return; }
 
         std::vector<std::string> limits(sizeof...(args)); // 与参数一一对应
         std::vector<int> nos;
-- 
2.43.0


From 1f49012ea9afe5384a3dd4c71c600557f266379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:23 +0000
Subject: [PATCH 30/35] fix: publish the cached index before the flag that says
 it is valid

---
 src/BigIntegerImpl.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index f9f4f4e..fbcb556 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -2,6 +2,7 @@
 #include "BigIntegerImpl.h"
 #include "errInfos.h"
 
+#include <atomic>
 #include <charconv>
 #include <limits>
 #include <cstring>
@@ -1677,14 +1678,20 @@ void BigIntegerImpl::beginWrite() {
 SizeType BigIntegerImpl::getFirstNonZeroU32Index() const {
 
     // 如果求过且没被修改过直接返回
-    if (flagsContains(BNFlag::FIRST_NZ_U32_INDEX_CALCUED))
+    if (flagsContains(BNFlag::FIRST_NZ_U32_INDEX_CALCUED)) {
+        std::atomic_thread_fence(std::memory_order_acquire);
         return m_firstNotZeroU32IndexLazy;
+    }
 
     // 重新求值并设置标志位
     auto iter = std::find_if(m_mag.begin(), m_mag.end(), [] (std::uint32_t e) { return e != 0; });
     
+    // 先写下标再置标志位, 否则其他只读线程可能看到标志位却读到旧下标
+    const SizeType index = iter - m_mag.begin();
+    m_firstNotZeroU32IndexLazy = index;
+    std::atomic_thread_fence(std::memory_order_release);
     detail::setBits(m_flags, BNFlag::FIRST_NZ_U32_INDEX_CALCUED);
-    return m_firstNotZeroU32IndexLazy = (iter - m_mag.begin());
+    return index;
 }
 
 void BigIntegerImpl::setFlagsToPositive() {
-- 
2.43.0


From e49f09b6299eee06df73356a254559d11d8b60ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:00 +0000
Subject: [PATCH 31/35] fix: a quotient or remainder object kept the cached
 index of its earlier value

---
 src/BigIntegerImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index fbcb556..504331d 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1558,6 +1558,8 @@ void BigIntegerImpl::knuthDivImpl(BigIntegerImpl & q, BigIntegerImpl & r, const
     }
 
     // init result-q, result-r
+    q.beginWrite(); // free-cache
+    r.beginWrite(); // free-cache
     q.setFlagsToPositive();
     r.setFlagsToPositive();
 
-- 
2.43.0


From f6a48149f43d9bf41cb0854de9a334145cc8e471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:47 +0000
Subject: [PATCH 32/35] fix: pgdebug.h keeps its original line endings (an
 earlier fix commit had converted them)

---
 src/pgdebug.h | 708 +++++++++++++++++++++++++-------------------------
 1 file changed, 354 insertions(+), 354 deletions(-)

diff --git a/src/pgdebug.h b/src/pgdebug.h
index 6c0b7ac..e3869b3 100755
--- a/src/pgdebug.h
+++ b/src/pgdebug.h
@@ -1,354 +1,354 @@
-//
-// Created by PGZXB on 2021/4/21.
-//
-#ifndef PGDEBUG_H
-#define PGDEBUG_H
-
-#define PGZXB_PASS (void(0))
-#define PGZXB_UNUSED(val) (void(val))
-
-#if defined(PGZXB_DEBUG)
-
-#include <bitset>
-#include <iostream>
-#define PGZXB_DEBUG_INFO_HEADER "[DEBUG]In " << __FILE__ << " in " << __func__ << " at " << __LINE__ << " : "
-#define PGZXB_DEBUG_Print(msg) std::cout << PGZXB_DEBUG_INFO_HEADER << (msg) << "\n"
-#define PGZXB_DEBUG_PrintVar(val) std::cout << PGZXB_DEBUG_INFO_HEADER << #val" : " << (val) << "\n"
-#define PGZBX_DEBUG_PrintBin(val) std::cout << PGZXB_DEBUG_INFO_HEADER << #val" : " << std::bitset<sizeof(val) * 8>(val) << "\n"
-#define PGZXB_DEBUG_CallFunc(func) PGZXB_DEBUG_PrintVar(func)
-
-#else
-
-#define PGZXB_DEBUG_INFO_HEADER ""
-#define PGZXB_DEBUG_Print(msg) PGZXB_UNUSED(msg)
-#define PGZXB_DEBUG_PrintVar(val) PGZXB_UNUSED(val)
-#define PGZBX_DEBUG_PrintBin(val) PGZXB_UNUSED(val)
-#define PGZXB_DEBUG_CallFunc(func) PGZXB_UNUSED(func)
-
-#endif
-
-#endif // PGDEBUG_H
-
-#ifndef __TOSTRING_UTIL_H__
-#define __TOSTRING_UTIL_H__
-
-#include <cstdio>
-#include <cstring>
-#include <string>
-#include <type_traits>
-#include <iterator>
-#include <memory>
-#include <cinttypes>
-
-#include <typeinfo>
-
-namespace pg::util::stringUtil::__IN_fmtUtil {
-#if __cplusplus >= 201703L
-    using std::void_t;
-#else
-    template<typename...> using void_t = void;
-#endif
-
-    template <typename _Type, typename _Iter = void_t<>>
-    struct has_iterator : public std::false_type { };
-
-    template <typename _Type>
-    struct has_iterator<_Type, void_t<typename _Type::iterator>> : public std::true_type { };
-
-    // function-delarations
-    template <typename _First, typename _Second>
-    std::string transToString(const std::pair<_First, _Second> & ele, const std::string &);
-
-    template<typename _Type>
-    std::enable_if_t<has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string & limit);
-
-    template<typename _Type>
-    std::enable_if_t<!has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string &);
-
-    // function-definitions
-    inline std::string transToString(const bool & ele, const std::string &) {
-        return ele ? "true" : "false";
-    }
-
-    inline std::string transToString(const char & ele, const std::string &) {
-        return std::string() + ele;
-    }
-
-    // 按"%<limit><conv>"格式化, 结果可以任意长
-    template <typename _Type>
-    std::string sprintfToString(const std::string & limit, const char * conv, _Type ele) {
-        const std::string fmt = "%" + limit + conv;
-        const int len = std::snprintf(nullptr, 0, fmt.c_str(), ele);
-        if (len <= 0) return std::string();
-        std::string res(static_cast<std::size_t>(len) + 1, '\0');
-        std::snprintf(&res[0], res.size(), fmt.c_str(), ele);
-        res.pop_back(); // '\0'
-        return res;
-    }
-
-    inline std::string transToString(const std::int16_t & ele, const std::string & limit) {
-        return sprintfToString(limit, PRId16, ele);
-    }
-
-    inline std::string transToString(const std::uint16_t & ele, const std::string & limit) {
-        return sprintfToString(limit, PRIu16, ele);
-    }
-
-    inline std::string transToString(const std::uint8_t & ele, const std::string &) {
-        return transToString(static_cast<std::uint16_t>(ele), "");
-    }
-
-    inline std::string transToString(const std::int32_t & ele, const std::string & limit) {
-        return sprintfToString(limit, PRId32, ele);
-    }
-
-    inline std::string transToString(const std::uint32_t & ele, const std::string & limit) {
-        return sprintfToString(limit, PRIu32, ele);
-    }
-
-    inline std::string transToString(const std::int64_t & ele, const std::string & limit) {
-        return sprintfToString(limit, PRId64, ele);
-    }
-
-    inline std::string transToString(const std::uint64_t & ele, const std::string & limit) {
-        return sprintfToString(limit, PRIu64, ele);
-    }
-
-    inline std::string transToString(const float & ele, const std::string & limit) {
-        return sprintfToString(limit, "f", ele);
-    }
-
-    inline std::string transToString(const double & ele, const std::string & limit) {
-        return sprintfToString(limit, "lf", ele);
-    }
-
-    inline std::string transToString(const long double & ele, const std::string & limit) {
-        return sprintfToString(limit, "Lf", ele);
-    }
-
-    inline std::string transToString(const std::string & ele, const std::string & limit) {
-        return sprintfToString(limit, "s", ele.c_str());
-    }
-
-    inline std::string transToString(const char * ele, const std::string & limit) {
-        return sprintfToString(limit, "s", ele);
-    }
-
-    template <typename _First, typename _Second>
-    std::string transToString(const std::pair<_First, _Second> & ele, const std::string &) {
-        const std::string NULL_STRING;
-        return std::string()
-            .append(transToString(ele.first, NULL_STRING))
-            .append(" : ")
-            .append(transToString(ele.second, NULL_STRING));
-    }
-
-    // string, const char*
-    template<typename _Type>
-    std::enable_if_t<has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string & limit) {
-        typedef typename _Type::const_iterator Iter;
-        
-        const std::string NULL_STRING;
-        std::string res("[");
-
-        for (
-            Iter iter = ele.begin(), end = ele.end();
-            iter != end;
-            ++iter
-        )
-            res.append( transToString(*iter, NULL_STRING) ).append(", ");  // useless second-param
-
-        if (res.size() > 1) {
-            res.pop_back();
-            res.back() = ']';
-        } else {
-            res.push_back(']');
-        }
-        return res;
-    }
-
-    template<typename _Type>
-    std::enable_if_t<!has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string &) {  // temp-function to show
-        return "<default-string>";
-    }
-
-} // namespace pg::util::stringUtl::__IN_fmtUtil
-
-
-#endif
-
-#ifndef __FMT_UTILS_H__
-#define __FMT_UTILS_H__
-
-#include <vector>
-#include <string>
-#include <algorithm>
-
-namespace pg::util::stringUtil {
-    namespace __IN_fmtUtil {
-        // function-delaration(s)
-        std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> 
-            parseBracket(
-                const std::string & str, const char * leftBracket, const char * rightBracket);
-        
-        template<typename..._Args>
-        std::vector<std::string> parseArgs(
-            const std::vector<std::string>& limits, const _Args&... args);
-
-        template<typename _First, typename..._Args>
-        void __IN_parseArgs(
-            std::vector<std::string> & res, 
-            const std::vector<std::string>& limits, 
-            std::vector<std::string>::const_iterator & limStrIter,
-            const _First& fArg, const _Args&... args);
-
-        void __IN_parseArgs(
-            std::vector<std::string> & res, 
-            const std::vector<std::string> & limits, 
-            std::vector<std::string>::const_iterator & limStrIter);
-        
-        // function-definitions
-        template<typename..._Args>
-        std::vector<std::string> parseArgs(
-            const std::vector<std::string>& limits, const _Args&... args) {
-            std::vector<std::string> res;
-            std::vector<std::string>::const_iterator iter = limits.begin();
-            __IN_parseArgs(res, limits, iter, args...);
-
-            return res;
-        }
-
-        template<typename _First, typename..._Args>
-        void __IN_parseArgs(
-            std::vector<std::string> & res, 
-            const std::vector<std::string>& limits, 
-            std::vector<std::string>::const_iterator & limStrIter,
-            const _First& fArg, const _Args&... args
-            ) {
-            res.push_back(transToString(fArg, *limStrIter));
-            ++limStrIter;
-            if (limStrIter == limits.end()) return;
-            __IN_parseArgs(res, limits, limStrIter, args...);
-        }
-
-        inline void __IN_parseArgs(
-            std::vector<std::string> & res,
-            const std::vector<std::string>& limits,
-            std::vector<std::string>::const_iterator & limStrIter
-            ) { }
-
-        inline std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> 
-            parseBracket(
-                const std::string & str, const char * leftBracket, const char * rightBracket) {
-                
-                std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> res;
-
-                size_t pos = 0, npos = std::string::npos;
-                std::string::const_iterator begin = str.begin();
-                while (true) {
-                    size_t beginPos = str.find(leftBracket, pos);
-                    if (beginPos == npos) break;
-                    size_t endPos = str.find(rightBracket, beginPos);
-                    if (endPos == npos) break;
-                    res.push_back({begin + beginPos + 1, begin + endPos});
-                    pos = endPos;
-                }
-                return res;
-
-            }
-
-        template <typename _Res>
-        void pushStringIntoBracket(
-            _Res & res,
-            const std::string & fmt,
-            const std::vector<std::string> & contents,
-            const std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> & ranges,
-            const std::vector<int> & nos) {
-            res.append(fmt.begin(), ranges.front().first - 1);
-            const std::size_t cSize = contents.size();
-            const std::size_t nosSize = nos.size();
-            std::size_t idx = 0;
-            for (std::size_t i = 0; i + 1 < nosSize; ++i) {
-                idx = nos.at(i);
-                if (idx < cSize) res.append(contents.at(idx));
-                res.append(ranges.at(i).second + 1, ranges.at(i + 1).first - 1);
-            }
-            if ((idx = nos.back()) < cSize) res.append(contents.at(idx));
-            res.append(ranges.back().second + 1, fmt.end());
-        }
-
-    } // namespace __IN_fmtUtil
-
-
-    template<typename..._Args>
-    std::string format(const std::string & fmt, _Args&& ...args) {
-        typedef std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>::iterator Iter;
-        
-        std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>
-            contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
-        if (contentRangeInBracket.empty()) return fmt;
-
-        std::vector<std::string> limits(sizeof...(args)); // 与参数一一对应
-        std::vector<int> nos;
-        
-        for (
-            Iter iter = contentRangeInBracket.begin(), end = contentRangeInBracket.end();
-            iter != end; ++iter) {
-            
-            std::string::const_iterator partiIter =  std::find(iter->first, iter->second, ':');
-            nos.push_back(std::atoi(fmt.c_str() + (iter->first - fmt.begin())));
-            if (partiIter != iter->second && nos.back() >= 0 && static_cast<std::size_t>(nos.back()) < limits.size())
-                limits[nos.back()].assign(partiIter + 1, iter->second);
-        }
-        
-        std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
-
-        std::string res; res.append(fmt.begin(), contentRangeInBracket.front().first - 1);
-        const std::size_t cSize = contents.size();
-        const std::size_t nosSize = nos.size();
-        std::size_t idx = 0;
-        for (std::size_t i = 0; i + 1 < nosSize; ++i) {
-            idx = nos.at(i);
-            if (idx < cSize) res.append(contents.at(idx));
-            res.append(contentRangeInBracket.at(i).second + 1, contentRangeInBracket.at(i + 1).first - 1);
-        }
-        if ((idx = nos.back()) < cSize) res.append(contents.at(idx));
-        res.append(contentRangeInBracket.back().second + 1, fmt.end());
-
-        return res;
-    }
-
-    template<typename _Res, typename..._Args>
-    void formatAppend(_Res & res, const std::string & fmt, _Args&& ...args) {
-        typedef std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>::iterator Iter;
-        
-        std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>
-            contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
-        if (contentRangeInBracket.empty()) { res.append(fmt); return; }
-
-        std::vector<std::string> limits(sizeof...(args)); // 与参数一一对应
-        std::vector<int> nos;
-        
-        for (
-            Iter iter = contentRangeInBracket.begin(), end = contentRangeInBracket.end();
-            iter != end; ++iter) {
-            
-            std::string::const_iterator partiIter =  std::find(iter->first, iter->second, ':');
-            nos.push_back(std::atoi(fmt.c_str() + (iter->first - fmt.begin())));
-            if (partiIter != iter->second && nos.back() >= 0 && static_cast<std::size_t>(nos.back()) < limits.size())
-                limits[nos.back()].assign(partiIter + 1, iter->second);
-        }
-        
-        std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
-
-        __IN_fmtUtil::pushStringIntoBracket(res, fmt, contents, contentRangeInBracket, nos);
-    }
-
-} // namespace pg::util::stringUtil
-
-namespace pgfmt {
-    using ::pg::util::stringUtil::format;
-    using ::pg::util::stringUtil::formatAppend;
-}
-
-#endif
+//
+// Created by PGZXB on 2021/4/21.
+//
+#ifndef PGDEBUG_H
+#define PGDEBUG_H
+
+#define PGZXB_PASS (void(0))
+#define PGZXB_UNUSED(val) (void(val))
+
+#if defined(PGZXB_DEBUG)
+
+#include <bitset>
+#include <iostream>
+#define PGZXB_DEBUG_INFO_HEADER "[DEBUG]In " << __FILE__ << " in " << __func__ << " at " << __LINE__ << " : "
+#define PGZXB_DEBUG_Print(msg) std::cout << PGZXB_DEBUG_INFO_HEADER << (msg) << "\n"
+#define PGZXB_DEBUG_PrintVar(val) std::cout << PGZXB_DEBUG_INFO_HEADER << #val" : " << (val) << "\n"
+#define PGZBX_DEBUG_PrintBin(val) std::cout << PGZXB_DEBUG_INFO_HEADER << #val" : " << std::bitset<sizeof(val) * 8>(val) << "\n"
+#define PGZXB_DEBUG_CallFunc(func) PGZXB_DEBUG_PrintVar(func)
+
+#else
+
+#define PGZXB_DEBUG_INFO_HEADER ""
+#define PGZXB_DEBUG_Print(msg) PGZXB_UNUSED(msg)
+#define PGZXB_DEBUG_PrintVar(val) PGZXB_UNUSED(val)
+#define PGZBX_DEBUG_PrintBin(val) PGZXB_UNUSED(val)
+#define PGZXB_DEBUG_CallFunc(func) PGZXB_UNUSED(func)
+
+#endif
+
+#endif // PGDEBUG_H
+
+#ifndef __TOSTRING_UTIL_H__
+#define __TOSTRING_UTIL_H__
+
+#include <cstdio>
+#include <cstring>
+#include <string>
+#include <type_traits>
+#include <iterator>
+#include <memory>
+#include <cinttypes>
+
+#include <typeinfo>
+
+namespace pg::util::stringUtil::__IN_fmtUtil {
+#if __cplusplus >= 201703L
+    using std::void_t;
+#else
+    template<typename...> using void_t = void;
+#endif
+
+    template <typename _Type, typename _Iter = void_t<>>
+    struct has_iterator : public std::false_type { };
+
+    template <typename _Type>
+    struct has_iterator<_Type, void_t<typename _Type::iterator>> : public std::true_type { };
+
+    // function-delarations
+    template <typename _First, typename _Second>
+    std::string transToString(const std::pair<_First, _Second> & ele, const std::string &);
+
+    template<typename _Type>
+    std::enable_if_t<has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string & limit);
+
+    template<typename _Type>
+    std::enable_if_t<!has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string &);
+
+    // function-definitions
+    inline std::string transToString(const bool & ele, const std::string &) {
+        return ele ? "true" : "false";
+    }
+
+    inline std::string transToString(const char & ele, const std::string &) {
+        return std::string() + ele;
+    }
+
+    // 按"%<limit><conv>"格式化, 结果可以任意长
+    template <typename _Type>
+    std::string sprintfToString(const std::string & limit, const char * conv, _Type ele) {
+        const std::string fmt = "%" + limit + conv;
+        const int len = std::snprintf(nullptr, 0, fmt.c_str(), ele);
+        if (len <= 0) return std::string();
+        std::string res(static_cast<std::size_t>(len) + 1, '\0');
+        std::snprintf(&res[0], res.size(), fmt.c_str(), ele);
+        res.pop_back(); // '\0'
+        return res;
+    }
+
+    inline std::string transToString(const std::int16_t & ele, const std::string & limit) {
+        return sprintfToString(limit, PRId16, ele);
+    }
+
+    inline std::string transToString(const std::uint16_t & ele, const std::string & limit) {
+        return sprintfToString(limit, PRIu16, ele);
+    }
+
+    inline std::string transToString(const std::uint8_t & ele, const std::string &) {
+        return transToString(static_cast<std::uint16_t>(ele), "");
+    }
+
+    inline std::string transToString(const std::int32_t & ele, const std::string & limit) {
+        return sprintfToString(limit, PRId32, ele);
+    }
+
+    inline std::string transToString(const std::uint32_t & ele, const std::string & limit) {
+        return sprintfToString(limit, PRIu32, ele);
+    }
+
+    inline std::string transToString(const std::int64_t & ele, const std::string & limit) {
+        return sprintfToString(limit, PRId64, ele);
+    }
+
+    inline std::string transToString(const std::uint64_t & ele, const std::string & limit) {
+        return sprintfToString(limit, PRIu64, ele);
+    }
+
+    inline std::string transToString(const float & ele, const std::string & limit) {
+        return sprintfToString(limit, "f", ele);
+    }
+
+    inline std::string transToString(const double & ele, const std::string & limit) {
+        return sprintfToString(limit, "lf", ele);
+    }
+
+    inline std::string transToString(const long double & ele, const std::string & limit) {
+        return sprintfToString(limit, "Lf", ele);
+    }
+
+    inline std::string transToString(const std::string & ele, const std::string & limit) {
+        return sprintfToString(limit, "s", ele.c_str());
+    }
+
+    inline std::string transToString(const char * ele, const std::string & limit) {
+        return sprintfToString(limit, "s", ele);
+    }
+
+    template <typename _First, typename _Second>
+    std::string transToString(const std::pair<_First, _Second> & ele, const std::string &) {
+        const std::string NULL_STRING;
+        return std::string()
+            .append(transToString(ele.first, NULL_STRING))
+            .append(" : ")
+            .append(transToString(ele.second, NULL_STRING));
+    }
+
+    // string, const char*
+    template<typename _Type>
+    std::enable_if_t<has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string & limit) {
+        typedef typename _Type::const_iterator Iter;
+        
+        const std::string NULL_STRING;
+        std::string res("[");
+
+        for (
+            Iter iter = ele.begin(), end = ele.end();
+            iter != end;
+            ++iter
+        )
+            res.append( transToString(*iter, NULL_STRING) ).append(", ");  // useless second-param
+
+        if (res.size() > 1) {
+            res.pop_back();
+            res.back() = ']';
+        } else {
+            res.push_back(']');
+        }
+        return res;
+    }
+
+    template<typename _Type>
+    std::enable_if_t<!has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string &) {  // temp-function to show
+        return "<default-string>";
+    }
+
+} // namespace pg::util::stringUtl::__IN_fmtUtil
+
+
+#endif
+
+#ifndef __FMT_UTILS_H__
+#define __FMT_UTILS_H__
+
+#include <vector>
+#include <string>
+#include <algorithm>
+
+namespace pg::util::stringUtil {
+    namespace __IN_fmtUtil {
+        // function-delaration(s)
+        std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> 
+            parseBracket(
+                const std::string & str, const char * leftBracket, const char * rightBracket);
+        
+        template<typename..._Args>
+        std::vector<std::string> parseArgs(
+            const std::vector<std::string>& limits, const _Args&... args);
+
+        template<typename _First, typename..._Args>
+        void __IN_parseArgs(
+            std::vector<std::string> & res, 
+            const std::vector<std::string>& limits, 
+            std::vector<std::string>::const_iterator & limStrIter,
+            const _First& fArg, const _Args&... args);
+
+        void __IN_parseArgs(
+            std::vector<std::string> & res, 
+            const std::vector<std::string> & limits, 
+            std::vector<std::string>::const_iterator & limStrIter);
+        
+        // function-definitions
+        template<typename..._Args>
+        std::vector<std::string> parseArgs(
+            const std::vector<std::string>& limits, const _Args&... args) {
+            std::vector<std::string> res;
+            std::vector<std::string>::const_iterator iter = limits.begin();
+            __IN_parseArgs(res, limits, iter, args...);
+
+            return res;
+        }
+
+        template<typename _First, typename..._Args>
+        void __IN_parseArgs(
+            std::vector<std::string> & res, 
+            const std::vector<std::string>& limits, 
+            std::vector<std::string>::const_iterator & limStrIter,
+            const _First& fArg, const _Args&... args
+            ) {
+            res.push_back(transToString(fArg, *limStrIter));
+            ++limStrIter;
+            if (limStrIter == limits.end()) return;
+            __IN_parseArgs(res, limits, limStrIter, args...);
+        }
+
+        inline void __IN_parseArgs(
+            std::vector<std::string> & res,
+            const std::vector<std::string>& limits,
+            std::vector<std::string>::const_iterator & limStrIter
+            ) { }
+
+        inline std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> 
+            parseBracket(
+                const std::string & str, const char * leftBracket, const char * rightBracket) {
+                
+                std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> res;
+
+                size_t pos = 0, npos = std::string::npos;
+                std::string::const_iterator begin = str.begin();
+                while (true) {
+                    size_t beginPos = str.find(leftBracket, pos);
+                    if (beginPos == npos) break;
+                    size_t endPos = str.find(rightBracket, beginPos);
+                    if (endPos == npos) break;
+                    res.push_back({begin + beginPos + 1, begin + endPos});
+                    pos = endPos;
+                }
+                return res;
+
+            }
+
+        template <typename _Res>
+        void pushStringIntoBracket(
+            _Res & res,
+            const std::string & fmt,
+            const std::vector<std::string> & contents,
+            const std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> & ranges,
+            const std::vector<int> & nos) {
+            res.append(fmt.begin(), ranges.front().first - 1);
+            const std::size_t cSize = contents.size();
+            const std::size_t nosSize = nos.size();
+            std::size_t idx = 0;
+            for (std::size_t i = 0; i + 1 < nosSize; ++i) {
+                idx = nos.at(i);
+                if (idx < cSize) res.append(contents.at(idx));
+                res.append(ranges.at(i).second + 1, ranges.at(i + 1).first - 1);
+            }
+            if ((idx = nos.back()) < cSize) res.append(contents.at(idx));
+            res.append(ranges.back().second + 1, fmt.end());
+        }
+
+    } // namespace __IN_fmtUtil
+
+
+    template<typename..._Args>
+    std::string format(const std::string & fmt, _Args&& ...args) {
+        typedef std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>::iterator Iter;
+        
+        std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>
+            contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
+        if (contentRangeInBracket.empty()) return fmt;
+
+        std::vector<std::string> limits(sizeof...(args)); // 与参数一一对应
+        std::vector<int> nos;
+        
+        for (
+            Iter iter = contentRangeInBracket.begin(), end = contentRangeInBracket.end();
+            iter != end; ++iter) {
+            
+            std::string::const_iterator partiIter =  std::find(iter->first, iter->second, ':');
+            nos.push_back(std::atoi(fmt.c_str() + (iter->first - fmt.begin())));
+            if (partiIter != iter->second && nos.back() >= 0 && static_cast<std::size_t>(nos.back()) < limits.size())
+                limits[nos.back()].assign(partiIter + 1, iter->second);
+        }
+        
+        std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
+
+        std::string res; res.append(fmt.begin(), contentRangeInBracket.front().first - 1);
+        const std::size_t cSize = contents.size();
+        const std::size_t nosSize = nos.size();
+        std::size_t idx = 0;
+        for (std::size_t i = 0; i + 1 < nosSize; ++i) {
+            idx = nos.at(i);
+            if (idx < cSize) res.append(contents.at(idx));
+            res.append(contentRangeInBracket.at(i).second + 1, contentRangeInBracket.at(i + 1).first - 1);
+        }
+        if ((idx = nos.back()) < cSize) res.append(contents.at(idx));
+        res.append(contentRangeInBracket.back().second + 1, fmt.end());
+
+        return res;
+    }
+
+    template<typename _Res, typename..._Args>
+    void formatAppend(_Res & res, const std::string & fmt, _Args&& ...args) {
+        typedef std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>::iterator Iter;
+        
+        std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>
+            contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
+        if (contentRangeInBracket.empty()) { res.append(fmt); return; }
+
+        std::vector<std::string> limits(sizeof...(args)); // 与参数一一对应
+        std::vector<int> nos;
+        
+        for (
+            Iter iter = contentRangeInBracket.begin(), end = contentRangeInBracket.end();
+            iter != end; ++iter) {
+            
+            std::string::const_iterator partiIter =  std::find(iter->first, iter->second, ':');
+            nos.push_back(std::atoi(fmt.c_str() + (iter->first - fmt.begin())));
+            if (partiIter != iter->second && nos.back() >= 0 && static_cast<std::size_t>(nos.back()) < limits.size())
+                limits[nos.back()].assign(partiIter + 1, iter->second);
+        }
+        
+        std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
+
+        __IN_fmtUtil::pushStringIntoBracket(res, fmt, contents, contentRangeInBracket, nos);
+    }
+
+} // namespace pg::util::stringUtil
+
+namespace pgfmt {
+    using ::pg::util::stringUtil::format;
+    using ::pg::util::stringUtil::formatAppend;
+}
+
+#endif
-- 
2.43.0


From a061223bd991e5c9a701391437e032a00494bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:26 +0000
Subject: [PATCH 33/35] fix: a refused Fraction construction left a zero
 denominator in the object

---
 src/Fraction.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index 2855ab8..aab34d8 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -21,14 +21,14 @@ Fraction operator/(const Fraction &left, const Fraction &right);
 class Fraction {
 public:
     Fraction() = default;
-    Fraction(const BigInteger &num, const BigInteger &den = BigInteger{1}, bool *ok = nullptr) : 
-      m_num(num),
-      m_den(den) {
+    Fraction(const BigInteger &num, const BigInteger &den = BigInteger{1}, bool *ok = nullptr) {
         if (den == 0) {
             if (ok) *ok = false;
             PGBN_GetGlobalStatus() = ErrCode::DIVBY0;
             return;
         }
+        m_num = num;
+        m_den = den;
         if (ok) *ok = true;
         PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
         fix();
-- 
2.43.0


From dc60007a862740ee77966226835586d68470d2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 34/35] fix: a slice whose window moves on no longer keeps the
 space it has left behind

---
 src/Slice.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/Slice.h b/src/Slice.h
index 3a767a2..1d6a6a1 100644
--- a/src/Slice.h
+++ b/src/Slice.h
@@ -88,7 +88,9 @@ public:
         if (m_lo > 0) {
             (*m_data)[--m_lo] = data;
         } else {
-            m_data->insert(m_data->begin(), data);
+            const T value = data; // data可能是本Slice的元素
+            reclaimUnused();
+            m_data->insert(m_data->begin(), value);
             ++m_hi;
         }
 
@@ -99,7 +101,9 @@ public:
         if (m_hi < m_data->size()) {
             (*m_data)[m_hi] = data;
         } else {
-            m_data->push_back(data);
+            const T value = data; // data可能是本Slice的元素
+            reclaimUnused();
+            m_data->push_back(value);
         }
 
         ++m_hi;
@@ -114,6 +118,7 @@ public:
             return *this;
         }
         if (const SizeType cnt = count(); hi > cnt) {
+            reclaimUnused();
             m_data->resize(m_lo + cnt); // 丢弃[m_lo, m_hi)后的旧数据, 使扩展的部分为0
             m_data->resize(m_lo + hi);
         }
@@ -126,6 +131,7 @@ public:
     Slice & preExtend(SizeType n, const T & value = T{}) {
         if (m_lo >= n) m_lo = m_lo - n;
         else {
+            reclaimUnused();
             SizeType exlen = n - m_lo + DEFAULT_PRE_SPACE;
             m_data->insert(m_data->begin(), exlen, value);
             m_lo = DEFAULT_PRE_SPACE;
@@ -179,6 +185,17 @@ public:
     bool hasSameBaseData(const Slice & other) const { return m_data == other.m_data; }
 
 private:
+    // 独占数据时, 丢弃[m_lo, m_hi)前后不再使用的部分, 使占用的空间不随操作次数增长
+    void reclaimUnused() {
+        if (m_data.use_count() != 1) return;
+        if (m_data->size() - m_hi > DEFAULT_PRE_SPACE + count()) m_data->resize(m_hi);
+        if (m_lo > DEFAULT_PRE_SPACE + count()) {
+            m_data->erase(m_data->begin(), m_data->begin() + (m_lo - DEFAULT_PRE_SPACE));
+            m_hi -= m_lo - DEFAULT_PRE_SPACE;
+            m_lo = DEFAULT_PRE_SPACE;
+        }
+    }
+
     std::shared_ptr<Vec> m_data;
     SizeType m_lo = 0, m_hi = 0; // [lo, hi)
 };
-- 
2.43.0


From d61fb26117dd337d314a456e2b0c6cd65527c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:35 +0000
Subject: [PATCH 35/35] fix: peval no longer waits again for the tasks of all
 former levels at every level

---
 src/eval.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eval.cpp b/src/eval.cpp
index f8aa99c..39288c2 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -81,6 +81,7 @@ Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
         for (auto &fu : currLevelFu) {
             fu.wait(); // Wait
         }
+        currLevelFu.clear(); // 已完成的任务不再等待
     }
 
     // Blocking get result
-- 
2.43.0

