From b03f29d60e6f9ba0ec7e530157eb40e4991c53b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:59 +0000
Subject: [PATCH 001/125] fix: putf/safe_print dropped the last character of
 messages as long as their internal buffer

---
 modules/utils/src/cxx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/cxx.cpp b/modules/utils/src/cxx.cpp
index 554d92c..995c28f 100644
--- a/modules/utils/src/cxx.cpp
+++ b/modules/utils/src/cxx.cpp
@@ -31,7 +31,7 @@ std::string lv::putf(const char* acFormat, ...) { // NOLINT; reused in non-C++11
     va_end(vArgs);
     if(nWritten<0)
         lvStdError_(runtime_error,"putf failed (1)");
-    if((size_t)nWritten<=vBuffer.size()) {
+    if((size_t)nWritten<vBuffer.size()) {
         vBuffer.resize((size_t)nWritten);
         return vBuffer;
     }
@@ -148,7 +148,7 @@ std::ostream& lv::safe_print(std::ostream& os, const char* acFormat, ...) { // N
     va_end(vArgs);
     if(nWritten<0)
         lvStdError_(runtime_error,"safe_print failed (1)");
-    if((size_t)nWritten<=vBuffer.size()) {
+    if((size_t)nWritten<vBuffer.size()) {
         vBuffer.resize((size_t)nWritten);
         std::lock_guard<std::mutex> oLock(getLogMutex());
         return os << vBuffer;
-- 
2.43.0


From 3d17971050e095774d733aa76590ceeb38e014ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:59 +0000
Subject: [PATCH 002/125] fix: Semaphore::count() read the counter without
 holding its mutex (data race)

---
 modules/utils/include/litiv/utils/cxx.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 9d46273..c0216c7 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -991,6 +991,7 @@ namespace lv {
                 m_nCount(nInitCount) {}
         /// returns the current internal resource count
         inline size_t count() {
+            std::unique_lock<std::mutex> oLock(m_oMutex);
             return m_nCount;
         }
         /// notifies one waiter that a resource is now available
-- 
2.43.0


From 9ec83c13deeaff990ab7c5551829710823327884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:59 +0000
Subject: [PATCH 003/125] fix: global verbosity level could be read and written
 concurrently (data race)

---
 modules/utils/src/cxx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/src/cxx.cpp b/modules/utils/src/cxx.cpp
index 995c28f..a6457cd 100644
--- a/modules/utils/src/cxx.cpp
+++ b/modules/utils/src/cxx.cpp
@@ -165,7 +165,7 @@ std::ostream& lv::safe_print(std::ostream& os, const char* acFormat, ...) { // N
     return os << vBuffer;
 }
 
-int g_nVerbosity = 1;
+std::atomic_int g_nVerbosity(1);
 
 int lv::getVerbosity() {
     return g_nVerbosity;
-- 
2.43.0


From 71573f0328b8b21cd978dfab60a4407731394224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:40 +0000
Subject: [PATCH 004/125] fix: moving an AutoBuffer or LUT left its pointers
 targeting the static buffer of the source object

---
 modules/utils/include/litiv/utils/cxx.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index c0216c7..d05cfde 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -734,6 +734,14 @@ namespace lv {
         typedef std::ptrdiff_t difference_type;
         /// default constructor with optional init buffer size (will use static buffer if possible, or allocate)
         explicit AutoBuffer(size_type nReqSize=0);
+        /// copy constructor (same static size; the templated version below is never used as such)
+        AutoBuffer(const AutoBuffer& o) : AutoBuffer(size_type(0)) {this->template operator=<nStaticSize>(o);}
+        /// move constructor (same static size; the templated version below is never used as such)
+        AutoBuffer(AutoBuffer&& o) : AutoBuffer(size_type(0)) {this->template operator=<nStaticSize>(std::move(o));}
+        /// copy assignment operator (same static size; the templated version below is never used as such)
+        AutoBuffer& operator=(const AutoBuffer& o) {return this->template operator=<nStaticSize>(o);}
+        /// move assignment operator (same static size; the templated version below is never used as such)
+        AutoBuffer& operator=(AutoBuffer&& o) {return this->template operator=<nStaticSize>(std::move(o));}
         /// copy constructor
         template<size_t nStaticSize2>
         explicit AutoBuffer(const AutoBuffer<TVal,nStaticSize2,nByteAlign>&);
@@ -825,6 +833,21 @@ namespace lv {
         /// full constructor; will automatically fill the LUT array for lFunc([tMinLookup,tMaxLookup])
         template<typename TFunc>
         LUT(Tx tMinLookup, Tx tMaxLookup, TFunc lFunc) {init(tMinLookup,tMaxLookup,lFunc);}
+        /// copy constructor (lookup pointers must target this instance's own buffer)
+        LUT(const LUT& o) {*this = o;}
+        /// copy assignment operator (lookup pointers must target this instance's own buffer)
+        LUT& operator=(const LUT& o) {
+            m_bInitialized = o.m_bInitialized;
+            if(m_bInitialized) {
+                m_tMin = o.m_tMin; m_tMax = o.m_tMax;
+                m_tMidOffset = o.m_tMidOffset; m_tLowOffset = o.m_tLowOffset;
+                m_dScale = o.m_dScale; m_dStep = o.m_dStep;
+                m_aLUT = o.m_aLUT;
+                m_pMid = m_aLUT.data()+nBins/2+nSafety;
+                m_pLow = m_aLUT.data()+nSafety;
+            }
+            return *this;
+        }
         /// LUT initialization function; will fill the array for lFunc([tMinLookup,tMaxLookup])
         template<typename TFunc>
         void init(Tx tMinLookup, Tx tMaxLookup, TFunc lFunc) {
-- 
2.43.0


From 0c7f6a37b8f498fdc41cd5fc3ceced83bd240c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:40 +0000
Subject: [PATCH 005/125] fix: AutoBuffer::at accepted negative indices and
 compared sizes in the index type

---
 modules/utils/include/litiv/utils/cxx.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index d05cfde..5732967 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -1235,7 +1235,7 @@ template<typename TVal, size_t nStaticSize, size_t nByteAlign>
 template<typename TIndex>
 typename lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::reference lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::at(TIndex nPosIdx) {
     static_assert(std::is_integral<TIndex>::value,"index type must be integral");
-    lvAssert__(nPosIdx<(TIndex)size(),"index out of bounds (req=%d, max=%d)",(int)nPosIdx,(int)size());
+    lvAssert__(nPosIdx>=TIndex(0) && size_type(nPosIdx)<size(),"index out of bounds (req=%d, max=%d)",(int)nPosIdx,(int)size());
     return m_pBufferPtr[nPosIdx];
 }
 
@@ -1243,7 +1243,7 @@ template<typename TVal, size_t nStaticSize, size_t nByteAlign>
 template<typename TIndex>
 typename lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::const_reference lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::at(TIndex nPosIdx) const {
     static_assert(std::is_integral<TIndex>::value,"index type must be integral");
-    lvAssert__(nPosIdx<(TIndex)size(),"index out of bounds (req=%d, max=%d)",(int)nPosIdx,(int)size());
+    lvAssert__(nPosIdx>=TIndex(0) && size_type(nPosIdx)<size(),"index out of bounds (req=%d, max=%d)",(int)nPosIdx,(int)size());
     return m_pBufferPtr[nPosIdx];
 }
 
-- 
2.43.0


From d047f4ae14d2e7a57b67f173e8aae6872ac3e512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:40 +0000
Subject: [PATCH 006/125] fix: AutoBuffer::push_back read an element of its own
 freed buffer when growing

---
 modules/utils/include/litiv/utils/cxx.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 5732967..c878b2a 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -1380,10 +1380,13 @@ template<typename TVal, size_t nStaticSize, size_t nByteAlign>
 void lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::push_back(const value_type& o) {
     lvDbgAssert(m_nUsedBufferSize<=m_nBufferSize);
     if(m_nUsedBufferSize==m_nBufferSize) {
+        const value_type oVal(o); // 'o' might be stored in the buffer that will be released
         reserve(m_nBufferSize*2);
-        lvDbgAssert(m_nBufferSize>m_nUsedBufferSize+1);
+        lvDbgAssert(m_nBufferSize>m_nUsedBufferSize);
+        m_pBufferPtr[m_nUsedBufferSize] = oVal;
     }
-    m_pBufferPtr[m_nUsedBufferSize] = o;
+    else
+        m_pBufferPtr[m_nUsedBufferSize] = o;
     ++m_nUsedBufferSize;
 }
 
-- 
2.43.0


From 5d15fee5e5d80cfaa3004638c0741823ec38d32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:16 +0000
Subject: [PATCH 007/125] fix: digit_count gave wrong results for values
 outside the 'int' range

---
 modules/utils/include/litiv/utils/cxx.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index c878b2a..b253df9 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -238,10 +238,8 @@ namespace lv {
         if(std::isnan((float)number))
             return 3;
         int digits = number<0?2:1;
-        while(std::abs((int)number)>=10) {
-            number /= 10;
+        for(long double value=std::abs((long double)number); value>=10 && !std::isinf(value); value/=10)
             digits++;
-        }
         return digits;
     }
 
-- 
2.43.0


From 3838244dcc505375504f2d834efc647da4309ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:16 +0000
Subject: [PATCH 008/125] fix: unique_indices could return another occurrence
 than the first one for equal values

---
 modules/utils/include/litiv/utils/cxx.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index b253df9..a6b69d9 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -337,7 +337,7 @@ namespace lv {
         static_assert(std::is_integral<TIndex>::value,"index type must be integral");
         std::vector<TIndex> vnIndices(voVals.size());
         std::iota(vnIndices.begin(),vnIndices.end(),TIndex(0));
-        std::sort(vnIndices.begin(),vnIndices.end(),[&voVals](TIndex n1, TIndex n2) {
+        std::stable_sort(vnIndices.begin(),vnIndices.end(),[&voVals](TIndex n1, TIndex n2) {
             return voVals[n1]<voVals[n2];
         });
         return vnIndices;
@@ -349,7 +349,7 @@ namespace lv {
         static_assert(std::is_integral<TIndex>::value,"index type must be integral");
         std::vector<TIndex> vnIndices(voVals.size());
         std::iota(vnIndices.begin(),vnIndices.end(),TIndex(0));
-        std::sort(vnIndices.begin(),vnIndices.end(),oSortFunctor);
+        std::stable_sort(vnIndices.begin(),vnIndices.end(),oSortFunctor);
         return vnIndices;
     }
 
-- 
2.43.0


From 0c3012b78840ba52ca406a8dc1b8220310b9b7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:16 +0000
Subject: [PATCH 009/125] fix: cumulativeSum accumulated (and overflowed) in
 the input type instead of the sum type

---
 modules/utils/include/litiv/utils/cxx.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index a6b69d9..a93db10 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -314,7 +314,8 @@ namespace lv {
     template<typename TVal, typename TSum=std::conditional_t<std::is_integral<TVal>::value,size_t,float>>
     inline std::vector<TSum> cumulativeSum(const std::vector<TVal>& vArray) {
         std::vector<TSum> vSums(vArray.size());
-        std::partial_sum(vArray.begin(),vArray.end(),vSums.begin(),std::plus<TSum>());
+        TSum tSum = TSum(0); // std::partial_sum would accumulate (and overflow) in TVal
+        std::transform(vArray.begin(),vArray.end(),vSums.begin(),[&tSum](const TVal& tVal){return tSum+=TSum(tVal);});
         return vSums;
     }
 
-- 
2.43.0


From e435b539fff423c0a7f71a70c7b36dfcdc2ad82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:15 +0000
Subject: [PATCH 010/125] fix: text of failed assertions (and messages without
 arguments) was used as a printf format string

---
 modules/utils/include/litiv/utils/cxx.hpp        | 6 ++++++
 modules/utils/include/litiv/utils/defines.hpp.in | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index a93db10..1d61a18 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -187,6 +187,12 @@ namespace lv {
 #define LV_EXCEPTION_DECL
     /// high-level (costly) exception class with extra mesagge + info on error location (used through lvAssert and lvError macros)
     struct Exception : public std::runtime_error {
+        /// lv exception constructor for verbatim messages (i.e. which might contain '%', and are not format strings)
+        inline Exception(const std::string& sErrMsg, const char* sFunc, const char* sFile, int nLine) :
+                std::runtime_error(lv::putf("Exception in function '%s'\n\t... from %s(%d)\n\t... what = %s",sFunc,sFile,nLine,sErrMsg.c_str())),
+                m_acFuncName(sFunc),m_acFileName(sFile),m_nLineNumber(nLine) {
+            lvCerr_(1) << this->what() << std::endl;
+        }
         /// default lv exception constructor; all exception should be created via macros
         template<typename... Targs>
         inline Exception(const std::string& sErrMsg, const char* sFunc, const char* sFile, int nLine, Targs&&... args) :
diff --git a/modules/utils/include/litiv/utils/defines.hpp.in b/modules/utils/include/litiv/utils/defines.hpp.in
index 5fabe72..52408be 100644
--- a/modules/utils/include/litiv/utils/defines.hpp.in
+++ b/modules/utils/include/litiv/utils/defines.hpp.in
@@ -110,7 +110,7 @@
         #define lvError_(msg,...) throw lv::Exception(std::string("[lvError: ").append((msg)).append("]"),__PRETTY_FUNCTION__,__FILE__,__LINE__,__VA_ARGS__)
         #define lvAssert(expr) do {if(!!(expr)); else throw lv::Exception(std::string("[lvAssertError] ("#expr")"),__PRETTY_FUNCTION__,__FILE__,__LINE__);} while(false)
         #define lvAssert_(expr,msg) do {if(!!(expr)); else throw lv::Exception(std::string("[lvAssertError: ").append((msg)).append("] ("#expr")"),__PRETTY_FUNCTION__,__FILE__,__LINE__);} while(false)
-        #define lvAssert__(expr,msg,...) do {if(!!(expr)); else throw lv::Exception(std::string("[lvAssertError: ").append((msg)).append("] ("#expr")"),__PRETTY_FUNCTION__,__FILE__,__LINE__,__VA_ARGS__);} while(false)
+        #define lvAssert__(expr,msg,...) do {if(!!(expr)); else throw lv::Exception(lv::putf(std::string("[lvAssertError: ").append((msg)).append("] ").c_str(),__VA_ARGS__).append("("#expr")"),__PRETTY_FUNCTION__,__FILE__,__LINE__);} while(false)
         #define lvLog(level,msg) (lv::ostream_guard<std::ostream>(std::cout,level) << (msg) << '\n')
         #define lvLog_(level,msg,...) (lv::ostream_guard<std::ostream>(std::cout,level) << lv::putf(msg,__VA_ARGS__) << '\n')
         #define lvWarn(msg) (lv::ostream_guard<std::ostream>(std::cerr) << "[lvWarn @ " << __FILE__ << "(" << __LINE__ << "):\n\t" << (msg) << "\n]\n")
-- 
2.43.0


From bd82b54f75b9a03c3869b316fef0f2191139b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:53 +0000
Subject: [PATCH 011/125] fix: fastrand relied on signed integer overflow
 (undefined behaviour)

---
 modules/utils/include/litiv/utils/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 8b75d39..6b10451 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -58,7 +58,7 @@ namespace lv {
     /// returns a (cheap) random number based on Intel's fastrand LCG algorithm (16-bit, like std::rand)
     inline int fastrand(int& nSeed) {
         // see https://software.intel.com/en-us/articles/fast-random-number-generator-on-the-intel-pentiumr-4-processor/
-        nSeed = (214013*nSeed+2531011);
+        nSeed = (int)(214013u*(uint)nSeed+2531011u); // modular arithmetic (must not overflow a signed type)
         return (nSeed>>16)&0x7FFF;
     }
 
-- 
2.43.0


From 0a1971da2371a96867c2e49b93e950be7729cf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:53 +0000
Subject: [PATCH 012/125] fix: multi-channel L1/L2 distances between small
 integers overflowed their default result type

---
 modules/utils/include/litiv/utils/math.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 6b10451..6c5303a 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -225,7 +225,7 @@ namespace lv {
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const Tin* a, const Tin* b) {
         Tout tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
@@ -234,19 +234,19 @@ namespace lv {
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const std::array<Tin,nChannels>& a, const std::array<Tin,nChannels>& b) {
         return L1dist<nChannels,Tin,Tout>(a.data(),b.data());
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const std::array<Tin,nChannels>& a, const Tin* b) {
         return L1dist<nChannels,Tin,Tout>(a.data(),b);
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const Tin* a, const std::array<Tin,nChannels>& b) {
         return L1dist<nChannels,Tin,Tout>(a,b.data());
     }
@@ -284,7 +284,7 @@ namespace lv {
 #if USE_CVCORE_WITH_UTILS
 
     /// computes the L1 distance between two opencv vectors
-    template<int nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<int nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const cv::Vec<Tin,nChannels>& a, const cv::Vec<Tin,nChannels>& b) {
         Tin a_array[nChannels], b_array[nChannels];
         for(int c=0; c<nChannels; ++c) {
@@ -314,7 +314,7 @@ namespace lv {
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const Tin* a, const Tin* b) {
         Tout tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
@@ -323,19 +323,19 @@ namespace lv {
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const std::array<Tin,nChannels>& a, const std::array<Tin,nChannels>& b) {
         return L2sqrdist<nChannels,Tin,Tout>(a.data(),b.data());
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const std::array<Tin,nChannels>& a, const Tin* b) {
         return L2sqrdist<nChannels,Tin,Tout>(a.data(),b);
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const Tin* a, const std::array<Tin,nChannels>& b) {
         return L2sqrdist<nChannels,Tin,Tout>(a,b.data());
     }
@@ -373,7 +373,7 @@ namespace lv {
 #if USE_CVCORE_WITH_UTILS
 
     /// computes the squared L2 distance between two opencv vectors
-    template<int nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<int nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const cv::Vec<Tin,nChannels>& a, const cv::Vec<Tin,nChannels>& b) {
         Tin a_array[nChannels], b_array[nChannels];
         for(int c=0; c<nChannels; ++c) {
@@ -390,7 +390,7 @@ namespace lv {
     /// computes the L2 distance between two integer arrays
     template<size_t nChannels, typename Tin, typename Tout=float, typename=std::enable_if_t<std::is_integral<Tin>::value>>
     inline Tout L2dist(const Tin* a, const Tin* b) {
-        decltype(L2sqrdist(Tin(),Tin())) tResult = 0;
+        size_t tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
             tResult += L2sqrdist(a[c],b[c]);
         return (Tout)std::sqrt(tResult);
-- 
2.43.0


From 6b5e56c9e95939877c59c05eb4a6c0f4ce878f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:53 +0000
Subject: [PATCH 013/125] fix: L2sqrdist overflowed a signed type for distant
 32-bit values

---
 modules/utils/include/litiv/utils/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 6c5303a..ee40840 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -302,7 +302,7 @@ namespace lv {
     template<typename T, typename=std::enable_if_t<std::is_integral<T>::value>>
     inline auto L2sqrdist(T a, T b) {
         typedef std::make_signed_t<typename lv::get_bigger_integer<T>::type> Tintern;
-        const Tintern tResult = Tintern(a)-Tintern(b);
+        const std::make_unsigned_t<Tintern> tResult = L1dist(a,b);
         return std::make_unsigned_t<Tintern>(tResult*tResult);
     }
 
-- 
2.43.0


From 779ab626b7d7dd869cd05fb56d41766c904b9d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:53 +0000
Subject: [PATCH 014/125] fix: cdist products of 16/32-bit values overflowed
 before being widened

---
 modules/utils/include/litiv/utils/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index ee40840..5d34e47 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -487,9 +487,9 @@ namespace lv {
         uint64_t bg_sqr = 0;
         uint64_t mix = 0;
         for(size_t c=0; c<nChannels; ++c) {
-            curr_sqr += uint64_t(curr[c]*curr[c]);
-            bg_sqr += uint64_t(bg[c]*bg[c]);
-            mix += uint64_t(curr[c]*bg[c]);
+            curr_sqr += uint64_t(curr[c])*curr[c];
+            bg_sqr += uint64_t(bg[c])*bg[c];
+            mix += uint64_t(curr[c])*bg[c];
         }
         const float fSqrDistort = (float)(curr_sqr-(mix*mix)/std::max(bg_sqr,uint64_t(1)));
         return (size_t)std::sqrt(fSqrDistort); // will already be well optimized for integer output
-- 
2.43.0


From fb8b84eee1f99ad722311bed82580cd0cd22b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:53 +0000
Subject: [PATCH 015/125] fix: expand_bits shifted 32-bit integers too far for
 64-bit types (undefined behaviour)

---
 modules/utils/include/litiv/utils/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 5d34e47..50ba4da 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -988,7 +988,7 @@ namespace lv {
     constexpr std::enable_if_t<(nWordBitSize>1),T> expand_bits(const T& nBits, size_t n=((sizeof(T)*8)/nWordBitSize)-1) {
         static_assert(std::is_integral<T>::value,"input value type must be integer");
         // only the first [(sizeof(T)*8)/nWordBitSize] bits are kept (otherwise overflow/ignored)
-        return (T)(bool((nBits&(1<<n))!=0)<<(n*nWordBitSize)) + ((n>=1)?expand_bits<nWordBitSize,T>(nBits,n-1):(T)0);
+        return (T)((T)bool((nBits>>n)&1)<<(n*nWordBitSize)) + ((n>=1)?expand_bits<nWordBitSize,T>(nBits,n-1):(T)0);
     }
 
     /// performs LU decomposition of a MxM matrix A (function signature is the same as OpenCV's LU32f/LU64f) --- only efficient for small matrices
-- 
2.43.0


From 11c7db9a709972ee8c51e4d6368a416a93c17a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:20 +0000
Subject: [PATCH 016/125] fix: cdist overflowed 64-bit products for distant
 16/32-bit colors

---
 modules/utils/include/litiv/utils/math.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 50ba4da..e037b5e 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -483,15 +483,17 @@ namespace lv {
         }
         if(!bNonConstDist || !bNonNullDist)
             return 0;
-        uint64_t curr_sqr = 0;
-        uint64_t bg_sqr = 0;
-        uint64_t mix = 0;
+        using Tintern = std::conditional_t<sizeof(T)==1,uint64_t,double>; // squared products of 16/32-bit values do not fit in 64-bit integers
+        Tintern curr_sqr = 0;
+        Tintern bg_sqr = 0;
+        Tintern mix = 0;
         for(size_t c=0; c<nChannels; ++c) {
-            curr_sqr += uint64_t(curr[c])*curr[c];
-            bg_sqr += uint64_t(bg[c])*bg[c];
-            mix += uint64_t(curr[c])*bg[c];
+            curr_sqr += Tintern(curr[c])*curr[c];
+            bg_sqr += Tintern(bg[c])*bg[c];
+            mix += Tintern(curr[c])*bg[c];
         }
-        const float fSqrDistort = (float)(curr_sqr-(mix*mix)/std::max(bg_sqr,uint64_t(1)));
+        const Tintern mix_sqr = (mix*mix)/std::max(bg_sqr,Tintern(1));
+        const float fSqrDistort = (curr_sqr>mix_sqr)?(float)(curr_sqr-mix_sqr):0.0f;
         return (size_t)std::sqrt(fSqrDistort); // will already be well optimized for integer output
     }
 
-- 
2.43.0


From ba3b6061af315ed6515028c7f9eb626af347cecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:45 +0000
Subject: [PATCH 017/125] fix: interp1 extrapolated from the next segment past
 segment midpoints, and overran its tables for uneven inputs

---
 modules/utils/include/litiv/utils/math.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index e037b5e..1c8dcf2 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -933,12 +933,11 @@ namespace lv {
         }
         const size_t nReqSize = vXReq.size();
         std::vector<Ty> vYReq(nReqSize);
-        typedef decltype(lv::L1dist<Tx>((Tx)0,(Tx)0)) DistType;
-        DistType (&rlDist)(Tx,Tx) = lv::L1dist<Tx>;
         for(size_t i=0; i<nReqSize; ++i) {
-            if(vXReq[i]>=vX.front() && vXReq[i]<=vX.back()) {
-                const size_t nNNIdx = lv::find_nn_index(vXReq[i],vX,rlDist);
-                vYReq[i] = vSlope[nNNIdx]*vXReq[i]+vOffset[nNNIdx];
+            if(vXReq[i]>=vX.front() && vXReq[i]<=vX[nSize-1]) {
+                // the segment to use is the one which contains the requested value (i.e. the one starting at the last x that is not above it)
+                const size_t nSegmIdx = size_t(std::upper_bound(vX.begin(),vX.begin()+nSize,vXReq[i])-vX.begin())-1;
+                vYReq[i] = vSlope[nSegmIdx]*vXReq[i]+vOffset[nSegmIdx];
             }
             else
                 lvStdError_(domain_error,"extrapolation not supported");
-- 
2.43.0


From 81d24f6057abb280e223531e3c0cd7a6256c379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:45 +0000
Subject: [PATCH 018/125] fix: linspace could miss its last value due to
 rounding, and wrapped for descending unsigned ranges

---
 modules/utils/include/litiv/utils/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 1c8dcf2..7a024a1 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -953,13 +953,14 @@ namespace lv {
         else if(n==1)
             return std::vector<T>(1,b);
         std::vector<T> vResult(n);
-        const double dStep = double(b-a)/(n-size_t(bIncludeInitVal));
+        const double dStep = (double(b)-double(a))/(n-size_t(bIncludeInitVal));
         if(bIncludeInitVal)
             for(size_t nStepIter = 0; nStepIter<n; ++nStepIter)
                 vResult[nStepIter] = T(a+dStep*nStepIter);
         else
             for(size_t nStepIter = 1; nStepIter<=n; ++nStepIter)
                 vResult[nStepIter-1] = T(a+dStep*nStepIter);
+        vResult.back() = b; // always exact, no matter how rounding errors accumulate
         return vResult;
     }
 
-- 
2.43.0


From 7df276f97716e9e8f3bf81d7cfeb724b0233c8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:45 +0000
Subject: [PATCH 019/125] fix: GMM densities were NaN when rounding errors made
 a degenerate covariance determinant negative

---
 modules/utils/include/litiv/utils/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 7a024a1..edc4b89 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -1349,7 +1349,7 @@ void lv::GMM<nComps,nDims>::endLearning() {
                 });
             });
             const double dDeterminant = lv::determinant<nDims>(aCovariance);
-            if(std::abs(dDeterminant)<1e-6) {
+            if(dDeterminant<1e-6) { // might also be slightly negative for (nearly) degenerate sample sets
                 // adds white noise to avoid singular covariance matrix
                 constexpr double dMinVariance = 0.01;
                 lv::unroll<nDims>([&](size_t nDimIdx){
-- 
2.43.0


From aeb4ba5215409fa60336fab9f43daaf5aacc42aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:03 +0000
Subject: [PATCH 020/125] fix: copies of a GMM shared (and outlived) the
 parameters of the original model

---
 modules/utils/include/litiv/utils/math.hpp | 24 ++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index edc4b89..7cde968 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -1195,6 +1195,10 @@ namespace lv {
         inline double getComponentWeight(size_t nCompIdx) {return m_aCoeffs[nCompIdx];}
         /// default constructor; initializes all model params to zero
         GMM();
+        /// copy constructor; the new model owns its own params (it does not target those of the original)
+        GMM(const GMM& o);
+        /// copy assignment operator
+        GMM& operator=(const GMM& o);
     protected:
         static constexpr size_t s_nStaticBuffSize = std::min(getModelSize(),size_t(128));
         lv::AutoBuffer<double,s_nStaticBuffSize> m_aModelData;
@@ -1226,6 +1230,26 @@ lv::GMM<nComps,nDims>::GMM() : m_bLearningModeOn(false) {
     std::fill_n(m_aModelData.data(),getModelSize(),0.0);
 }
 
+template<size_t nComps, size_t nDims>
+lv::GMM<nComps,nDims>::GMM(const GMM& o) : GMM() {
+    *this = o;
+}
+
+template<size_t nComps, size_t nDims>
+lv::GMM<nComps,nDims>& lv::GMM<nComps,nDims>::operator=(const GMM& o) {
+    if(this!=&o) {
+        std::copy_n(o.m_aModelData.data(),getModelSize(),m_aModelData.data());
+        m_bLearningModeOn = o.m_bLearningModeOn;
+        if(m_bLearningModeOn) {
+            std::copy_n(&o.m_aSampleSums[0][0],nComps*nDims,&m_aSampleSums[0][0]);
+            std::copy_n(&o.m_aSampleProds[0][0][0],nComps*nDims*nDims,&m_aSampleProds[0][0][0]);
+            std::copy_n(&o.m_nSampleCounts[0],nComps,&m_nSampleCounts[0]);
+            m_nTotSampleCount = o.m_nTotSampleCount;
+        }
+    }
+    return *this;
+}
+
 template<size_t nComps, size_t nDims>
 template<typename TVal>
 double lv::GMM<nComps,nDims>::operator()(const std::array<TVal,nDims>& aSample) const {
-- 
2.43.0


From 3c0eefdecab76d07d4a4418e46b7ddf5d3c9e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:55 +0000
Subject: [PATCH 021/125] fix: extract_32si without SSE4.1 shifted the sum of
 both halves instead of the high one

---
 modules/utils/include/litiv/utils/simd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/simd.hpp b/modules/utils/include/litiv/utils/simd.hpp
index 7d1d4ea..def926e 100644
--- a/modules/utils/include/litiv/utils/simd.hpp
+++ b/modules/utils/include/litiv/utils/simd.hpp
@@ -124,7 +124,7 @@ namespace lv {
     #if HAVE_SSE4_1
         return _mm_extract_epi32(anBuffer,nPos);
     #else //(!HAVE_SSE4_1)
-        return _mm_extract_epi16(anBuffer,nPos*2)+_mm_extract_epi16(anBuffer,nPos*2+1)<<16;
+        return (int32_t)((uint32_t)_mm_extract_epi16(anBuffer,nPos*2)|((uint32_t)_mm_extract_epi16(anBuffer,nPos*2+1)<<16));
     #endif //(!HAVE_SSE4_1)
     }
 
-- 
2.43.0


From 48ba5345b572ae037f7db116970f865df76d9f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:35 +0000
Subject: [PATCH 022/125] fix: write plain text matrix archives with enough
 digits to read values back

---
 modules/utils/src/opencv.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 7415925..6273b40 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -464,6 +464,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
         ssStr << "\n\n";
         if(oData.depth()!=CV_64F)
             _oData.convertTo(oData,CV_64F);
+        ssStr.precision(std::numeric_limits<double>::max_digits10); // values must be readable without precision loss
         double* pdData = (double*)oData.data;
         for(int nElemIdx=0; nElemIdx<(int)oData.total(); ++nElemIdx) {
             ssStr << *pdData++;
-- 
2.43.0


From 3d949b503cb8c56d9dfef6c28bc09215e9e84f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:35 +0000
Subject: [PATCH 023/125] fix: detect archive write failures that only show up
 when buffered data is flushed

---
 modules/utils/src/opencv.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 6273b40..1c5de44 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -475,7 +475,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
             else
                 ssStr << " ";
         }
-        lvAssert_(ssStr,"plain text archive write failed");
+        lvAssert_(ssStr.flush(),"plain text archive write failed");
     }
 #if USING_LZ4
     else if(eArchiveType==MatArchive_BINARY_LZ4) {
@@ -509,7 +509,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
             const int32_t nComprSize = 0;
             ssStr.write((const char*)&nComprSize,sizeof(nComprSize));
         }
-        lvAssert_(ssStr,"binary archive write failed");
+        lvAssert_(ssStr.flush(),"binary archive write failed");
     }
 #endif //USING_LZ4
     else if(eArchiveType==MatArchive_BINARY) {
@@ -528,7 +528,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
             ssStr.write((const char*)&nDimSize,sizeof(nDimSize));
         }
         ssStr.write((const char*)(oData.data),nElemSize*nElemCount);
-        lvAssert_(ssStr,"binary archive write failed");
+        lvAssert_(ssStr.flush(),"binary archive write failed");
     }
     else
         lvError("unrecognized mat archive type flag");
-- 
2.43.0


From 93edd5e10cbda8cb2ae5131127a5135afa7482a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:15 +0000
Subject: [PATCH 024/125] fix: validate matrix archive headers before
 allocating and filling matrices Truncated or corrupted archives could
 otherwise lead to out-of-bounds writes; reading into a preallocated,
 non-continuous matrix also overran its buffer.

---
 modules/utils/src/opencv.cpp | 53 +++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 1c5de44..c54fc02 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -534,6 +534,28 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
         lvError("unrecognized mat archive type flag");
 }
 
+// validates the header of a matrix archive, and allocates the matrix to fill (the archive must still hold 'nMinElemBytes' bytes per element)
+static void allocArchivedMat(std::istream& ssStr, cv::Mat& oData, int32_t nDataType, uint64_t nElemSize, uint64_t nElemCount, const std::vector<int32_t>& anSizes, uint64_t nMinElemBytes) {
+    lvAssert_(ssStr && nDataType==CV_MAT_TYPE(nDataType) && nElemSize==(uint64_t)CV_ELEM_SIZE(nDataType),"bad data type in archive header");
+    uint64_t nMaxElemCount = (uint64_t)std::numeric_limits<int32_t>::max();
+    if(nMinElemBytes>0u) {
+        const std::streamoff nCurrPos = ssStr.tellg();
+        nMaxElemCount = uint64_t(ssStr.seekg(0,std::ios::end).tellg()-nCurrPos)/nMinElemBytes;
+        ssStr.seekg(nCurrPos);
+    }
+    uint64_t nExpectedElemCount = 1u;
+    for(int32_t nDimSize : anSizes) {
+        lvAssert_(nDimSize>0 && nExpectedElemCount<=nMaxElemCount/(uint64_t)nDimSize,"bad matrix size in archive header");
+        nExpectedElemCount *= (uint64_t)nDimSize;
+    }
+    lvAssert_(nElemCount==nExpectedElemCount,"bad matrix size in archive header");
+    oData.create((int)anSizes.size(),anSizes.data(),nDataType);
+    if(!oData.isContinuous()) { // happens when output was already allocated as part of a larger matrix
+        oData.release();
+        oData.create((int)anSizes.size(),anSizes.data(),nDataType);
+    }
+}
+
 void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList eArchiveType) {
     lvAssert_(!sFilePath.empty(),"input file path must be non-empty");
     if(eArchiveType==MatArchive_FILESTORAGE) {
@@ -557,11 +579,14 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
         lvAssert_((ssStr >> sFieldName >> nElemCount) && sFieldName=="nElemCount","could not parse 'nElemCount' field from archive");
         int32_t nDims;
         lvAssert_((ssStr >> sFieldName >> nDims) && sFieldName=="nDims","could not parse 'nDims' field from archive");
+        lvAssert_(nDims>0 && nDims<=32,"bad dimension count in archive header");
         std::vector<int32_t> anSizes(nDims);
         lvAssert_((ssStr >> sFieldName) && sFieldName=="anSizes","could not parse 'anSizes' field from archive");
         for(int32_t nDimIdx=0; nDimIdx<nDims; ++nDimIdx)
             lvAssert_((ssStr >> anSizes[nDimIdx]),"could not parse dim size value from archive");
-        cv::Mat oDataTemp(nDims,anSizes.data(),CV_64FC(nChannels));
+        lvAssert_(nDataDepth==CV_MAT_DEPTH(nDataType) && nChannels==CV_MAT_CN(nDataType) && nElemSize==(uint64_t)CV_ELEM_SIZE(nDataType),"bad data type in archive header");
+        cv::Mat oDataTemp;
+        allocArchivedMat(ssStr,oDataTemp,CV_64FC(nChannels),sizeof(double)*nChannels,nElemCount,anSizes,(uint64_t)nChannels);
         double* pdData = (double*)oDataTemp.data;
         for(int nElemIdx=0; nElemIdx<(int)oDataTemp.total(); ++nElemIdx) {
             ssStr >> *pdData++;
@@ -575,23 +600,24 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
     else if(eArchiveType==MatArchive_BINARY_LZ4) {
         std::ifstream ssStr(sFilePath,std::ios::binary);
         lvAssert__(ssStr.is_open(),"could not open binary file at '%s' for reading",sFilePath.c_str());
-        int32_t nDataType;
+        int32_t nDataType = -1;
         ssStr.read((char*)&nDataType,sizeof(nDataType));
-        uint64_t nElemSize;
+        uint64_t nElemSize = 0u;
         ssStr.read((char*)&nElemSize,sizeof(nElemSize));
-        uint64_t nElemCount;
+        uint64_t nElemCount = 0u;
         ssStr.read((char*)&nElemCount,sizeof(nElemCount));
-        int32_t nDims;
+        int32_t nDims = 0;
         ssStr.read((char*)&nDims,sizeof(nDims));
+        lvAssert_(ssStr && nDims>0 && nDims<=32,"bad dimension count in archive header");
         std::vector<int32_t> anSizes(nDims);
         for(int32_t nDimIdx=0; nDimIdx<nDims; ++nDimIdx)
             ssStr.read((char*)&anSizes[nDimIdx],sizeof(anSizes[nDimIdx]));
-        oData.create(nDims,anSizes.data(),nDataType);
+        allocArchivedMat(ssStr,oData,nDataType,nElemSize,nElemCount,anSizes,0u);
         lvAssert_(ssStr,"binary archive read failed");
         if(oData.total()>0u) {
-            int32_t nComprSize;
+            int32_t nComprSize = -1;
             ssStr.read((char*)&nComprSize,sizeof(nComprSize));
-            lvAssert_(nComprSize>=0 && uint64_t(nComprSize)<=(nElemSize*nElemCount),"bad lz4 compressed size");
+            lvAssert_(ssStr && nComprSize>=0 && uint64_t(nComprSize)<=(nElemSize*nElemCount),"bad lz4 compressed size");
             if(nComprSize==0) // could not compress any more, use raw data instead
                 ssStr.read((char*)(oData.data),nElemSize*nElemCount);
             else {
@@ -609,18 +635,19 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
     else if(eArchiveType==MatArchive_BINARY) {
         std::ifstream ssStr(sFilePath,std::ios::binary);
         lvAssert__(ssStr.is_open(),"could not open binary file at '%s' for reading",sFilePath.c_str());
-        int32_t nDataType;
+        int32_t nDataType = -1;
         ssStr.read((char*)&nDataType,sizeof(nDataType));
-        uint64_t nElemSize;
+        uint64_t nElemSize = 0u;
         ssStr.read((char*)&nElemSize,sizeof(nElemSize));
-        uint64_t nElemCount;
+        uint64_t nElemCount = 0u;
         ssStr.read((char*)&nElemCount,sizeof(nElemCount));
-        int32_t nDims;
+        int32_t nDims = 0;
         ssStr.read((char*)&nDims,sizeof(nDims));
+        lvAssert_(ssStr && nDims>0 && nDims<=32,"bad dimension count in archive header");
         std::vector<int32_t> anSizes(nDims);
         for(int32_t nDimIdx=0; nDimIdx<nDims; ++nDimIdx)
             ssStr.read((char*)&anSizes[nDimIdx],sizeof(anSizes[nDimIdx]));
-        oData.create(nDims,anSizes.data(),nDataType);
+        allocArchivedMat(ssStr,oData,nDataType,nElemSize,nElemCount,anSizes,nElemSize);
         ssStr.read((char*)(oData.data),nElemSize*nElemCount);
         lvAssert_(ssStr,"binary archive read failed");
     }
-- 
2.43.0


From 20b7cdd5dd68183f815c044189315e3174129be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:15 +0000
Subject: [PATCH 025/125] fix: read back infinite and NaN values from plain
 text matrix archives

---
 modules/utils/src/opencv.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index c54fc02..8008176 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -589,11 +589,14 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
         allocArchivedMat(ssStr,oDataTemp,CV_64FC(nChannels),sizeof(double)*nChannels,nElemCount,anSizes,(uint64_t)nChannels);
         double* pdData = (double*)oDataTemp.data;
         for(int nElemIdx=0; nElemIdx<(int)oDataTemp.total(); ++nElemIdx) {
-            ssStr >> *pdData++;
-            for(int nElemPackIdx=1; nElemPackIdx<oDataTemp.channels(); ++nElemPackIdx)
-                ssStr >> *pdData++;
+            for(int nElemPackIdx=0; nElemPackIdx<oDataTemp.channels(); ++nElemPackIdx) {
+                // note: stream extraction operators cannot parse inf/nan values, even if insertion operators write them
+                lvAssert_(ssStr >> sFieldValue,"plain text archive read failed");
+                char* pValueEnd = nullptr;
+                *pdData++ = std::strtod(sFieldValue.c_str(),&pValueEnd);
+                lvAssert__(pValueEnd==sFieldValue.c_str()+sFieldValue.size(),"could not parse value '%s' from archive",sFieldValue.c_str());
+            }
         }
-        lvAssert_(ssStr,"plain text archive read failed");
         oDataTemp.convertTo(oData,nDataDepth);
     }
 #if USING_LZ4
-- 
2.43.0


From c82cca161494b7db34838b0aceb84e3b44a7b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:08 +0000
Subject: [PATCH 026/125] fix: keep row steps when converting non-continuous
 matrices to basic matrices

---
 modules/utils/include/litiv/utils/opencv.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index 30a323d..2ad6819 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -607,11 +607,14 @@ namespace lv {
         static_assert(isDataTypeCompat<T>(),"matrix type must be cv-compatible, and without channels");
         lvAssert_(lv::MatType(oMat.type()).isTypeCompat<T>(),"input mat type is not compatible with required output type");
         if(oMat.channels()==1)
-            return cv::Mat_<T>(oMat.dims,oMat.size,const_cast<T*>((const T*)oMat.data));
+            return cv::Mat_<T>(oMat.dims,oMat.size,const_cast<T*>((const T*)oMat.data),oMat.step.p);
         std::vector<int> vDims((size_t)(oMat.dims+1),oMat.channels());
-        for(int nDimIdx=0; nDimIdx<oMat.dims; ++nDimIdx)
+        std::vector<size_t> vSteps((size_t)(oMat.dims+1),oMat.elemSize1());
+        for(int nDimIdx=0; nDimIdx<oMat.dims; ++nDimIdx) {
             vDims[nDimIdx] = oMat.size[nDimIdx];
-        return cv::Mat_<T>(oMat.dims+1,vDims.data(),const_cast<T*>((const T*)oMat.data));
+            vSteps[nDimIdx] = oMat.step[nDimIdx];
+        }
+        return cv::Mat_<T>(oMat.dims+1,vDims.data(),const_cast<T*>((const T*)oMat.data),vSteps.data());
     }
 
     /// returns a subselection of a n-dimension matrix by specifying one dim+range pair, without copying data
-- 
2.43.0


From 022af759740b1ff054010ad19df82be296bb5c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:08 +0000
Subject: [PATCH 027/125] fix: floor sub pixel coordinates so that negative
 ones are interpolated instead of extrapolated

---
 modules/utils/include/litiv/utils/opencv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index 2ad6819..f2a3c8c 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -644,7 +644,7 @@ namespace lv {
         static_assert(lv::isDataTypeCompat<TMatVal>(),"bad templated data type used for sub pixel sampling");
         static_assert(std::is_arithmetic<TRetVal>::value,"output type must be arithmetic type");
         lvDbgAssert_(!oMat.empty() && oMat.dims==2,"bad input matrix");
-        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)fX,nY=(int)fY;
+        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)std::floor(fX),nY=(int)std::floor(fY);
         const int nX0=cv::borderInterpolate(nX,nCols,nBorderType),nX1=cv::borderInterpolate(nX+1,nCols,nBorderType);
         const int nY0=cv::borderInterpolate(nY,nRows,nBorderType),nY1=cv::borderInterpolate(nY+1,nRows,nBorderType);
         const float fDX=fX-(float)nX,fDY=fY-(float)nY;
@@ -673,7 +673,7 @@ namespace lv {
         static_assert(lv::isDataTypeCompat<TMatVal>(),"bad templated data type used for sub pixel sampling");
         static_assert(std::is_arithmetic<TRetVal>::value,"output type must be arithmetic type");
         lvDbgAssert_(!oMat.empty() && oMat.dims==2 && oMat.channels()==1,"bad input matrix");
-        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)fX,nY=(int)fY;
+        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)std::floor(fX),nY=(int)std::floor(fY);
         const int nX0=cv::borderInterpolate(nX,nCols,nBorderType),nX1=cv::borderInterpolate(nX+1,nCols,nBorderType);
         const int nY0=cv::borderInterpolate(nY,nRows,nBorderType),nY1=cv::borderInterpolate(nY+1,nRows,nBorderType);
         const float fDX = fX-(float)nX, fDY=fY-(float)nY;
-- 
2.43.0


From 8043820d3ab5c35ce77c49d090bab09b54657c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:39 +0000
Subject: [PATCH 028/125] fix: multi-channel getSubPix overload for untyped
 matrices (never compiled)

---
 modules/utils/include/litiv/utils/opencv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index f2a3c8c..0da8517 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -664,7 +664,7 @@ namespace lv {
         static_assert(lv::isDataTypeCompat<TMatVal>(),"bad templated data type used for sub pixel sampling");
         static_assert(std::is_arithmetic<TRetVal>::value,"output type must be arithmetic type");
         lvDbgAssert_((lv::MatType(oMat).isTypeCompat<cv::Vec<TMatVal,nChannels>,true>()),"internal mat type incompatible with templated one");
-        return getSubPix<TMatVal,nChannels,TRetVal>(cv::Mat_<TMatVal>(oMat),fX,fY,nBorderType);
+        return getSubPix<TMatVal,nChannels,TRetVal>(cv::Mat_<cv::Vec<TMatVal,nChannels>>(oMat),fX,fY,nBorderType);
     }
 
     /// returns a subpixel value in a 2d matrix by bilinear interpolation (note: slower than a pre-mapped version!)
-- 
2.43.0


From 218ec3f6a9e2715643fc1ed1eeda067746602011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:39 +0000
Subject: [PATCH 029/125] fix: do not read past the ROI when validating
 keypoints close to its last row or column

---
 modules/utils/include/litiv/utils/opencv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index 0da8517..11c67e2 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -1112,7 +1112,7 @@ namespace lv {
         std::vector<cv::KeyPoint> vNewKPs;
         vNewKPs.reserve(vKPs.size());
         for(const auto& oKP : vKPs) {
-            if(oKP.pt.x>=0 && oKP.pt.x<oROI.cols && oKP.pt.y>=0 && oKP.pt.y<oROI.rows && oROI.at<uint8_t>(oKP.pt)>0)
+            if(oKP.pt.x>=0 && oKP.pt.x<oROI.cols && oKP.pt.y>=0 && oKP.pt.y<oROI.rows && oROI.at<uint8_t>((int)oKP.pt.y,(int)oKP.pt.x)>0)
                 vNewKPs.push_back(oKP);
         }
         vKPs = vNewKPs;
-- 
2.43.0


From 7548afc19bd0969e745562e2ea093cadf7de1d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:41 +0000
Subject: [PATCH 030/125] fix: do not overrun sub-matrices when reading file
 storage archives into them

---
 modules/utils/src/opencv.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 8008176..1c49a81 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -561,6 +561,8 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
     if(eArchiveType==MatArchive_FILESTORAGE) {
         cv::FileStorage oArchive(sFilePath,cv::FileStorage::READ);
         lvAssert__(oArchive.isOpened(),"could not open archive at '%s' for reading",sFilePath.c_str());
+        if(!oData.isContinuous()) // opencv would otherwise fill the parent of this matrix as if it was continuous
+            oData.release();
         oArchive["matrix"] >> oData;
         lvAssert_(!oData.empty(),"could not read valid matrix from storage");
     }
-- 
2.43.0


From e9b8108501d49529c08af236fc92748afc019766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:14 +0000
Subject: [PATCH 031/125] fix: fill last row/column with the requested border
 type in negative subpixel shifts

---
 modules/utils/src/opencv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 1c49a81..6d2cc82 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -827,9 +827,9 @@ void lv::shift(const cv::Mat& oInput, cv::Mat& oOutput, const cv::Point2f& vDelt
     const cv::Point2i vDeltaInt((int)std::ceil(vDelta.x),(int)std::ceil(vDelta.y));
     const cv::Point2f vDeltaSubPx(std::abs(vDelta.x-vDeltaInt.x),std::abs(vDelta.y-vDeltaInt.y));
     const int nTop = (vDeltaInt.y>0)?vDeltaInt.y:0;     // NOLINT
-    const int nBottom = (vDeltaInt.y<0)?-vDeltaInt.y:0; // NOLINT
+    const int nBottom = ((vDeltaInt.y<0)?-vDeltaInt.y:0)+((vDeltaSubPx.y>0.0f)?1:0); // NOLINT (with extra row for subpixel interpolation)
     const int nLeft = (vDeltaInt.x>0)?vDeltaInt.x:0;    // NOLINT
-    const int nRight = (vDeltaInt.x<0)?-vDeltaInt.x:0;  // NOLINT
+    const int nRight = ((vDeltaInt.x<0)?-vDeltaInt.x:0)+((vDeltaSubPx.x>0.0f)?1:0); // NOLINT (with extra col for subpixel interpolation)
     cv::Mat oPaddedInput;
     cv::copyMakeBorder(oInput,oPaddedInput,nTop,nBottom,nLeft,nRight,nFillType,vConstantFillValue);
     if(vDeltaSubPx.x>std::numeric_limits<float>::epsilon() || vDeltaSubPx.y>std::numeric_limits<float>::epsilon()) {
-- 
2.43.0


From 7fa2de77ba38591a84dead378e75f634b73bc290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:14 +0000
Subject: [PATCH 032/125] fix: keep logpolar mask bins in range when the
 angular bin count does not divide 360

---
 modules/utils/src/opencv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 6d2cc82..8078efc 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -87,7 +87,7 @@ void lv::getLogPolarMask(int nMaskSize, int nRadialBins, int nAngularBins, cv::M
                 const int nRadBinIdx = int(fDist>0.0f?std::log10(fDist)*fRadBinLogBase:0.0f);
                 if(nRadBinIdx>=nInitDistBin && nRadBinIdx<nRadialBins) {
                     const float fAng = std::atan2((float)nRowIdx,(float)nColIdx)/float(M_PI)*180.0f;
-                    const int nAngleBinIdx = (((int)std::round(fAng<0?fAng+360.0f:fAng)+nAngBinSize/2)%360)/nAngBinSize;
+                    const int nAngleBinIdx = (((int)std::round(fAng<0?fAng+360.0f:fAng)+nAngBinSize/2)%360)*nAngularBins/360;
                     pnMaskRow[nColIdx+nPatchRadius] = nAngleBinIdx*(nRadialBins-nInitDistBin)+((nRadialBins-nInitDistBin-1)-(nRadBinIdx-nInitDistBin));
                     if(pnFirstMaskIdx!=nullptr)
                         *pnFirstMaskIdx = std::min(*pnFirstMaskIdx,nCurrMaskIdx);
-- 
2.43.0


From 5eba74d2679d90a2388c2df4991e55fe11087a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:14 +0000
Subject: [PATCH 033/125] fix: logpolar mask with a single radial bin was
 always empty

---
 modules/utils/src/opencv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 8078efc..0d1f78e 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -52,7 +52,7 @@ void lv::getLogPolarMask(int nMaskSize, int nRadialBins, int nAngularBins, cv::M
         std::vector<float> vRadBinDists((size_t)nRadialBins);
         const float fRadBinPowBase = (float)std::pow(nRadialBins,1/(float)nRadialBins);
         for(int nRadBinIdx=0; nRadBinIdx<nRadialBins; ++nRadBinIdx)
-            vRadBinDists[nRadBinIdx] = float(((std::pow(fRadBinPowBase,nRadBinIdx+1)-1)/(nRadialBins-1)*nCenterIdx)+((nRadBinIdx==(nRadialBins-1))?0.0f:fRadiusOffset));
+            vRadBinDists[nRadBinIdx] = float(((nRadialBins>1)?((std::pow(fRadBinPowBase,nRadBinIdx+1)-1)/(nRadialBins-1)*nCenterIdx):nCenterIdx)+((nRadBinIdx==(nRadialBins-1))?0.0f:fRadiusOffset));
         for(int nRowIdx=0; nRowIdx<nMaskSize; ++nRowIdx) {
             int* const pnMaskRow = oOutputMask.ptr<int>(nRowIdx);
             for(int nColIdx=0; nColIdx<nMaskSize; ++nColIdx,++nCurrMaskIdx) {
-- 
2.43.0


From 9c1f5cc98ab8c9099c088b6795fedb285cba4608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:09 +0000
Subject: [PATCH 034/125] fix: compare/list all values of n-dimensional
 submatrices (only first slice was visited)

---
 modules/utils/include/litiv/utils/opencv.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index 11c67e2..d5948d7 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -1123,6 +1123,8 @@ namespace lv {
     inline std::vector<T> unique(const cv::Mat_<T>& oMat) {
         if(oMat.empty())
             return std::vector<T>();
+        if(oMat.dims>2 && !oMat.isContinuous()) // opencv iterators do not support n-dim submatrices
+            return lv::unique(cv::Mat_<T>(oMat.clone()));
         const std::set<T> mMap(oMat.begin(),oMat.end());
         return std::vector<T>(mMap.begin(),mMap.end());
     }
@@ -1139,6 +1141,8 @@ namespace lv {
             lvAssert_(a.elemSize()>=sizeof(T),"unsupported element type for comparison");
             return std::equal((T*)a.data,(T*)(a.data+a.total()*a.elemSize()),(T*)b.data);
         }
+        if(a.dims>2) // opencv iterators do not support n-dim submatrices
+            return lv::isEqual<T>(a.isContinuous()?a:a.clone(),b.isContinuous()?b:b.clone());
         lvAssert_(a.elemSize()==sizeof(T),"unsupported element type for comparison");
         return std::equal(a.begin<T>(),a.end<T>(),b.begin<T>());
     }
@@ -1159,6 +1163,8 @@ namespace lv {
             return std::equal((T*)a.data,(T*)(a.data+a.total()*a.elemSize()),(T*)b.data,[&dEps](const T& _a, const T& _b){
                 return std::abs(double(_a)-double(_b))<=dEps;
             });
+        if(a.dims>2) // opencv iterators do not support n-dim submatrices
+            return lv::isNearlyEqual<T>(a.isContinuous()?a:a.clone(),b.isContinuous()?b:b.clone(),eps);
         return std::equal(a.begin(),a.end(),b.begin(),[&dEps](const T& _a, const T& _b){
             return std::abs(double(_a)-double(_b))<=dEps;
         });
-- 
2.43.0


From c5ac6a602ae5370f91224dd08ff40a7f752a2305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:28 +0000
Subject: [PATCH 035/125] fix: round LBSP keypoint coordinates like the border
 filter does, instead of reading out of bounds

---
 modules/features2d/src/LBSP.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/features2d/src/LBSP.cpp b/modules/features2d/src/LBSP.cpp
index 18b586b..2933525 100644
--- a/modules/features2d/src/LBSP.cpp
+++ b/modules/features2d/src/LBSP.cpp
@@ -165,8 +165,8 @@ void lbsp_computeImpl(const cv::Mat& oInputImg, const cv::Mat& oRefImg, const st
         else
             oDesc.create(oInputImg.size(),CV_16UC1);
         for(size_t k=0; k<nKeyPoints; ++k) {
-            const int x = (int)voKeyPoints[k].pt.x;
-            const int y = (int)voKeyPoints[k].pt.y;
+            const int x = cvRound(voKeyPoints[k].pt.x);
+            const int y = cvRound(voKeyPoints[k].pt.y);
             ushort& nResult = bSingleColumnDesc?oDesc.at<ushort>((int)k):oDesc.at<ushort>(y,x);
             LBSP::computeDescriptor<1>(oInputImg,oRefMat.at<uchar>(y,x),x,y,0,t,nResult);
         }
@@ -178,8 +178,8 @@ void lbsp_computeImpl(const cv::Mat& oInputImg, const cv::Mat& oRefImg, const st
             oDesc.create(oInputImg.size(),CV_16UC3);
         alignas(16) const std::array<uchar,3> anThreshold = {t,t,t};
         for(size_t k=0; k<nKeyPoints; ++k) {
-            const int x = (int)voKeyPoints[k].pt.x;
-            const int y = (int)voKeyPoints[k].pt.y;
+            const int x = cvRound(voKeyPoints[k].pt.x);
+            const int y = cvRound(voKeyPoints[k].pt.y);
             const uchar* acRef = oRefMat.data+oInputImg.step.p[0]*y+oInputImg.step.p[1]*x;
             ushort* anResult = (ushort*)(bSingleColumnDesc?(oDesc.data+oDesc.step.p[0]*k):(oDesc.data+oDesc.step.p[0]*y+oDesc.step.p[1]*x));
             LBSP::computeDescriptor(oInputImg,acRef,x,y,anThreshold,anResult);
@@ -201,8 +201,8 @@ void lbsp_computeImpl(const cv::Mat& oInputImg, const cv::Mat& oRefImg, const st
         else
             oDesc.create(oInputImg.size(),CV_16UC1);
         for(size_t k=0; k<nKeyPoints; ++k) {
-            const int x = (int)voKeyPoints[k].pt.x;
-            const int y = (int)voKeyPoints[k].pt.y;
+            const int x = cvRound(voKeyPoints[k].pt.x);
+            const int y = cvRound(voKeyPoints[k].pt.y);
             const uchar nThreshold = cv::saturate_cast<uchar>(oRefMat.at<uchar>(y,x)*fThreshold+nThresholdOffset);
             ushort& nResult = bSingleColumnDesc?oDesc.at<ushort>((int)k):oDesc.at<ushort>(y,x);
             LBSP::computeDescriptor<1>(oInputImg,oRefMat.at<uchar>(y,x),x,y,0,nThreshold,nResult);
@@ -214,8 +214,8 @@ void lbsp_computeImpl(const cv::Mat& oInputImg, const cv::Mat& oRefImg, const st
         else
             oDesc.create(oInputImg.size(),CV_16UC3);
         for(size_t k=0; k<nKeyPoints; ++k) {
-            const int x = (int)voKeyPoints[k].pt.x;
-            const int y = (int)voKeyPoints[k].pt.y;
+            const int x = cvRound(voKeyPoints[k].pt.x);
+            const int y = cvRound(voKeyPoints[k].pt.y);
             const uchar* acRef = oRefMat.data+oInputImg.step.p[0]*y+oInputImg.step.p[1]*x;
             alignas(16) const std::array<uchar,3> anThreshold = {cv::saturate_cast<uchar>(acRef[0]*fThreshold+nThresholdOffset),
                                                                  cv::saturate_cast<uchar>(acRef[1]*fThreshold+nThresholdOffset),
@@ -305,9 +305,9 @@ void LBSP::reshapeDesc(cv::Size oSize, const std::vector<cv::KeyPoint>& voKeypoi
         oOutput.create(oSize,CV_16UC3);
         oOutput = cv::Scalar_<ushort>(0,0,0);
         for(size_t k=0; k<nKeyPoints; ++k) {
-            ushort* output_ptr = (ushort*)(oOutput.data + oOutput.step.p[0]*(int)voKeypoints[k].pt.y);
+            ushort* output_ptr = (ushort*)(oOutput.data + oOutput.step.p[0]*cvRound(voKeypoints[k].pt.y));
             const ushort* const desc_ptr = (ushort*)(oDescriptors.data + oDescriptors.step.p[0]*k);
-            const size_t idx = 3*(int)voKeypoints[k].pt.x;
+            const size_t idx = 3*cvRound(voKeypoints[k].pt.x);
             for(size_t n=0; n<3; ++n)
                 output_ptr[idx+n] = desc_ptr[n];
         }
-- 
2.43.0


From c562dcc02ce801b179b1cb9c5cfc9a90525275e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:28 +0000
Subject: [PATCH 036/125] fix: clear LBSP descriptor maps before filling them
 at keypoints (as compute+reshapeDesc does)

---
 modules/features2d/src/LBSP.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/modules/features2d/src/LBSP.cpp b/modules/features2d/src/LBSP.cpp
index 2933525..229709f 100644
--- a/modules/features2d/src/LBSP.cpp
+++ b/modules/features2d/src/LBSP.cpp
@@ -162,8 +162,10 @@ void lbsp_computeImpl(const cv::Mat& oInputImg, const cv::Mat& oRefImg, const st
     if(nChannels==1) {
         if(bSingleColumnDesc)
             oDesc.create((int)nKeyPoints,1,CV_16UC1);
-        else
+        else {
             oDesc.create(oInputImg.size(),CV_16UC1);
+            oDesc = cv::Scalar::all(0);
+        }
         for(size_t k=0; k<nKeyPoints; ++k) {
             const int x = cvRound(voKeyPoints[k].pt.x);
             const int y = cvRound(voKeyPoints[k].pt.y);
@@ -174,8 +176,10 @@ void lbsp_computeImpl(const cv::Mat& oInputImg, const cv::Mat& oRefImg, const st
     else { //nChannels==3
         if(bSingleColumnDesc)
             oDesc.create((int)nKeyPoints,1,CV_16UC3);
-        else
+        else {
             oDesc.create(oInputImg.size(),CV_16UC3);
+            oDesc = cv::Scalar::all(0);
+        }
         alignas(16) const std::array<uchar,3> anThreshold = {t,t,t};
         for(size_t k=0; k<nKeyPoints; ++k) {
             const int x = cvRound(voKeyPoints[k].pt.x);
@@ -198,8 +202,10 @@ void lbsp_computeImpl(const cv::Mat& oInputImg, const cv::Mat& oRefImg, const st
     if(nChannels==1) {
         if(bSingleColumnDesc)
             oDesc.create((int)nKeyPoints,1,CV_16UC1);
-        else
+        else {
             oDesc.create(oInputImg.size(),CV_16UC1);
+            oDesc = cv::Scalar::all(0);
+        }
         for(size_t k=0; k<nKeyPoints; ++k) {
             const int x = cvRound(voKeyPoints[k].pt.x);
             const int y = cvRound(voKeyPoints[k].pt.y);
@@ -211,8 +217,10 @@ void lbsp_computeImpl(const cv::Mat& oInputImg, const cv::Mat& oRefImg, const st
     else { //nChannels==3
         if(bSingleColumnDesc)
             oDesc.create((int)nKeyPoints,1,CV_16UC3);
-        else
+        else {
             oDesc.create(oInputImg.size(),CV_16UC3);
+            oDesc = cv::Scalar::all(0);
+        }
         for(size_t k=0; k<nKeyPoints; ++k) {
             const int x = cvRound(voKeyPoints[k].pt.x);
             const int y = cvRound(voKeyPoints[k].pt.y);
-- 
2.43.0


From c2b5bc7ede72649266f26099674f888ce8480ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:28 +0000
Subject: [PATCH 037/125] fix: array overload of
 LBSP::computeDescriptor_gradient (never compiled)

---
 modules/features2d/include/litiv/features2d/LBSP.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/features2d/include/litiv/features2d/LBSP.hpp b/modules/features2d/include/litiv/features2d/LBSP.hpp
index e6de80b..c4313a0 100644
--- a/modules/features2d/include/litiv/features2d/LBSP.hpp
+++ b/modules/features2d/include/litiv/features2d/LBSP.hpp
@@ -228,7 +228,7 @@ public:
     static inline void computeDescriptor_gradient(const std::array<std::array<uchar,DESC_SIZE_BITS>,nChannels>& aanVals, const std::array<uchar,nChannels>& anRefs, Tr1& nGradX, Tr1& nGradY, Tr2& nGradMag) {
         static_assert(sizeof(std::array<std::array<uchar,DESC_SIZE_BITS>,nChannels>)==sizeof(uchar)*DESC_SIZE_BITS*nChannels,"terrible impl of std::array right here");
         static_assert(sizeof(std::array<uchar,nChannels>)==sizeof(uchar)*nChannels,"terrible impl of std::array right here");
-        LBSP::computeDescriptor_gradient<nChannels,nAbsOffset,nRelShift>(aanVals.data(),anRefs.data(),nGradX,nGradY,nGradMag);
+        LBSP::computeDescriptor_gradient<nChannels,nAbsOffset,nRelShift>(aanVals[0].data(),anRefs.data(),nGradX,nGradY,nGradMag);
     }
 
     /// utility function, shortcut/lightweight/direct single-point LBSP gradient estimation function (mixes rel+abs, returns max-channel only)
-- 
2.43.0


From 0858c1e5568ed34338362fd620ad363fbca4a2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:15 +0000
Subject: [PATCH 038/125] fix: pass the text of failed assertions as an
 argument, so that vptz (which has no lv::putf) still builds

---
 modules/utils/include/litiv/utils/defines.hpp.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/defines.hpp.in b/modules/utils/include/litiv/utils/defines.hpp.in
index 52408be..e6f0014 100644
--- a/modules/utils/include/litiv/utils/defines.hpp.in
+++ b/modules/utils/include/litiv/utils/defines.hpp.in
@@ -110,7 +110,7 @@
         #define lvError_(msg,...) throw lv::Exception(std::string("[lvError: ").append((msg)).append("]"),__PRETTY_FUNCTION__,__FILE__,__LINE__,__VA_ARGS__)
         #define lvAssert(expr) do {if(!!(expr)); else throw lv::Exception(std::string("[lvAssertError] ("#expr")"),__PRETTY_FUNCTION__,__FILE__,__LINE__);} while(false)
         #define lvAssert_(expr,msg) do {if(!!(expr)); else throw lv::Exception(std::string("[lvAssertError: ").append((msg)).append("] ("#expr")"),__PRETTY_FUNCTION__,__FILE__,__LINE__);} while(false)
-        #define lvAssert__(expr,msg,...) do {if(!!(expr)); else throw lv::Exception(lv::putf(std::string("[lvAssertError: ").append((msg)).append("] ").c_str(),__VA_ARGS__).append("("#expr")"),__PRETTY_FUNCTION__,__FILE__,__LINE__);} while(false)
+        #define lvAssert__(expr,msg,...) do {if(!!(expr)); else throw lv::Exception(std::string("[lvAssertError: ").append((msg)).append("] (%s)"),__PRETTY_FUNCTION__,__FILE__,__LINE__,__VA_ARGS__,#expr);} while(false)
         #define lvLog(level,msg) (lv::ostream_guard<std::ostream>(std::cout,level) << (msg) << '\n')
         #define lvLog_(level,msg,...) (lv::ostream_guard<std::ostream>(std::cout,level) << lv::putf(msg,__VA_ARGS__) << '\n')
         #define lvWarn(msg) (lv::ostream_guard<std::ostream>(std::cerr) << "[lvWarn @ " << __FILE__ << "(" << __LINE__ << "):\n\t" << (msg) << "\n]\n")
-- 
2.43.0


From 9452067dcf5d903a6c611aafe80d65299eec5eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:34 +0000
Subject: [PATCH 039/125] fix: restore border handling of negative subpixel
 shifts (reference data of descriptor_affinity tests depends on it)

---
 modules/utils/src/opencv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 0d1f78e..b2303a9 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -827,9 +827,9 @@ void lv::shift(const cv::Mat& oInput, cv::Mat& oOutput, const cv::Point2f& vDelt
     const cv::Point2i vDeltaInt((int)std::ceil(vDelta.x),(int)std::ceil(vDelta.y));
     const cv::Point2f vDeltaSubPx(std::abs(vDelta.x-vDeltaInt.x),std::abs(vDelta.y-vDeltaInt.y));
     const int nTop = (vDeltaInt.y>0)?vDeltaInt.y:0;     // NOLINT
-    const int nBottom = ((vDeltaInt.y<0)?-vDeltaInt.y:0)+((vDeltaSubPx.y>0.0f)?1:0); // NOLINT (with extra row for subpixel interpolation)
+    const int nBottom = (vDeltaInt.y<0)?-vDeltaInt.y:0; // NOLINT
     const int nLeft = (vDeltaInt.x>0)?vDeltaInt.x:0;    // NOLINT
-    const int nRight = ((vDeltaInt.x<0)?-vDeltaInt.x:0)+((vDeltaSubPx.x>0.0f)?1:0); // NOLINT (with extra col for subpixel interpolation)
+    const int nRight = (vDeltaInt.x<0)?-vDeltaInt.x:0;  // NOLINT
     cv::Mat oPaddedInput;
     cv::copyMakeBorder(oInput,oPaddedInput,nTop,nBottom,nLeft,nRight,nFillType,vConstantFillValue);
     if(vDeltaSubPx.x>std::numeric_limits<float>::epsilon() || vDeltaSubPx.y>std::numeric_limits<float>::epsilon()) {
-- 
2.43.0


From 23f4127c8ce720f8b9f28321d114157336ff76cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:18 +0000
Subject: [PATCH 040/125] fix: round LSS keypoint coordinates like the border
 filter does, instead of failing on out-of-image windows

---
 modules/features2d/src/LSS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/features2d/src/LSS.cpp b/modules/features2d/src/LSS.cpp
index 2dda719..76b5407 100644
--- a/modules/features2d/src/LSS.cpp
+++ b/modules/features2d/src/LSS.cpp
@@ -239,8 +239,8 @@ void LSS::ssdescs_impl(const cv::Mat& _oImage, std::vector<cv::KeyPoint>& voKeyp
         oDescriptors.create(int(voKeypoints.size()),nDescSize);
     for(int nKeyPtIdx=0; nKeyPtIdx<int(voKeypoints.size()); ++nKeyPtIdx) {
         const cv::KeyPoint& oCurrKeyPt = voKeypoints[nKeyPtIdx];
-        const int nRowIdx = int(oCurrKeyPt.pt.y);
-        const int nColIdx = int(oCurrKeyPt.pt.x);
+        const int nRowIdx = cvRound(oCurrKeyPt.pt.y); // rounded, just like in the image border filter
+        const int nColIdx = cvRound(oCurrKeyPt.pt.x);
         lvDbgAssert(nRowIdx>=0 && nColIdx>=0);
         const cv::Mat oWindow = oImage(cv::Rect(nColIdx-nCorrWinRadius,nRowIdx-nCorrWinRadius,m_nCorrWinSize,m_nCorrWinSize));
         const cv::Mat oTempl = oImage(cv::Rect(nColIdx-nPatchRadius,nRowIdx-nPatchRadius,m_nPatchSize,m_nPatchSize));
-- 
2.43.0


From 75a58390b17880ac1022a02d52ee6817296ea5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:18 +0000
Subject: [PATCH 041/125] fix: clear LSS descriptor maps before filling them at
 keypoints (others held uninitialized values)

---
 modules/features2d/src/LSS.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/features2d/src/LSS.cpp b/modules/features2d/src/LSS.cpp
index 76b5407..dc0ee31 100644
--- a/modules/features2d/src/LSS.cpp
+++ b/modules/features2d/src/LSS.cpp
@@ -233,8 +233,10 @@ void LSS::ssdescs_impl(const cv::Mat& _oImage, std::vector<cv::KeyPoint>& voKeyp
     static thread_local lv::AutoBuffer<float> s_aTempDesc;
     s_aTempDesc.resize(((size_t)nDescSize));
     cv::Mat_<float> oTempDesc(1,nDescSize,s_aTempDesc.data());
-    if(bGenDescMap)
+    if(bGenDescMap) {
         oDescriptors.create(3,std::array<int,3>{oImage.rows,oImage.cols,nDescSize}.data());
+        oDescriptors = 0.0f;
+    }
     else
         oDescriptors.create(int(voKeypoints.size()),nDescSize);
     for(int nKeyPtIdx=0; nKeyPtIdx<int(voKeypoints.size()); ++nKeyPtIdx) {
-- 
2.43.0


From 5f9d02783536ac07d41ed79eb7c2e60c6a691a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:18 +0000
Subject: [PATCH 042/125] fix: LSS/DASC descriptor maps were not returned in
 matrices previously used for other image sizes

---
 modules/features2d/src/DASC.cpp | 4 +---
 modules/features2d/src/LSS.cpp  | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/features2d/src/DASC.cpp b/modules/features2d/src/DASC.cpp
index 8730e55..51dc43d 100644
--- a/modules/features2d/src/DASC.cpp
+++ b/modules/features2d/src/DASC.cpp
@@ -136,10 +136,8 @@ bool DASC::isPreProcessing() const {
 void DASC::compute2(const cv::Mat& oImage, cv::Mat& oDescMap_) {
     lvAssert_(oDescMap_.empty() || oDescMap_.type()==CV_32FC1,"wrong output desc map type");
     cv::Mat_<float> oDescMap = oDescMap_;
-    const bool bEmptyInit = oDescMap.empty();
     compute2(oImage,oDescMap);
-    if(bEmptyInit)
-        oDescMap_ = oDescMap;
+    oDescMap_ = oDescMap; // might have been reallocated (e.g. for another image size)
 }
 
 void DASC::compute2(const cv::Mat& oImage, cv::Mat_<float>& oDescMap) {
diff --git a/modules/features2d/src/LSS.cpp b/modules/features2d/src/LSS.cpp
index dc0ee31..de248c6 100644
--- a/modules/features2d/src/LSS.cpp
+++ b/modules/features2d/src/LSS.cpp
@@ -113,10 +113,8 @@ bool LSS::isUsingLienhartMask() const {
 void LSS::compute2(const cv::Mat& oImage, cv::Mat& oDescMap_) {
     lvAssert_(oDescMap_.empty() || oDescMap_.type()==CV_32FC1,"wrong output desc map type");
     cv::Mat_<float> oDescMap = oDescMap_;
-    const bool bEmptyInit = oDescMap.empty();
     compute2(oImage,oDescMap);
-    if(bEmptyInit)
-        oDescMap_ = oDescMap;
+    oDescMap_ = oDescMap; // might have been reallocated (e.g. for another image size)
 }
 
 void LSS::compute2(const cv::Mat& oImage, cv::Mat_<float>& oDescMap) {
-- 
2.43.0


From 8071f60cd1e7a874547722f2bc8aa495fd50900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:48 +0000
Subject: [PATCH 043/125] fix: mutual information was always zero (or stale)
 with fast approximations, as counts are then not filled

---
 modules/features2d/include/litiv/features2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/features2d/include/litiv/features2d.hpp b/modules/features2d/include/litiv/features2d.hpp
index 6f8daa0..183a42e 100644
--- a/modules/features2d/include/litiv/features2d.hpp
+++ b/modules/features2d/include/litiv/features2d.hpp
@@ -172,7 +172,7 @@ namespace lv {
         lvDbgAssert(lv::getElemCount(pJointProbHistOutput->aMargHists[0])>0 && lv::getElemCount(pJointProbHistOutput->aMargHists[1])>0 && lv::getElemCount(pJointProbHistOutput->oJointHist)>0);
         double dMutualInfoScore = 0.0f;
         std::array<int,2> anIterPos;
-        for(auto pIter=pJointProbHistOutput->oJointCount.begin(); pIter!=pJointProbHistOutput->oJointCount.end(); ++pIter) {
+        for(auto pIter=pJointProbHistOutput->oJointHist.begin(); pIter!=pJointProbHistOutput->oJointHist.end(); ++pIter) {
             const int* anPos = lv::getIterPos(pIter,anIterPos);
             const float& fCurrElemJointProb = lv::getElem(pJointProbHistOutput->oJointHist,anPos);
             if(fCurrElemJointProb>0) {
-- 
2.43.0


From 9989979b3e087e7a9948d06a76d4ded706e1e856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:08 +0000
Subject: [PATCH 044/125] fix: joint histograms of 32-bit integer matrices with
 large value ranges overflowed instead of being refused

---
 modules/features2d/include/litiv/features2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/features2d/include/litiv/features2d.hpp b/modules/features2d/include/litiv/features2d.hpp
index 183a42e..be96e0e 100644
--- a/modules/features2d/include/litiv/features2d.hpp
+++ b/modules/features2d/include/litiv/features2d.hpp
@@ -93,7 +93,7 @@ namespace lv {
                 oOutput.aMinVals[nInputIdx] = int(dMin);
                 oOutput.aMaxVals[nInputIdx] = int(dMax);
             }
-            const size_t nMaxStates = size_t(oOutput.aMaxVals[nInputIdx]-oOutput.aMinVals[nInputIdx])/nQuantifStep+size_t(1);
+            const size_t nMaxStates = size_t(int64_t(oOutput.aMaxVals[nInputIdx])-int64_t(oOutput.aMinVals[nInputIdx]))/nQuantifStep+size_t(1);
             lvAssert_(nMaxStates<size_t(std::numeric_limits<int>::max()),"element type too big to fit in matrix histograms due to int-indexing");
             const std::array<int,2> aMargHistMaxStates = {(aJointHistMaxStates[nInputIdx]=int(nMaxStates)),1};
             oOutput.aMargHists[nInputIdx].create(bUseSparseMats?1:2,aMargHistMaxStates.data());
@@ -116,9 +116,9 @@ namespace lv {
             lv::for_each_w_idx(aInputs,[&](auto oInput, size_t nInputIdx) {
                 typedef typename decltype(oInput)::value_type InputElemType;
                 constexpr bool bSkippingMinMax = (bSkipMinMax && !std::is_same<InputElemType,int>::value);
-                const int nCurrElem = int(oInput(int(nElemIdx)))-(bSkippingMinMax?int(std::numeric_limits<InputElemType>::min()):oOutput.aMinVals[nInputIdx]);
+                const int64_t nCurrElem = int64_t(oInput(int(nElemIdx)))-(bSkippingMinMax?int(std::numeric_limits<InputElemType>::min()):oOutput.aMinVals[nInputIdx]);
                 lvDbgAssert(nCurrElem>=0);
-                const std::array<int,2> aMargHistIdxs = {(aCurrJointHistIdxs[nInputIdx]=nQuantifStep>1?nCurrElem/int(nQuantifStep):nCurrElem),0};
+                const std::array<int,2> aMargHistIdxs = {(aCurrJointHistIdxs[nInputIdx]=int(nQuantifStep>1?nCurrElem/int64_t(nQuantifStep):nCurrElem)),0};
                 if(bFastNumApprox)
                     lv::getElem(oOutput.aMargHists[nInputIdx],aMargHistIdxs.data()) += fCountIncr;
                 else
-- 
2.43.0


From 845500b873316b7e6d62a0633ce70cc0877d8404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:15 +0000
Subject: [PATCH 045/125] fix: shape context maps were not returned in matrices
 previously used for other image sizes

---
 modules/features2d/src/SC.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modules/features2d/src/SC.cpp b/modules/features2d/src/SC.cpp
index 915bda7..1af9f0e 100644
--- a/modules/features2d/src/SC.cpp
+++ b/modules/features2d/src/SC.cpp
@@ -212,10 +212,8 @@ int ShapeContext::chainDetectMethod() const {
 void ShapeContext::compute2(const cv::Mat& oImage, cv::Mat& oDescMap_) {
     lvAssert_(oDescMap_.empty() || oDescMap_.type()==CV_32FC1,"wrong output desc map type");
     cv::Mat_<float> oDescMap = oDescMap_;
-    const bool bEmptyInit = oDescMap.empty();
     compute2(oImage,oDescMap);
-    if(bEmptyInit)
-        oDescMap_ = oDescMap;
+    oDescMap_ = oDescMap;
 }
 
 void ShapeContext::compute2(const cv::Mat& oImage, cv::Mat_<float>& oDescMap) {
-- 
2.43.0


From 42b00478bca0786c55f86026e39fd5c2a86e66b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:15 +0000
Subject: [PATCH 046/125] fix: shape context reused the dense keypoints of an
 older image size after a call without keypoints

---
 modules/features2d/src/SC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/features2d/src/SC.cpp b/modules/features2d/src/SC.cpp
index 1af9f0e..6da27e2 100644
--- a/modules/features2d/src/SC.cpp
+++ b/modules/features2d/src/SC.cpp
@@ -279,6 +279,7 @@ void ShapeContext::detectAndCompute(cv::InputArray _oImage, cv::InputArray _oMas
     cv::Mat oMask = _oMask.getMat();
     lvAssert_(oMask.empty() || (!oMask.empty() && oMask.size()==oImage.size()),"mask must be empty or of equal size to the input image");
     scdesc_fill_contours(oImage);
+    m_bUsingFullKeyPtMap = false;
     if(!bUseProvidedKeypoints) {
         voKeypoints.resize(m_oContourPts.total());
         for(size_t nContourPtIdx=0; nContourPtIdx<voKeypoints.size(); ++nContourPtIdx)
@@ -290,7 +291,6 @@ void ShapeContext::detectAndCompute(cv::InputArray _oImage, cv::InputArray _oMas
         _oDescriptors.release();
         return;
     }
-    m_bUsingFullKeyPtMap = false;
     m_oKeyPts.create((int)voKeypoints.size(),1);
     for(size_t nKeyPtIdx=0; nKeyPtIdx<voKeypoints.size(); ++nKeyPtIdx)
         m_oKeyPts((int)nKeyPtIdx) = voKeypoints[nKeyPtIdx].pt;
-- 
2.43.0


From 6aede1527c95fc6b58cd7e3ac2bcf9580a7d0622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:15 +0000
Subject: [PATCH 047/125] fix: shape context ignored points in the corners of
 the lookup mask when no other point was close

---
 modules/features2d/src/SC.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modules/features2d/src/SC.cpp b/modules/features2d/src/SC.cpp
index 6da27e2..e71c837 100644
--- a/modules/features2d/src/SC.cpp
+++ b/modules/features2d/src/SC.cpp
@@ -51,9 +51,7 @@ ShapeContext::ShapeContext(size_t nInnerRadius, size_t nOuterRadius, size_t nAng
     if(!m_bRotationInvariant) {
         const int nKernelDiameter = m_nOuterRadius*2+5;
         m_oDilateKernel.create(nKernelDiameter,nKernelDiameter);
-        m_oDilateKernel = 0;
-        cv::circle(m_oDilateKernel,cv::Point(m_nOuterRadius+2,m_nOuterRadius+2),m_nOuterRadius+2,cv::Scalar_<uchar>(255),-1);
-        m_oDilateKernel = m_oDilateKernel>0;
+        m_oDilateKernel = 255; // lookup mask bins may extend past the outer radius (up to its corners)
     #if USE_LIENHART_LOOKUP_MASK
         const int nMaskSize = m_nOuterRadius*2+1;
         lv::getLogPolarMask(nMaskSize,m_nRadialBins,m_nAngularBins,m_oAbsDescLUMap,true,(float)m_nInnerRadius);
-- 
2.43.0


From e85721042112bc7535ce1ef0ad5469859761a468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:15 +0000
Subject: [PATCH 048/125] fix: keypoints sharing the same pixel were counted
 several times (and raced) in shape context maps

---
 modules/features2d/src/SC.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/modules/features2d/src/SC.cpp b/modules/features2d/src/SC.cpp
index e71c837..2a9ae74 100644
--- a/modules/features2d/src/SC.cpp
+++ b/modules/features2d/src/SC.cpp
@@ -479,13 +479,15 @@ void ShapeContext::scdesc_fill_desc(cv::Mat_<float>& oDescriptors, bool bGenDesc
         oDescriptors.create(3,std::array<int,3>{m_oCurrImageSize.height,m_oCurrImageSize.width,m_nDescSize}.data());
     else
         oDescriptors.create((int)m_oKeyPts.total(),m_nDescSize);
-    oDescriptors = m_bNonZeroInitBins?std::max(10.0f/m_nDescSize,0.5f):0.0f;
+    const float fInitVal = m_bNonZeroInitBins?std::max(10.0f/m_nDescSize,0.5f):0.0f;
+    oDescriptors = fInitVal;
     scdesc_fill_maps();
     for(int nKeyPtIdx=0; nKeyPtIdx<(int)m_oKeyPts.total(); ++nKeyPtIdx) {
         const cv::Point2f& vKeyPt = ((cv::Point2f*)m_oKeyPts.data)[nKeyPtIdx];
         const int nKeyPtRowIdx = (int)std::round(vKeyPt.y);
         const int nKeyPtColIdx = (int)std::round(vKeyPt.x);
         float* aDesc = bGenDescMap?oDescriptors.ptr<float>(nKeyPtRowIdx,nKeyPtColIdx):oDescriptors.ptr<float>(nKeyPtIdx);
+        std::fill_n(aDesc,m_nDescSize,fInitVal); // an earlier keypoint might share the same map location
         for(int nContourPtIdx=0; nContourPtIdx<(int)m_oContourPts.total(); ++nContourPtIdx) {
             const cv::Point2f& vContourPt = ((cv::Point2f*)m_oContourPts.data)[nContourPtIdx];
             if(std::abs(vKeyPt.x-vContourPt.x)<0.01f && std::abs(vKeyPt.y-vContourPt.y)<0.01f)
@@ -548,6 +550,14 @@ void ShapeContext::scdesc_fill_desc_direct(cv::Mat_<float>& oDescriptors, bool b
     else
         oDescriptors.create((int)m_oKeyPts.total(),m_nDescSize);
     oDescriptors = m_bNonZeroInitBins?std::max(10.0f/m_nDescSize,0.5f):0.0f;
+    cv::Mat_<int> oKeyPtIdxMap; // only used if several keypoints may share the same map location
+    if(bGenDescMap && !m_bUsingFullKeyPtMap) {
+        oKeyPtIdxMap.create(m_oCurrImageSize);
+        for(int nKeyPtIdx=0; nKeyPtIdx<(int)m_oKeyPts.total(); ++nKeyPtIdx) {
+            const cv::Point2f& vKeyPt = ((cv::Point2f*)m_oKeyPts.data)[nKeyPtIdx];
+            oKeyPtIdxMap((int)std::round(vKeyPt.y),(int)std::round(vKeyPt.x)) = nKeyPtIdx;
+        }
+    }
 #if USING_OPENMP
     #pragma omp parallel for
 #endif //USING_OPENMP
@@ -557,6 +567,8 @@ void ShapeContext::scdesc_fill_desc_direct(cv::Mat_<float>& oDescriptors, bool b
         const int nKeyPtColIdx = (int)std::round(vKeyPt.x);
         if(!m_oDistMask(nKeyPtRowIdx,nKeyPtColIdx))
             continue;
+        if(!oKeyPtIdxMap.empty() && oKeyPtIdxMap(nKeyPtRowIdx,nKeyPtColIdx)!=nKeyPtIdx)
+            continue;
         float* aDesc = bGenDescMap?oDescriptors.ptr<float>(nKeyPtRowIdx,nKeyPtColIdx):oDescriptors.ptr<float>(nKeyPtIdx);
         for(int nContourPtIdx=0; nContourPtIdx<(int)m_oContourPts.total(); ++nContourPtIdx) {
             const cv::Point2f& vContourPt = ((cv::Point2f*)m_oContourPts.data)[nContourPtIdx];
-- 
2.43.0


From ea89f63b045186db1387c00dc5095793f1ee8731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:23 +0000
Subject: [PATCH 049/125] fix: refuse to compute the median of an empty set of
 pixels instead of reading past the histogram

---
 modules/imgproc/src/imgproc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 95fd95d..8d8689d 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -207,6 +207,7 @@ int lv::calcMedianValue(const cv::Mat& oInput, const cv::Mat_<uchar>& oMask, std
     int nTotCount;
     const std::vector<int> vCounts = lv::calcHistCounts(oInput,oMask,&nTotCount);
     lvDbgAssert(!vCounts.empty());
+    lvAssert_(nTotCount>0,"cannot compute the median of an empty set (check mask)");
     if(pHistCounts)
         *pHistCounts = vCounts;
     int nBinVal=0,nCurrElemCount=vCounts[0],nHalfCount=nTotCount/2;
-- 
2.43.0


From f24db2acd878e16a833e80591dfb1603d8cd0724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:23 +0000
Subject: [PATCH 050/125] fix: masked integral images always failed (except for
 4 channels) due to the type of the mask fill value

---
 modules/imgproc/src/imgproc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 8d8689d..9f175c7 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -670,7 +670,7 @@ void lv::integral(const cv::Mat& oInput, cv::Mat& oIntegralImg, const cv::Mat_<u
     else {
         static thread_local cv::Mat oMaskedInput;
         oInput.copyTo(oMaskedInput);
-        oMaskedInput.setTo(cv::Scalar_<uchar>::all(0),oMask==0);
+        oMaskedInput.setTo(cv::Scalar::all(0),oMask==0);
         lv::integral(oMaskedInput,oIntegralImg,nOutDepth);
     }
 }
-- 
2.43.0


From b5a3566984af6955949d7d5cac5f2b584ab844bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:40 +0000
Subject: [PATCH 051/125] fix: Lam-Lee-Suen thinning read past its
 neighbourhood lookup table instead of wrapping around

---
 modules/imgproc/src/imgproc.cpp | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 9f175c7..5cfdccb 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -91,29 +91,11 @@ void thinning_internal_LamLeeSuen(cv::Mat& oInput, bool bIter) {
             };
             size_t x_h = 0, n1 = 0, n2 = 0;
             for(size_t k=0; k<4; ++k) {
-#if defined(_MSC_VER) || USE_IMGPROC_THINNING_MATLAB_IMPL_FIX
                 // G1:
                 x_h += bool(!anLUT[2*(k+1)-2] && (anLUT[2*(k+1)-1] || anLUT[(2*(k+1))%8]));
                 // G2:
                 n1 += bool(anLUT[2*(k+1)-2] || anLUT[2*(k+1)-1]);
                 n2 += bool(anLUT[2*(k+1)-1] || anLUT[(2*(k+1))%8]);
-#elif defined(__clang__)
-#pragma clang diagnostic push
-// but no warnings to push...?
-#elif (defined(__GNUC__) || defined(__GNUG__))
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wmaybe-uninitialized"
-#endif //(defined(__GNUC__) || defined(__GNUG__))
-                // G1:
-                x_h += bool(!anLUT[2*(k+1)-2] && (anLUT[2*(k+1)-1] || anLUT[2*(k+1)]));
-                // G2:
-                n1 += bool(anLUT[2*(k+1)-2] || anLUT[2*(k+1)-1]);
-                n2 += bool(anLUT[2*(k+1)-1] || anLUT[2*(k+1)]);
-#if defined(__clang__)
-#pragma clang diagnostic pop
-#elif (defined(__GNUC__) || defined(__GNUG__))
-#pragma GCC diagnostic pop
-#endif //(defined(__GNUC__) || defined(__GNUG__))
             }
             size_t n_min = std::min(n1,n2);
             if(x_h==1 && n_min>=2 && n_min<=3) {
-- 
2.43.0


From 8d692e691701ac5f2113115a657c58e01d8c829e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:40 +0000
Subject: [PATCH 052/125] fix: skip fully masked blocks in non-maximum
 suppression (wrote out of bounds for negative maps)

---
 modules/imgproc/include/litiv/imgproc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/imgproc/include/litiv/imgproc.hpp b/modules/imgproc/include/litiv/imgproc.hpp
index 65e06d4..8ebf8c0 100644
--- a/modules/imgproc/include/litiv/imgproc.hpp
+++ b/modules/imgproc/include/litiv/imgproc.hpp
@@ -138,6 +138,8 @@ void lv::nonMaxSuppression(const cv::Mat& oInput, cv::Mat& oOutput, const cv::Ma
             cv::Range ic(m,std::min(m+nWinSize+1,M));
             cv::Range jc(n,std::min(n+nWinSize+1,N));
             cv::minMaxLoc(oInput(ic,jc), NULL, &vcmax, NULL, &ijmax, masked ? oMask(ic,jc) : cv::noArray());
+            if(ijmax.x<0 || ijmax.y<0)
+                continue; // nothing to find in fully masked blocks
             cv::Point cc = ijmax + cv::Point(jc.start,ic.start);
             // search the neighbours centered around the candidate for the true maxima
             cv::Range in(std::max(cc.y-nWinSize,0),std::min(cc.y+nWinSize+1,M));
-- 
2.43.0


From c5c95aa7f07cfa080de2fecba4b8dab7b7959964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:40 +0000
Subject: [PATCH 053/125] fix: integral images refused their own default output
 depth

---
 modules/imgproc/src/imgproc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 5cfdccb..8bc1369 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -592,6 +592,8 @@ void lv::computeDescriptorAffinity(const cv::cuda::GpuMat& oDescMap1, const cv::
 
 void lv::integral(const cv::Mat& oInput, cv::Mat& oIntegralImg, int nOutDepth) {
     lvAssert_(!oInput.empty() && oInput.depth()==CV_8U && oInput.dims==2 && oInput.isContinuous(),"invalid input matrix");
+    if(nOutDepth<0)
+        nOutDepth = CV_32S; // default depth, as in opencv
     lvAssert_(nOutDepth==CV_32S || nOutDepth==CV_32F,"invalid requested output matrix depth");
     if(oInput.rows+1!=oIntegralImg.rows || oInput.cols+1!=oIntegralImg.cols || oInput.channels()!=oIntegralImg.channels() || oIntegralImg.depth()!=nOutDepth || !oIntegralImg.isContinuous())
         oIntegralImg.create(oInput.rows+1,oInput.cols+1,CV_MAKE_TYPE(nOutDepth,oInput.channels()));
-- 
2.43.0


From b49a1250a8f2e60251fb64ee84b08c1fd425da07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:12 +0000
Subject: [PATCH 054/125] fix: LBSP edge detection overran its maps when a
 pyramid level is smaller than the descriptor border

---
 modules/imgproc/src/EdgeDetectorLBSP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/imgproc/src/EdgeDetectorLBSP.cpp b/modules/imgproc/src/EdgeDetectorLBSP.cpp
index f1e9885..45b46d1 100644
--- a/modules/imgproc/src/EdgeDetectorLBSP.cpp
+++ b/modules/imgproc/src/EdgeDetectorLBSP.cpp
@@ -102,14 +102,14 @@ void EdgeDetectorLBSP::apply_internal_lookup(const cv::Mat& oInputImg) {
                 lBorderColLookup(nRowIter,nCurrRowLUTIdx,nColIter);
         };
         size_t nRowIter = 0;
-        for(; nRowIter<nROIBorderSize; ++nRowIter)
+        for(; nRowIter<std::min(nROIBorderSize,nCurrScaleRows); ++nRowIter)
             lBorderRowLookup(nRowIter);
-        for(; nRowIter<nCurrScaleRows-nROIBorderSize; ++nRowIter) {
+        for(; nRowIter+nROIBorderSize<nCurrScaleRows; ++nRowIter) {
             const size_t nCurrRowLUTIdx = nRowIter*nCurrRowLUTStep;
             size_t nColIter = 0;
-            for(; nColIter<nROIBorderSize; ++nColIter)
+            for(; nColIter<std::min(nROIBorderSize,nCurrScaleCols); ++nColIter)
                 lBorderColLookup(nRowIter,nCurrRowLUTIdx,nColIter);
-            for(; nColIter<nCurrScaleCols-nROIBorderSize; ++nColIter) {
+            for(; nColIter+nROIBorderSize<nCurrScaleCols; ++nColIter) {
                 const size_t nCurrColLUTIdx = nCurrRowLUTIdx+nColIter*nColLUTStep;
                 uchar* aanCurrLUT = m_vvuLBSPLookupMaps[nLevelIter].data()+nCurrColLUTIdx;
                 lvDbgAssert(nCurrColLUTIdx<m_vvuLBSPLookupMaps[nLevelIter].size() && (nCurrColLUTIdx%LBSP::DESC_SIZE_BITS)==0);
-- 
2.43.0


From 35e979e8f08501b82864ae1b0ac1aba40b3a661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:12 +0000
Subject: [PATCH 055/125] fix: LBSP edge masks were shifted upwards by two rows

---
 modules/imgproc/src/EdgeDetectorLBSP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/imgproc/src/EdgeDetectorLBSP.cpp b/modules/imgproc/src/EdgeDetectorLBSP.cpp
index 45b46d1..ae1b50c 100644
--- a/modules/imgproc/src/EdgeDetectorLBSP.cpp
+++ b/modules/imgproc/src/EdgeDetectorLBSP.cpp
@@ -259,7 +259,7 @@ void EdgeDetectorLBSP::apply_internal_threshold(const cv::Mat& oInputImg, cv::Ma
                 std::fill(anGradRow+oInputImg.cols*nGradMapColStep,anGradRow+(oInputImg.cols+nNMSHalfWinSize)*nGradMapColStep,0);
                 if(nRowIter<oCurrScaleSize.height-int(nNMSHalfWinSize)) {
                     anGradRow += nGradMapRowStep*nNMSHalfWinSize; // offset by nNMSHalfWinSize rows
-                    uchar* anEdgeMapRow = oEdgeTempMask.ptr<uchar>(nRowIter+nNMSHalfWinSize)+nNMSHalfWinSize*nEdgeMapColStep;
+                    uchar* anEdgeMapRow = oEdgeTempMask.ptr<uchar>(nRowIter+nNMSHalfWinSize*2)+nNMSHalfWinSize*nEdgeMapColStep;
                     std::fill(anEdgeMapRow-nEdgeMapColStep*nNMSHalfWinSize,anEdgeMapRow,1);
                     std::fill(anEdgeMapRow+oInputImg.cols*nEdgeMapColStep,anEdgeMapRow+(oInputImg.cols+nNMSHalfWinSize)*nEdgeMapColStep,1);
                     stack_check_size(oInputImg.cols);
-- 
2.43.0


From a03284958f4ab2f0c09f756ecee4099d3783b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:12 +0000
Subject: [PATCH 056/125] fix: LBSP edge detection lost all gradient
 orientations due to the byte order of their initial value

---
 modules/imgproc/src/EdgeDetectorLBSP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/imgproc/src/EdgeDetectorLBSP.cpp b/modules/imgproc/src/EdgeDetectorLBSP.cpp
index ae1b50c..29be5fd 100644
--- a/modules/imgproc/src/EdgeDetectorLBSP.cpp
+++ b/modules/imgproc/src/EdgeDetectorLBSP.cpp
@@ -185,7 +185,7 @@ void EdgeDetectorLBSP::apply_internal_threshold(const cv::Mat& oInputImg, cv::Ma
     std::fill(m_vuEdgeTempMaskData.data()+(oMapSize.height-nNMSHalfWinSize)*nEdgeMapRowStep,m_vuEdgeTempMaskData.data()+oMapSize.height*nEdgeMapRowStep,1);
 #if USE_MIN_GRAD_ORIENT
     static_assert(nGradMapColStep==4,"Need 32-bit chunks to copy (see lines with uint32_t)");
-    constexpr uint32_t nDefaultGradMapVal4Ch = (CHAR_MAX<<24)|(CHAR_MAX<<16)|(UCHAR_MAX)<<8;
+    constexpr uint32_t nDefaultGradMapVal4Ch = (UCHAR_MAX<<16)|(CHAR_MAX<<8)|CHAR_MAX; // little-endian (gradx in the lowest byte)
     std::fill((uint32_t*)(m_vuLBSPGradMapData.data()+nGradMapRowStep*nNMSHalfWinSize+nGradMapColStep*nNMSHalfWinSize),(uint32_t*)(m_vuLBSPGradMapData.data()+(oMapSize.height-nNMSHalfWinSize)*nGradMapRowStep-nNMSHalfWinSize*nGradMapColStep),nDefaultGradMapVal4Ch);
     const auto lAbsCharComp = [](char a, char b){return std::abs(a)<std::abs(b);};
 #else //(!USE_MIN_GRAD_ORIENT)
-- 
2.43.0


From 7e3026d7d154aaa7079ed2917a4929f20628d385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:48 +0000
Subject: [PATCH 057/125] fix: data writer threads could all write (and erase)
 the same packet, or lose one queued again while being written

---
 modules/datasets/src/utils.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index a739212..bb59fbd 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1436,17 +1436,20 @@ void lv::DataWriter::entry() {
             if(pCurrPacket!=m_mQueue.end()) {
                 const size_t nPacketSize = pCurrPacket->second.total()*pCurrPacket->second.elemSize();
                 if(nPacketSize<=m_nQueueSize) {
+                    // the packet must leave the queue before unlocking (it might otherwise be picked by another worker, or replaced)
+                    const size_t nPacketIdx = pCurrPacket->first;
+                    const cv::Mat oPacket = pCurrPacket->second;
+                    m_mQueue.erase(pCurrPacket);
+                    --m_nQueueCount;
                     try {
                         lv::unlock_guard<lv::mutex_unique_lock> oUnlock(sync_lock);
-                        lvLog_(4,"data writer [%" PRIxPTR "] writing packet at idx = %zu, with size = %zu kb",uintptr_t(this),pCurrPacket->first,nPacketSize/1024);
-                        m_lCallback(pCurrPacket->second,pCurrPacket->first);
+                        lvLog_(4,"data writer [%" PRIxPTR "] writing packet at idx = %zu, with size = %zu kb",uintptr_t(this),nPacketIdx,nPacketSize/1024);
+                        m_lCallback(oPacket,nPacketIdx);
                     }
                     catch(...) {
-                        m_vWorkerExceptions.push(std::make_pair(std::current_exception(),pCurrPacket->first));
+                        m_vWorkerExceptions.push(std::make_pair(std::current_exception(),nPacketIdx));
                     }
                     m_nQueueSize -= nPacketSize;
-                    m_mQueue.erase(pCurrPacket);
-                    --m_nQueueCount;
                     m_oClearCondVar.notify_all();
                 }
             }
-- 
2.43.0


From 203a8e0e49cd37773e29d3b90e7eb7b8fe81af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:18 +0000
Subject: [PATCH 058/125] fix: destroying a data writer after a failed write
 terminated the process

---
 modules/datasets/src/utils.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index bb59fbd..b7b3f7a 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1331,7 +1331,12 @@ lv::DataWriter::DataWriter(std::function<size_t(const cv::Mat&,size_t)> lDataArc
 }
 
 lv::DataWriter::~DataWriter() {
-    stopAsyncWriting();
+    try {
+        stopAsyncWriting();
+    }
+    catch(...) { // cannot be reported to anyone from here, and would otherwise terminate the process
+        lvWarn_("data writer [%" PRIxPTR "] destroyed with unreported write errors",uintptr_t(this));
+    }
 }
 
 bool lv::DataWriter::queue_check(const cv::Mat& oPacket, size_t nIdx) {
-- 
2.43.0


From 66a55824172248b71c626ef645ddc68ba0228d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:13 +0000
Subject: [PATCH 059/125] fix: packets queued while a data writer is being
 stopped were never written

---
 modules/datasets/src/utils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index b7b3f7a..bbdaccc 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1366,6 +1366,8 @@ size_t lv::DataWriter::queue(const cv::Mat& oPacket, size_t nIdx) {
         lv::mutex_unique_lock sync_lock(m_oSyncMutex);
         if(!m_bAllowPacketDrop) {
             m_oClearCondVar.wait(sync_lock,[&]{
+                if(!m_bIsActive)
+                    return true;
                 const auto pOldPacketIter = m_mQueue.find(nIdx);
                 const bool bIsNewPacket = pOldPacketIter==m_mQueue.end();
                 const size_t nOldPacketSize = bIsNewPacket?0u:(pOldPacketIter->second.total()*pOldPacketIter->second.elemSize());
@@ -1373,6 +1375,10 @@ size_t lv::DataWriter::queue(const cv::Mat& oPacket, size_t nIdx) {
                 return m_nQueueSize+nPacketSize-nOldPacketSize<=m_nQueueMaxSize;
             });
         }
+        if(!m_bIsActive) { // stopped since the first check, there might be no worker left to process the queue
+            sync_lock.unlock();
+            return m_lCallback(oPacket,nIdx);
+        }
         const auto pOldPacketIter = m_mQueue.find(nIdx);
         const bool bIsNewPacket = pOldPacketIter==m_mQueue.end();
         const size_t nOldPacketSize = bIsNewPacket?0u:(pOldPacketIter->second.total()*pOldPacketIter->second.elemSize());
-- 
2.43.0


From 057b9d533e2a66f4f2f92e09146230dcfbc250f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:13 +0000
Subject: [PATCH 060/125] fix: load errors of a data precacher were reported
 again and again, and terminated the process on destruction

---
 modules/datasets/src/utils.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index bbdaccc..53b5560 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -308,7 +308,12 @@ lv::DataPrecacher::DataPrecacher(std::function<cv::Mat(size_t)> lDataLoaderCallb
 }
 
 lv::DataPrecacher::~DataPrecacher() {
-    stopAsyncPrecaching();
+    try {
+        stopAsyncPrecaching();
+    }
+    catch(...) { // cannot be reported to anyone from here, and would otherwise terminate the process
+        lvWarn_("data precacher [%" PRIxPTR "] destroyed with an unreported load error",uintptr_t(this));
+    }
 }
 
 const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
@@ -348,7 +353,9 @@ const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
         lvLog_(1,"data precacher [%" PRIxPTR "] caught precacher exception while requesting packet #%zu, will rethrow...",uintptr_t(this),nIdx);
         m_bIsActive = false;
         m_hWorker.join();
-        std::rethrow_exception(m_pWorkerException);
+        const std::exception_ptr pException = m_pWorkerException;
+        m_pWorkerException = nullptr; // must only be reported once
+        std::rethrow_exception(pException);
     }
     m_oLastReqPacket = m_oReqPacket;
     m_nLastReqIdx = nAnswIdx;
@@ -381,8 +388,11 @@ void lv::DataPrecacher::stopAsyncPrecaching() {
         m_hWorker.join();
         lvAssert_(!m_bGotRequest,"last request should have been answered");
     }
-    if(m_pWorkerException)
-        std::rethrow_exception(m_pWorkerException);
+    if(m_pWorkerException) {
+        const std::exception_ptr pException = m_pWorkerException;
+        m_pWorkerException = nullptr; // must only be reported once
+        std::rethrow_exception(pException);
+    }
 }
 
 void lv::DataPrecacher::entry(const size_t nBufferSize) {
-- 
2.43.0


From 3f90ce9b8ce559e79650db1dfc4bbe04d30a67d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:10 +0000
Subject: [PATCH 061/125] fix: last packet returned by a data precacher was
 freed once precaching stopped or failed

---
 modules/datasets/include/litiv/datasets/utils.hpp | 1 +
 modules/datasets/src/utils.cpp                    | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/utils.hpp b/modules/datasets/include/litiv/datasets/utils.hpp
index dccf0b6..6fcc26b 100644
--- a/modules/datasets/include/litiv/datasets/utils.hpp
+++ b/modules/datasets/include/litiv/datasets/utils.hpp
@@ -480,6 +480,7 @@ namespace lv {
         size_t m_nReqIdx,m_nLastReqIdx;
         std::atomic_size_t m_nAnswIdx;
         cv::Mat m_oReqPacket,m_oLastReqPacket;
+        std::shared_ptr<std::vector<uchar>> m_pBuffer,m_pLastReqBuffer; // precaching buffer, and buffer which might hold the last packet
         DataPrecacher& operator=(const DataPrecacher&) = delete;
         DataPrecacher(const DataPrecacher&) = delete;
     };
diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 53b5560..c436bce 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -325,6 +325,7 @@ const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
     else if(!m_bIsActive) {
         lvLog_(4,"data precacher [%" PRIxPTR "] bypassing inactive precaching thread, fetching packet at idx = %zu...",uintptr_t(this),nIdx);
         m_oLastReqPacket = m_lCallback(nIdx);
+        m_pLastReqBuffer = nullptr;
         m_nLastReqIdx = nIdx;
         return m_oLastReqPacket;
     }
@@ -358,6 +359,7 @@ const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
         std::rethrow_exception(pException);
     }
     m_oLastReqPacket = m_oReqPacket;
+    m_pLastReqBuffer = m_pBuffer;
     m_nLastReqIdx = nAnswIdx;
     return m_oLastReqPacket;
 }
@@ -375,6 +377,7 @@ bool lv::DataPrecacher::startAsyncPrecaching(size_t nSuggestedBufferSize) {
         m_bGotRequest = false;
         const size_t nBufferSize = std::max(std::min(nSuggestedBufferSize,CACHE_MAX_SIZE),CACHE_MIN_SIZE);
         lvLog_(2,"data precacher [%" PRIxPTR "] precaching thread init w/ buffer size = %zu mb",uintptr_t(this),(nBufferSize/1024)/1024);
+        m_pBuffer = std::make_shared<std::vector<uchar>>(nBufferSize);
         m_hWorker = std::thread(&DataPrecacher::entry,this,nBufferSize);
     }
     return m_bIsActive;
@@ -388,6 +391,8 @@ void lv::DataPrecacher::stopAsyncPrecaching() {
         m_hWorker.join();
         lvAssert_(!m_bGotRequest,"last request should have been answered");
     }
+    m_oReqPacket.release();
+    m_pBuffer = nullptr; // stays alive if the last packet given out is still in there
     if(m_pWorkerException) {
         const std::exception_ptr pException = m_pWorkerException;
         m_pWorkerException = nullptr; // must only be reported once
@@ -400,7 +405,7 @@ void lv::DataPrecacher::entry(const size_t nBufferSize) {
     try {
         lvDbgExceptionWatch;
         std::list<cv::Mat> lCache;
-        std::vector<uchar> vcBuffer(nBufferSize);
+        std::vector<uchar>& vcBuffer = *m_pBuffer; // outlives this thread, as the last packet given out might still be in there
         size_t nNextExpectedReqIdx = 0;
         size_t nNextPrecacheIdx = 0;
         size_t nFirstBufferIdx = size_t(-1);
-- 
2.43.0


From a796d92f76bf0d7eb4adcb6535bfac4a4e4eb025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:59 +0000
Subject: [PATCH 062/125] fix: data batches could not be restarted or reset
 once their processing was stopped

---
 modules/datasets/src/utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index c436bce..c8f7ef7 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1325,7 +1325,10 @@ void lv::IDataCounter::setOutputCountPromise() {
 }
 
 void lv::IDataCounter::resetOutputCount() {
-    m_nPacketCountPromise.set_value(m_mProcessedPackets.size());
+    try {
+        m_nPacketCountPromise.set_value(m_mProcessedPackets.size());
+    }
+    catch(const std::future_error&) {} // already set, i.e. processing was stopped (nobody can still be waiting for the count)
     m_mProcessedPackets.clear();
     m_nPacketCountPromise = std::promise<size_t>();
     m_nPacketCountFuture = m_nPacketCountPromise.get_future();
-- 
2.43.0


From 6b51993f0cfe1e6bb4b1764319632bbc1c93eff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:59 +0000
Subject: [PATCH 063/125] fix: precaching threads kept using a data batch while
 it was being destroyed

---
 modules/datasets/include/litiv/datasets.hpp |  9 ++++++++-
 modules/datasets/src/utils.cpp              | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets.hpp b/modules/datasets/include/litiv/datasets.hpp
index 090a068..ca79fcd 100644
--- a/modules/datasets/include/litiv/datasets.hpp
+++ b/modules/datasets/include/litiv/datasets.hpp
@@ -76,7 +76,14 @@ namespace lv {
                 public DataTemplSpec_<eDatasetTask,eDatasetSource,eDataset,eDatasetEval>,
                 public DataEvaluator_<eDatasetEval,eDataset,eEvalImpl> {
             /// default destructor, should stay public so smart pointers can access it
-            virtual ~WorkBatch() = default;
+            virtual ~WorkBatch() {
+                try {
+                    this->stopPrecaching(); // precaching threads use the members of this object until stopped
+                }
+                catch(...) {
+                    lvWarn_("work batch '%s' destroyed with an unreported load error",this->getName().c_str());
+                }
+            }
             /// returns the time taken so far to process the work batch data (i.e. between start/stopProcessing calls)
             virtual double getCurrentProcessTime() const override final {return this->m_bIsProcessing?this->m_oStopWatch.elapsed():this->m_dFinalElapsedTime;}
             /// returns the final time taken to process the work batch data (i.e. between start/stopProcessing calls)
diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index c8f7ef7..2125845 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -561,9 +561,18 @@ void lv::IIDataLoader::startPrecaching(bool bPrecacheInputOnly, size_t nSuggeste
 }
 
 void lv::IIDataLoader::stopPrecaching() {
-    m_oInputPrecacher.stopAsyncPrecaching();
-    m_oGTPrecacher.stopAsyncPrecaching();
-    m_oFeaturesPrecacher.stopAsyncPrecaching();
+    std::exception_ptr pLoadException = nullptr; // reported only once all precachers are stopped
+    for(DataPrecacher* pPrecacher : {&m_oInputPrecacher,&m_oGTPrecacher,&m_oFeaturesPrecacher}) {
+        try {
+            pPrecacher->stopAsyncPrecaching();
+        }
+        catch(...) {
+            if(!pLoadException)
+                pLoadException = std::current_exception();
+        }
+    }
+    if(pLoadException)
+        std::rethrow_exception(pLoadException);
 }
 
 const cv::Mat& lv::IIDataLoader::getInput(size_t nPacketIdx) {
-- 
2.43.0


From c005ace3a49062c432bf9167bab951e4475be8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:59 +0000
Subject: [PATCH 064/125] fix: array packets were stale if their packed version
 was requested first, or if unpacking info changed

---
 modules/datasets/src/utils.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 2125845..78e68e4 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -774,7 +774,7 @@ const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::getInputArray(size_t nP
     lvDbgExceptionWatch;
     if(getInputStreamCount()==0)
         m_vLatestUnpackedInput.resize(0);
-    else if(m_oInputPrecacher.getLastReqIdx()!=nPacketIdx) {
+    else {
         const std::vector<lv::MatInfo>& vPackInfo = getInputInfoArray(nPacketIdx);
         lvAssert_(vPackInfo.size()==getInputStreamCount(),"unexpected stream pack info array size");
         // no need to clone if getInput does not allow reentrancy
@@ -789,7 +789,7 @@ const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::getGTArray(size_t nPack
     lvDbgExceptionWatch;
     if(getGTStreamCount()==0)
         m_vLatestUnpackedGT.resize(0);
-    else if(m_oGTPrecacher.getLastReqIdx()!=nPacketIdx) {
+    else {
         const std::vector<lv::MatInfo>& vPackInfo = getGTInfoArray(nPacketIdx);
         lvAssert_(vPackInfo.size()==getGTStreamCount(),"unexpected stream pack info array size");
         // no need to clone if getter does not allow reentrancy
@@ -802,12 +802,10 @@ const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::getGTArray(size_t nPack
 
 const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::loadFeaturesArray(size_t nPacketIdx, const std::vector<lv::MatInfo>& vPackingInfo) {
     lvDbgExceptionWatch;
-    if(m_oFeaturesPrecacher.getLastReqIdx()!=nPacketIdx) {
-        // no need to clone from packed data if loadFeatures does not allow reentrancy
-        const cv::Mat& oFeatures = loadFeatures(nPacketIdx)/*.clone()*/;
-        // output mats in the vector will stay valid without copy for as long as oFeatures is valid (typically until next loadFeatures call)
-        m_vLatestUnpackedFeatures = lv::unpackData(oFeatures,vPackingInfo);
-    }
+    // no need to clone from packed data if loadFeatures does not allow reentrancy
+    const cv::Mat& oFeatures = loadFeatures(nPacketIdx)/*.clone()*/;
+    // output mats in the vector will stay valid without copy for as long as oFeatures is valid (typically until next loadFeatures call)
+    m_vLatestUnpackedFeatures = lv::unpackData(oFeatures,vPackingInfo);
     return m_vLatestUnpackedFeatures;
 }
 
-- 
2.43.0


From aa1a38bccdbe13ba8fb4fced70b02b8a5add511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:59 +0000
Subject: [PATCH 065/125] fix: metrics of bare array batch groups could not be
 merged when a batch had no output yet

---
 modules/datasets/src/metrics.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/datasets/src/metrics.cpp b/modules/datasets/src/metrics.cpp
index e8a8c51..b119bc1 100644
--- a/modules/datasets/src/metrics.cpp
+++ b/modules/datasets/src/metrics.cpp
@@ -254,6 +254,8 @@ bool lv::IMetricsAccumulator_<lv::DatasetEval_BinaryClassifierArray>::isEqual(co
 
 lv::IIMetricsAccumulatorPtr lv::IMetricsAccumulator_<lv::DatasetEval_BinaryClassifierArray>::accumulate(const IIMetricsAccumulatorConstPtr& m) {
     const auto& m2 = dynamic_cast<const IMetricsAccumulator_<lv::DatasetEval_BinaryClassifierArray>&>(*m.get());
+    if(m2.m_vCounters.empty()) // nothing evaluated yet
+        return shared_from_this();
     if(m_vCounters.empty())
         m_vCounters.resize(m2.m_vCounters.size());
     else
@@ -295,6 +297,8 @@ bool lv::IMetricsAccumulator_<lv::DatasetEval_StereoDisparityEstim>::isEqual(con
 
 lv::IIMetricsAccumulatorPtr lv::IMetricsAccumulator_<lv::DatasetEval_StereoDisparityEstim>::accumulate(const IIMetricsAccumulatorConstPtr& m) {
     const auto& m2 = dynamic_cast<const IMetricsAccumulator_<lv::DatasetEval_StereoDisparityEstim>&>(*m.get());
+    if(m2.m_vErrorLists.empty()) // nothing evaluated yet
+        return shared_from_this();
     if(m_vErrorLists.empty())
         m_vErrorLists.resize(m2.m_vErrorLists.size());
     else
-- 
2.43.0


From 5db976cbf9e6492d8ad9a0b19e8cc681ee1a3bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:59 +0000
Subject: [PATCH 066/125] fix: binary classification evaluation read outside of
 non-continuous ROI matrices

---
 modules/datasets/src/metrics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/metrics.cpp b/modules/datasets/src/metrics.cpp
index b119bc1..472f424 100644
--- a/modules/datasets/src/metrics.cpp
+++ b/modules/datasets/src/metrics.cpp
@@ -21,7 +21,7 @@
 void lv::BinClassif::accumulate(const cv::Mat& oClassif, const cv::Mat& oGT, const cv::Mat& oROI) {
     lvAssert_(!oClassif.empty() && oClassif.dims==2 && oClassif.isContinuous() && oClassif.type()==CV_8UC1,"binary classifier results must be non-empty and of type 8UC1");
     lvAssert_(oGT.empty() || (oGT.type()==CV_8UC1 && oGT.isContinuous()),"gt mat must be empty, or of type 8UC1");
-    lvAssert_(oROI.empty() || (oROI.type()==CV_8UC1 && oGT.isContinuous()),"ROI mat must be empty, or of type 8UC1");
+    lvAssert_(oROI.empty() || (oROI.type()==CV_8UC1 && oROI.isContinuous()),"ROI mat must be empty, or of type 8UC1");
     lvAssert_((oGT.empty() || oClassif.size()==oGT.size()) && (oROI.empty() || oClassif.size()==oROI.size()),"all input mat sizes must match");
     if(oGT.empty()) {
         nDC += oClassif.size().area();
-- 
2.43.0


From 4367b49188b499ed0198d243b5198f982a4b5741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:59 +0000
Subject: [PATCH 067/125] fix: Matthews correlation coefficient overflowed for
 large error counts

---
 modules/datasets/include/litiv/datasets/metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/metrics.hpp b/modules/datasets/include/litiv/datasets/metrics.hpp
index 24296f8..e2a8f93 100644
--- a/modules/datasets/include/litiv/datasets/metrics.hpp
+++ b/modules/datasets/include/litiv/datasets/metrics.hpp
@@ -251,7 +251,7 @@ namespace lv {
         }
         /// computes Matthew's Correlation Coefficient based on 'BinClassif' counters
         static inline double CalcMatthewsCorrCoeff(const BinClassif& m) {
-            return ((m.nTP+m.nFP)>0)&&((m.nTP+m.nFN)>0)&&((m.nTN+m.nFP)>0)&&((m.nTN+m.nFN)>0)?((((double)m.nTP*m.nTN)-(m.nFP*m.nFN))/sqrt(((double)m.nTP+m.nFP)*(m.nTP+m.nFN)*(m.nTN+m.nFP)*(m.nTN+m.nFN))):0;
+            return ((m.nTP+m.nFP)>0)&&((m.nTP+m.nFN)>0)&&((m.nTN+m.nFP)>0)&&((m.nTN+m.nFN)>0)?((((double)m.nTP*m.nTN)-((double)m.nFP*m.nFN))/sqrt(((double)m.nTP+m.nFP)*(m.nTP+m.nFN)*(m.nTN+m.nFP)*(m.nTN+m.nFN))):0;
         }
         /// default contructor requires a base metrics counters, as otherwise, we would obtain NaN's
         inline BinClassifMetrics(const BinClassif& m) : dRecall(CalcRecall(m)),dSpecificity(CalcSpecificity(m)),dFPR(CalcFalsePositiveRate(m)),dFNR(CalcFalseNegativeRate(m)),dPBC(CalcPercentBadClassifs(m)),dPrecision(CalcPrecision(m)),dFMeasure(CalcFMeasure(m)),dMCC(CalcMatthewsCorrCoeff(m)) {}
-- 
2.43.0


From f3e4261c1a382a6222e37b29febb612fab1e0758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:48 +0000
Subject: [PATCH 068/125] fix: datasets with a skipped work batch group could
 not be created

---
 modules/datasets/src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 78e68e4..6a2a276 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -102,7 +102,7 @@ const std::vector<std::string>& lv::DataHandler::getSkipTokens() const {
 }
 
 std::string lv::DataHandler::printDataStructure(const std::string& sPrefix) const {
-    if(isGroup() && isBare()) {
+    if(isGroup() && isBare() && !getBatches(true).empty()) { // note: skipped groups are bare, but hold no batches
         auto vBatches = getBatches(true);
         lvAssert(vBatches.size()==1);
         return vBatches[0]->printDataStructure(sPrefix);
-- 
2.43.0


From b0e19cb9b1ea42be40da396d08f632f2f7008cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:48 +0000
Subject: [PATCH 069/125] fix: an error raised while composing a log message
 hung the process instead of propagating

---
 modules/utils/include/litiv/utils/console.hpp | 4 ++--
 modules/utils/include/litiv/utils/cxx.hpp     | 8 ++++----
 modules/utils/src/cxx.cpp                     | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/utils/include/litiv/utils/console.hpp b/modules/utils/include/litiv/utils/console.hpp
index e287bd8..df78097 100644
--- a/modules/utils/include/litiv/utils/console.hpp
+++ b/modules/utils/include/litiv/utils/console.hpp
@@ -579,7 +579,7 @@ namespace lv {
         inline bool update(float fCompletion) {
             lvDbgAssert_(fCompletion>=0.0f && fCompletion<=1.0f,"completion must be given as fraction");
             const size_t nComplBars = size_t(fCompletion*m_nBarCols);
-            std::lock_guard<std::mutex> oLock(lv::getLogMutex());
+            std::lock_guard<std::recursive_mutex> oLock(lv::getLogMutex());
             if(fCompletion<=m_fLatestCompletion || nComplBars<=m_nLatestComplBars ||
                (m_nLatestComplBars==size_t(0) && m_oLocalTimer.elapsed()<m_dInitRefresh_sec) ||
                (m_nLatestComplBars>size_t(0) && m_oLocalTimer.elapsed()<m_dRefreshRate_sec))
@@ -592,7 +592,7 @@ namespace lv {
         }
         /// reinitializes the progress bar to its default state
         inline void reset() {
-            std::lock_guard<std::mutex> oLock(lv::getLogMutex());
+            std::lock_guard<std::recursive_mutex> oLock(lv::getLogMutex());
             m_fLatestCompletion = 0.0f;
             m_nLatestComplBars = size_t(0);
             lv::updateConsoleProgressBar(m_sBarPrefix,m_fLatestCompletion,m_bUseCarrRet,m_nBarCols);
diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 1d61a18..ca442a3 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -103,14 +103,14 @@ namespace lv {
     std::string getVersionStamp();
     /// returns a combined version of 'getVersionStamp()' and 'getTimeStamp()' for inline use by loggers
     std::string getLogStamp();
-    /// returns a reference to the mutex used for thread-safe message logging in the framework
-    std::mutex& getLogMutex();
+    /// returns a reference to the mutex used for thread-safe message logging in the framework (recursive, as errors raised while a message is being composed are logged too)
+    std::recursive_mutex& getLogMutex();
     /// thread-safe ostream log helper (format-based)
     std::ostream& safe_print(std::ostream& os, const char* acFormat, ...);
     /// thread-safe ostream log helper (template-based; must overload operator<< for classes)
     template<typename T>
     std::ostream& safe_print(const T& obj, std::ostream& os=std::cout) {
-        std::lock_guard<std::mutex> oLock(lv::getLogMutex());
+        std::lock_guard<std::recursive_mutex> oLock(lv::getLogMutex());
         return os << obj;
     }
     /// returns the global verbosity level (greater = more verbose, default = 1)
@@ -140,7 +140,7 @@ namespace lv {
             return *this;
         }
         /// global log mutex guard
-        std::lock_guard<std::mutex> m_oLock;
+        std::lock_guard<std::recursive_mutex> m_oLock;
         /// guarded output stream
         TSstr& m_oSstr;
         /// ostream verbosity level
diff --git a/modules/utils/src/cxx.cpp b/modules/utils/src/cxx.cpp
index a6457cd..213a96a 100644
--- a/modules/utils/src/cxx.cpp
+++ b/modules/utils/src/cxx.cpp
@@ -130,9 +130,9 @@ std::string lv::getLogStamp() {
     return std::string("\n")+lv::getVersionStamp()+"\n["+lv::getTimeStamp()+"]\n";
 }
 
-std::mutex g_oPrintMutex;
+std::recursive_mutex g_oPrintMutex;
 
-std::mutex& lv::getLogMutex() {
+std::recursive_mutex& lv::getLogMutex() {
     return g_oPrintMutex;
 }
 
@@ -150,7 +150,7 @@ std::ostream& lv::safe_print(std::ostream& os, const char* acFormat, ...) { // N
         lvStdError_(runtime_error,"safe_print failed (1)");
     if((size_t)nWritten<vBuffer.size()) {
         vBuffer.resize((size_t)nWritten);
-        std::lock_guard<std::mutex> oLock(getLogMutex());
+        std::lock_guard<std::recursive_mutex> oLock(getLogMutex());
         return os << vBuffer;
     }
     vBuffer.resize((size_t)nWritten+1);
@@ -161,7 +161,7 @@ std::ostream& lv::safe_print(std::ostream& os, const char* acFormat, ...) { // N
     if(nWritten2<0 || (size_t)nWritten2>vBuffer.size())
         lvStdError_(runtime_error,"safe_print failed (2)");
     vBuffer.resize((size_t)nWritten2);
-    std::lock_guard<std::mutex> oLock(getLogMutex());
+    std::lock_guard<std::recursive_mutex> oLock(getLogMutex());
     return os << vBuffer;
 }
 
-- 
2.43.0


From 741be2532ef4b0d278bcfb2bdc7afeb6bbfc8691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:21 +0000
Subject: [PATCH 070/125] fix: BSDS500 scores could not be computed unless
 recalls covered [0,1], and read past the interpolated values

---
 modules/datasets/src/impl/BSDS500.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/datasets/src/impl/BSDS500.cpp b/modules/datasets/src/impl/BSDS500.cpp
index 95392cf..25766ec 100644
--- a/modules/datasets/src/impl/BSDS500.cpp
+++ b/modules/datasets/src/impl/BSDS500.cpp
@@ -585,12 +585,13 @@ void lv::MetricsCalculator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSDS500
             vdCumulPrecision_uniques[n] = voThresholdScores[vnCumulRecallIdx_uniques[n]].dPrecision;
         }
         const size_t nInterpReqIdxCount = 100;
-        std::vector<double> vdInterpReqIdx(nInterpReqIdxCount+1);
+        std::vector<double> vdInterpReqIdx; // only covers the observed recall range (there is nothing to sum outside of it)
         for(size_t n = 0; n<=nInterpReqIdxCount; ++n)
-            vdInterpReqIdx[n] = double(n)/nInterpReqIdxCount;
+            if(double(n)/nInterpReqIdxCount>=vdCumulRecall_uniques.front() && double(n)/nInterpReqIdxCount<=vdCumulRecall_uniques.back())
+                vdInterpReqIdx.push_back(double(n)/nInterpReqIdxCount);
         std::vector<double> vdInterpVals = lv::interp1(vdCumulRecall_uniques,vdCumulPrecision_uniques,vdInterpReqIdx);
         if(!vdInterpVals.empty())
-            for(size_t n = 0; n<=vdInterpVals.size(); ++n)
+            for(size_t n = 0; n<vdInterpVals.size(); ++n)
                 dAreaPR += vdInterpVals[n]*0.01;
     }
     // ^^^ oCumulScore,dMaxRecall,dMaxPrecision,dMaxFMeasure,dAreaPR => eval_bdry.txt
-- 
2.43.0


From f0b9d5f184ebbae8ec9bddaec2871d34ed914ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:21 +0000
Subject: [PATCH 071/125] fix: BSDS500 evaluation reused counters for
 thresholds above a detection value equal to the previous threshold

---
 modules/datasets/src/impl/BSDS500.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/impl/BSDS500.cpp b/modules/datasets/src/impl/BSDS500.cpp
index 25766ec..1ceb77a 100644
--- a/modules/datasets/src/impl/BSDS500.cpp
+++ b/modules/datasets/src/impl/BSDS500.cpp
@@ -413,7 +413,7 @@ void lv::MetricsAccumulator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSDS50
         lvAssert(nSegmPosCount>=nSegmTPAccCount);
         oMetricsBase.vnTotalTP[nThresholdBinIdx] = nSegmTPAccCount;
         oMetricsBase.vnTotalTPFP[nThresholdBinIdx] = nSegmPosCount;
-        while(nNextEvalUniqueValIdx+1<vuEvalUniqueVals.size() && vuEvalUniqueVals[nNextEvalUniqueValIdx]<=oMetricsBase.vnThresholds[nThresholdBinIdx])
+        while(nNextEvalUniqueValIdx+1<vuEvalUniqueVals.size() && vuEvalUniqueVals[nNextEvalUniqueValIdx]<oMetricsBase.vnThresholds[nThresholdBinIdx])
             ++nNextEvalUniqueValIdx;
         while(++nThresholdBinIdx<oMetricsBase.vnThresholds.size() && oMetricsBase.vnThresholds[nThresholdBinIdx]<=vuEvalUniqueVals[nNextEvalUniqueValIdx]) {
             oMetricsBase.vnIndivTP[nThresholdBinIdx] = oMetricsBase.vnIndivTP[nThresholdBinIdx-1];
-- 
2.43.0


From f1776c0791c46f877b8a0f4e1466f3955141086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:21 +0000
Subject: [PATCH 072/125] fix: concurrent BSDS500 evaluations shared an
 unprotected random generator and solver description table

---
 3rdparty/bsds500/include/litiv/3rdparty/bsds500/csa.hpp | 2 +-
 3rdparty/bsds500/src/kofn.cpp                           | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/3rdparty/bsds500/include/litiv/3rdparty/bsds500/csa.hpp b/3rdparty/bsds500/include/litiv/3rdparty/bsds500/csa.hpp
index 9277785..597ad86 100644
--- a/3rdparty/bsds500/include/litiv/3rdparty/bsds500/csa.hpp
+++ b/3rdparty/bsds500/include/litiv/3rdparty/bsds500/csa.hpp
@@ -262,7 +262,7 @@ namespace BSDS500 {
         void describe_self()
 
         {
-            static const char* desc[20];
+            const char* desc[20];
             int i = 0;
 #ifdef ROUND_COSTS
             static const char* sROUND_COSTS = "Rounded costs";
diff --git a/3rdparty/bsds500/src/kofn.cpp b/3rdparty/bsds500/src/kofn.cpp
index 0fe38c8..473a74d 100644
--- a/3rdparty/bsds500/src/kofn.cpp
+++ b/3rdparty/bsds500/src/kofn.cpp
@@ -7,9 +7,10 @@
 
 using namespace BSDS500;
 
-static std::mt19937 s_oMT(std::chrono::system_clock::now().time_since_epoch().count());
-static std::uniform_real_distribution<double> s_oURDistrib_0_1(0,std::nextafter(1,std::numeric_limits<double>::max()));
-static auto s_oRand_0_1_Funct = std::bind(s_oURDistrib_0_1,s_oMT);
+// one generator per thread (images may be evaluated in parallel)
+static thread_local std::mt19937 s_oMT(std::chrono::system_clock::now().time_since_epoch().count());
+static thread_local std::uniform_real_distribution<double> s_oURDistrib_0_1(0,std::nextafter(1,std::numeric_limits<double>::max()));
+static thread_local auto s_oRand_0_1_Funct = std::bind(s_oURDistrib_0_1,s_oMT);
 
 // O(n) implementation.
 static void
-- 
2.43.0


From a92e0716d959ecc67b393e2fdcf05a93c90cbd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:18 +0000
Subject: [PATCH 073/125] fix: re-initializing PAWCS kept pointers to the
 released words of the previous model

---
 modules/video/src/BackgroundSubtractorPAWCS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/video/src/BackgroundSubtractorPAWCS.cpp b/modules/video/src/BackgroundSubtractorPAWCS.cpp
index 801e774..b41ecf5 100644
--- a/modules/video/src/BackgroundSubtractorPAWCS.cpp
+++ b/modules/video/src/BackgroundSubtractorPAWCS.cpp
@@ -513,8 +513,8 @@ void BackgroundSubtractorPAWCS::initialize(const cv::Mat& oInitImg, const cv::Ma
     m_oTempGlobalWordWeightDiffFactor = cv::Scalar(-0.1f);
     m_oMorphExStructElement = cv::getStructuringElement(cv::MORPH_RECT,cv::Size(3,3));
     m_voPxInfoLUT_PAWCS.resize(m_nTotPxCount);
-    m_vpLocalWordDict.resize(m_nTotRelevantPxCount*m_nCurrLocalWords,nullptr);
-    m_vpGlobalWordDict.resize(m_nCurrGlobalWords,nullptr);
+    m_vpLocalWordDict.assign(m_nTotRelevantPxCount*m_nCurrLocalWords,nullptr);
+    m_vpGlobalWordDict.assign(m_nCurrGlobalWords,nullptr);
     if(m_nImgChannels==1) {
         m_voLocalWordList_1ch.resize(m_nTotRelevantPxCount*m_nCurrLocalWords);
         m_pLocalWordListIter_1ch = m_voLocalWordList_1ch.begin();
-- 
2.43.0


From 36520dd1ac37a18134f533ddba8dd91171691f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:53 +0000
Subject: [PATCH 074/125] fix: re-initializing PBAS kept the gradient weight of
 the previous sequence

---
 modules/video/src/BackgroundSubtractorPBAS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/video/src/BackgroundSubtractorPBAS.cpp b/modules/video/src/BackgroundSubtractorPBAS.cpp
index 3301dbb..6be8b85 100644
--- a/modules/video/src/BackgroundSubtractorPBAS.cpp
+++ b/modules/video/src/BackgroundSubtractorPBAS.cpp
@@ -103,6 +103,7 @@ void BackgroundSubtractorPBAS_1ch::initialize(const cv::Mat& oInitImg) {
             }
         }
     }
+    m_fFormerMeanGradDist = 20;
     m_bInitialized = true;
 }
 
@@ -322,6 +323,7 @@ void BackgroundSubtractorPBAS_3ch::initialize(const cv::Mat& oInitImg) {
             }
         }
     }
+    m_fFormerMeanGradDist = 20;
     m_bInitialized = true;
 }
 
-- 
2.43.0


From 307af0f5cf37db850d16e2904c8f751b22c0ec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:53 +0000
Subject: [PATCH 075/125] fix: LOBSTER, SuBSENSE and PAWCS accepted 4-channel
 frames and processed them as 3-channel ones

---
 modules/video/src/BackgroundSubtractorLOBSTER.cpp  | 1 +
 modules/video/src/BackgroundSubtractorPAWCS.cpp    | 1 +
 modules/video/src/BackgroundSubtractorSuBSENSE.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/modules/video/src/BackgroundSubtractorLOBSTER.cpp b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
index 9c9bf0a..c903c09 100644
--- a/modules/video/src/BackgroundSubtractorLOBSTER.cpp
+++ b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
@@ -442,6 +442,7 @@ void BackgroundSubtractorLOBSTER::refreshModel(float fSamplesRefreshFrac, bool b
 void BackgroundSubtractorLOBSTER::initialize(const cv::Mat& oInitImg, const cv::Mat& oROI) {
     lvDbgExceptionWatch;
     // == init
+    lvAssert_(oInitImg.type()==CV_8UC1 || oInitImg.type()==CV_8UC3,"impl only supports grayscale and RGB/BGR images (8UC1/3)");
     IBackgroundSubtractorLBSP::initialize_common(oInitImg,oROI);
     m_voBGColorSamples.resize(m_nBGSamples);
     m_voBGDescSamples.resize(m_nBGSamples);
diff --git a/modules/video/src/BackgroundSubtractorPAWCS.cpp b/modules/video/src/BackgroundSubtractorPAWCS.cpp
index b41ecf5..354d725 100644
--- a/modules/video/src/BackgroundSubtractorPAWCS.cpp
+++ b/modules/video/src/BackgroundSubtractorPAWCS.cpp
@@ -430,6 +430,7 @@ void BackgroundSubtractorPAWCS::refreshModel(size_t nBaseOccCount, float fOccDec
 
 void BackgroundSubtractorPAWCS::initialize(const cv::Mat& oInitImg, const cv::Mat& oROI) {
     // == init
+    lvAssert_(oInitImg.type()==CV_8UC1 || oInitImg.type()==CV_8UC3,"impl only supports grayscale and RGB/BGR images (8UC1/3)");
     IBackgroundSubtractorLBSP::initialize_common(oInitImg,oROI);
     m_bModelInitialized = false;
     m_voLocalWordList_1ch.clear();
diff --git a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
index 055c778..105ae6f 100644
--- a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
+++ b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
@@ -106,6 +106,7 @@ void BackgroundSubtractorSuBSENSE::refreshModel(float fSamplesRefreshFrac, bool
 
 void BackgroundSubtractorSuBSENSE::initialize(const cv::Mat& oInitImg, const cv::Mat& oROI) {
     // == init
+    lvAssert_(oInitImg.type()==CV_8UC1 || oInitImg.type()==CV_8UC3,"impl only supports grayscale and RGB/BGR images (8UC1/3)");
     IBackgroundSubtractorLBSP::initialize_common(oInitImg,oROI);
     m_fLastNonZeroDescRatio = 0.0f;
     const int nTotImgPixels = m_oImgSize.height*m_oImgSize.width;
-- 
2.43.0


From b2769e2a6842eaf442c4ebd8419df98464eb0743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:53 +0000
Subject: [PATCH 076/125] fix: background subtractors wrote outside of
 non-continuous masks, and PBAS outside of its model on non-continuous frames

---
 modules/video/src/BackgroundSubtractorLOBSTER.cpp  | 1 +
 modules/video/src/BackgroundSubtractorPAWCS.cpp    | 1 +
 modules/video/src/BackgroundSubtractorPBAS.cpp     | 3 +++
 modules/video/src/BackgroundSubtractorSuBSENSE.cpp | 1 +
 4 files changed, 6 insertions(+)

diff --git a/modules/video/src/BackgroundSubtractorLOBSTER.cpp b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
index c903c09..6ae642e 100644
--- a/modules/video/src/BackgroundSubtractorLOBSTER.cpp
+++ b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
@@ -467,6 +467,7 @@ void BackgroundSubtractorLOBSTER::apply(cv::InputArray _oInputImg, cv::OutputArr
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
     _oFGMask.create(m_oImgSize,CV_8UC1);
     cv::Mat oCurrFGMask = _oFGMask.getMat();
+    lvAssert_(oCurrFGMask.isContinuous(),"output mask data must be continuous");
     oCurrFGMask = cv::Scalar_<uchar>(0);
     const size_t nLearningRate = std::isinf(dLearningRate)?SIZE_MAX:(size_t)ceil(dLearningRate);
     if(m_nImgChannels==1) {
diff --git a/modules/video/src/BackgroundSubtractorPAWCS.cpp b/modules/video/src/BackgroundSubtractorPAWCS.cpp
index 354d725..175f44b 100644
--- a/modules/video/src/BackgroundSubtractorPAWCS.cpp
+++ b/modules/video/src/BackgroundSubtractorPAWCS.cpp
@@ -565,6 +565,7 @@ void BackgroundSubtractorPAWCS::apply(cv::InputArray _image, cv::OutputArray _fg
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
     _fgmask.create(m_oImgSize,CV_8UC1);
     cv::Mat oCurrFGMask = _fgmask.getMat();
+    lvAssert_(oCurrFGMask.isContinuous(),"output mask data must be continuous");
     memset(oCurrFGMask.data,0,oCurrFGMask.cols*oCurrFGMask.rows);
     const bool bBootstrapping = ++m_nFrameIdx<=DEFAULT_BOOTSTRAP_WIN_SIZE;
     const size_t nCurrSamplesForMovingAvg_LT = bBootstrapping?m_nSamplesForMovingAvgs/2:m_nSamplesForMovingAvgs;
diff --git a/modules/video/src/BackgroundSubtractorPBAS.cpp b/modules/video/src/BackgroundSubtractorPBAS.cpp
index 6be8b85..728f15f 100644
--- a/modules/video/src/BackgroundSubtractorPBAS.cpp
+++ b/modules/video/src/BackgroundSubtractorPBAS.cpp
@@ -111,8 +111,10 @@ void BackgroundSubtractorPBAS_1ch::apply(cv::InputArray _image, cv::OutputArray
     lvAssert(m_bInitialized);
     cv::Mat oInputImg = _image.getMat();
     lvAssert(oInputImg.type()==CV_8UC1 && oInputImg.size()==m_oImgSize);
+    lvAssert(oInputImg.isContinuous());
     _fgmask.create(m_oImgSize,CV_8UC1);
     cv::Mat oFGMask = _fgmask.getMat();
+    lvAssert(oFGMask.isContinuous());
     oFGMask = cv::Scalar_<uchar>(0);
     cv::Mat oBlurredInputImg;
     cv::GaussianBlur(oInputImg,oBlurredInputImg,cv::Size(3,3),0,0,cv::BORDER_DEFAULT);
@@ -338,6 +340,7 @@ void BackgroundSubtractorPBAS_3ch::apply(cv::InputArray _image, cv::OutputArray
         cv::cvtColor(oInputImg,oInputImgRGB,cv::COLOR_GRAY2BGR);
     _fgmask.create(m_oImgSize,CV_8UC1);
     cv::Mat oFGMask = _fgmask.getMat();
+    lvAssert(oFGMask.isContinuous());
     oFGMask = cv::Scalar_<uchar>(0);
     cv::Mat oBlurredInputImg;
     cv::GaussianBlur(oInputImgRGB,oBlurredInputImg,cv::Size(3,3),0,0,cv::BORDER_DEFAULT);
diff --git a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
index 105ae6f..f9bb222 100644
--- a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
+++ b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
@@ -194,6 +194,7 @@ void BackgroundSubtractorSuBSENSE::apply(cv::InputArray _image, cv::OutputArray
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
     _fgmask.create(m_oImgSize,CV_8UC1);
     cv::Mat oCurrFGMask = _fgmask.getMat();
+    lvAssert_(oCurrFGMask.isContinuous(),"output mask data must be continuous");
     memset(oCurrFGMask.data,0,oCurrFGMask.cols*oCurrFGMask.rows);
     size_t nNonZeroDescCount = 0;
     const float fRollAvgFactor_LT = 1.0f/std::min(++m_nFrameIdx,m_nSamplesForMovingAvgs);
-- 
2.43.0


From 18d1a903586643c817ba819b1364be9565d726a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:48 +0000
Subject: [PATCH 077/125] fix: image warps with coincident control points read
 outside the image (NaN displacements)

---
 modules/imgproc/src/imwarp.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/imgproc/src/imwarp.cpp b/modules/imgproc/src/imwarp.cpp
index 5aa6c2c..c79b1fb 100644
--- a/modules/imgproc/src/imwarp.cpp
+++ b/modules/imgproc/src/imwarp.cpp
@@ -188,7 +188,10 @@ bool ImageWarper::computeTransform() {
                     const double dMIU = sqrt(s1*s1+s2*s2);
                     vCurrPt -= vWgDestPt;
                     const cv::Point2d vCurrPt_R(-vCurrPt.y,vCurrPt.x);
-                    for(nPtIdx=0u; nPtIdx<nPtCount; ++nPtIdx) {
+                    const bool bDegenerate = !(dMIU>std::numeric_limits<double>::epsilon()); // all source (or dest) points coincide, only a translation can be found
+                    if(bDegenerate)
+                        oNewPoint = vCurrPt;
+                    for(nPtIdx=0u; nPtIdx<nPtCount && !bDegenerate; ++nPtIdx) {
                         if(nColIdx==m_vDestPts[nPtIdx].x && nRowIdx==m_vDestPts[nPtIdx].y)
                             continue;
                         const cv::Point2d vPtI = m_vDestPts[nPtIdx]-vWgDestPt;
@@ -263,7 +266,10 @@ bool ImageWarper::computeTransform() {
                     }
                     vCurrPt -= vWgDestPt;
                     const cv::Point2d vCurrPt_R(-vCurrPt.y,vCurrPt.x);
-                    for(nPtIdx=0u; nPtIdx<nPtCount; ++nPtIdx) {
+                    const bool bDegenerate = !(dMIU>std::numeric_limits<double>::epsilon()); // all source (or dest) points coincide, only a translation can be found
+                    if(bDegenerate)
+                        oNewPoint = vCurrPt;
+                    for(nPtIdx=0u; nPtIdx<nPtCount && !bDegenerate; ++nPtIdx) {
                         if(nColIdx==m_vDestPts[nPtIdx].x && nRowIdx==m_vDestPts[nPtIdx].y)
                             continue;
                         const cv::Point2d vPtI = m_vDestPts[nPtIdx]-vWgDestPt;
-- 
2.43.0


From b52721ac869a2de418faf16af3ba5ce24af88fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:27 +0000
Subject: [PATCH 078/125] fix: optical flow refinement read outside images with
 less than four rows on its coarsest scale

---
 3rdparty/ofdis/src/ofdis.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/3rdparty/ofdis/src/ofdis.cpp b/3rdparty/ofdis/src/ofdis.cpp
index 619983b..4c0d3bd 100644
--- a/3rdparty/ofdis/src/ofdis.cpp
+++ b/3rdparty/ofdis/src/ofdis.cpp
@@ -136,7 +136,8 @@ void ofdis::computeFlow(const cv::Mat& oInput1, const cv::Mat& oInput2, cv::Mat&
     // pad image such that width and height are restless divisible on all scales (except last)
     const int scfct = 1<<oParams.lv_f; // enforce restless division by this number on coarsest scale
     const int padw = (scfct-(width_org%scfct))%scfct;
-    const int padh = (scfct-(height_org%scfct))%scfct;
+    const int minh = 4*scfct; // derivative filters used in the variational refinement need at least four rows on the coarsest scale
+    const int padh = (height_org<minh)?(minh-height_org):((scfct-(height_org%scfct))%scfct);
     static thread_local cv::Mat img_ao_fmat,img_bo_fmat;
     if(padh>0 || padw>0) {
         static thread_local cv::Mat s_oEnlargedInput1,s_oEnlargedInput2;
-- 
2.43.0


From 3717b0113304b5b2e7dbdda793778cfe1521f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:27 +0000
Subject: [PATCH 079/125] fix: optical flow read outside its second image when
 it is smaller than the first

---
 3rdparty/ofdis/src/ofdis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rdparty/ofdis/src/ofdis.cpp b/3rdparty/ofdis/src/ofdis.cpp
index 4c0d3bd..9cc06bb 100644
--- a/3rdparty/ofdis/src/ofdis.cpp
+++ b/3rdparty/ofdis/src/ofdis.cpp
@@ -124,7 +124,7 @@ void inline constructImgPyramid(const cv::Mat & img_ao_fmat,
 
 template<ofdis::FlowInputType eInput, ofdis::FlowOutputType eOutput>
 void ofdis::computeFlow(const cv::Mat& oInput1, const cv::Mat& oInput2, cv::Mat& oOutput, FlowParams oParams) {
-    CV_Assert(!oInput1.empty() && !oInput2.empty());
+    CV_Assert(!oInput1.empty() && !oInput2.empty() && oInput1.size()==oInput2.size());
     const int rpyrtype = (eInput==FlowInput_RGB)?CV_32FC3:CV_32FC1;
     const int nochannels = (eInput==FlowInput_RGB)?3:1;
     CV_Assert(oInput1.channels()==nochannels && oInput2.channels()==nochannels);
-- 
2.43.0


From 4c6246406bc05695ba806f4af8717c44e1bb0f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:27 +0000
Subject: [PATCH 080/125] fix: optical flow was scrambled when written to a
 non-continuous output (e.g. one returned by an earlier call)

---
 3rdparty/ofdis/src/ofdis.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/3rdparty/ofdis/src/ofdis.cpp b/3rdparty/ofdis/src/ofdis.cpp
index 9cc06bb..2266e43 100644
--- a/3rdparty/ofdis/src/ofdis.cpp
+++ b/3rdparty/ofdis/src/ofdis.cpp
@@ -166,6 +166,7 @@ void ofdis::computeFlow(const cv::Mat& oInput1, const cv::Mat& oInput2, cv::Mat&
     constructImgPyramid<eInput>(img_ao_fmat,img_ao_fmat_pyr,img_ao_dx_fmat_pyr,img_ao_dy_fmat_pyr,img_ao_pyr,img_ao_dx_pyr,img_ao_dy_pyr,oParams.lv_f,oParams.lv_l,rpyrtype,true,oParams.patchsz,padw,padh);
     constructImgPyramid<eInput>(img_bo_fmat,img_bo_fmat_pyr,img_bo_dx_fmat_pyr,img_bo_dy_fmat_pyr,img_bo_pyr,img_bo_dx_pyr,img_bo_dy_pyr,oParams.lv_f,oParams.lv_l,rpyrtype,true,oParams.patchsz,padw,padh);
     const int scfct2 = 1<<oParams.lv_l;
+    oOutput.release(); // the flow is written as one continuous block below
     oOutput.create(sz.height/scfct2,sz.width/scfct2,(eOutput==FlowOutput_OpticalFlow)?CV_32FC2:CV_32FC1);
     OFClass<eInput,eOutput> ofc(img_ao_pyr,img_ao_dx_pyr,img_ao_dy_pyr,img_bo_pyr,img_bo_dx_pyr,img_bo_dy_pyr,oParams.patchsz,  // extra image padding to avoid border violation check
                                 (float*)oOutput.data,   // pointer to n-band output float array
-- 
2.43.0


From 668f8d4ce30a6e6430732a1e2f4625ee3594ffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:03 +0000
Subject: [PATCH 081/125] fix: optical flow of patches starting outside the
 image was weighted with uninitialized memory

---
 3rdparty/ofdis/src/patch.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/3rdparty/ofdis/src/patch.cpp b/3rdparty/ofdis/src/patch.cpp
index e38c1eb..5174020 100644
--- a/3rdparty/ofdis/src/patch.cpp
+++ b/3rdparty/ofdis/src/patch.cpp
@@ -118,6 +118,7 @@ void ofdis::PatClass<eInput,eOutput>::OptimizeStart(const point_type& p_in_arg)
        pc->pt_iter[0] > cpt->tmp_ubw || pc->pt_iter[1] > cpt->tmp_ubh) {
         pc->hasconverged=1;
         pc->pdiff = tmp;
+        pc->pweight = tmp.cwiseAbs(); // would otherwise be left uninitialized, but is used as the weight of this patch
         pc->hasoptstarted=1;
     }
     else {
-- 
2.43.0


From b4c3a2d97b6e23eb3b87976aed7cddfdad57deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:40 +0000
Subject: [PATCH 082/125] fix: work groups located at the dataset root itself
 (e.g. Wallflower) can be created

---
 modules/datasets/src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 6a2a276..d0a0f37 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -172,7 +172,7 @@ lv::DataHandler::DataHandler(const std::string& sBatchName, const std::string& s
         m_sBatchName(sBatchName),
         m_sRelativePath(lv::addDirSlashIfMissing(sRelativePath)),
         m_sDataPath(getRootNodeHelper(oParent).getDataPath()+lv::addDirSlashIfMissing(sRelativePath)),
-        m_sOutputPath(createOutputDir(getRootNodeHelper(oParent).getOutputPath(),sRelativePath)),
+        m_sOutputPath(sRelativePath.empty()?getRootNodeHelper(oParent).getOutputPath():createOutputDir(getRootNodeHelper(oParent).getOutputPath(),sRelativePath)), // relative path can be empty if root is also a work group
         m_sFeaturesPath(createOutputDir(getRootNodeHelper(oParent).getOutputPath(),lv::addDirSlashIfMissing(sRelativePath)+"precomp/")),
         m_oParent(oParent),
         m_oRoot(getRootNodeHelper(oParent)) {}
-- 
2.43.0


From 71f7c17f098f74fbc854c9578dd51c61bab7e30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:51 +0000
Subject: [PATCH 083/125] fix: BSDS500 scaled groundtruth packets have the size
 announced for them

---
 modules/datasets/include/litiv/datasets/impl/BSDS500.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp b/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
index cb80b34..61d6a7f 100644
--- a/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
+++ b/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
@@ -115,7 +115,7 @@ namespace lv {
                 const std::vector<std::string> vsTempPaths = lv::getFilesFromDir(this->m_vsGTPaths[nImageIdx]);
                 lvAssert(!vsTempPaths.empty());
                 this->m_vInputInfos.push_back(lv::MatInfo{cv::Size(int(oCurrInput.cols*dScale),int(oCurrInput.rows*dScale)),CV_8UC3});
-                this->m_vGTInfos.push_back(lv::MatInfo{cv::Size(int(oCurrInput.cols*dScale),int(oCurrInput.rows*vsTempPaths.size()*dScale)),CV_8UC1});
+                this->m_vGTInfos.push_back(lv::MatInfo{cv::Size(int(oCurrInput.cols*dScale),int(oCurrInput.rows*dScale)*int(vsTempPaths.size())),CV_8UC1});
             }
             lvAssert(this->m_vInputInfos.size()>0);
         }
-- 
2.43.0


From c1da74eebbbfcdab542b13b122806fd3f62814fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:51 +0000
Subject: [PATCH 084/125] fix: BSDS500 sets mixing image orientations do not
 claim a constant packet size

---
 modules/datasets/include/litiv/datasets/impl/BSDS500.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp b/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
index 61d6a7f..88a3aae 100644
--- a/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
+++ b/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
@@ -116,6 +116,8 @@ namespace lv {
                 lvAssert(!vsTempPaths.empty());
                 this->m_vInputInfos.push_back(lv::MatInfo{cv::Size(int(oCurrInput.cols*dScale),int(oCurrInput.rows*dScale)),CV_8UC3});
                 this->m_vGTInfos.push_back(lv::MatInfo{cv::Size(int(oCurrInput.cols*dScale),int(oCurrInput.rows*dScale)*int(vsTempPaths.size())),CV_8UC1});
+                this->m_bIsInputInfoConst &= this->m_vInputInfos.back()==this->m_vInputInfos.front(); // portrait/landscape images can be mixed
+                this->m_bIsGTInfoConst &= this->m_vGTInfos.back()==this->m_vGTInfos.front();
             }
             lvAssert(this->m_vInputInfos.size()>0);
         }
-- 
2.43.0


From b7407b5149c7e6672d7d5c2872c10ee9543aed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 085/125] fix: scaled LITIV-bilodeau2014 input masks stay
 binary

---
 .../include/litiv/datasets/impl/litiv-bilodeau2014.hpp        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp b/modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp
index 2e8f008..7eb34ff 100644
--- a/modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp
+++ b/modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp
@@ -557,7 +557,7 @@ namespace lv {
                     oRGBMaskPacket = (oRGBMaskPacket!=255); // background is white & noisy
                     cv::morphologyEx(oRGBMaskPacket,oRGBMaskPacket,cv::MORPH_OPEN,cv::Mat(),cv::Point(-1,-1),2);
                     if(oRGBMaskPacket.size()!=vInputInfos[nInputRGBStreamIdx].size())
-                        cv::resize(oRGBMaskPacket,oRGBMaskPacket,vInputInfos[nInputRGBStreamIdx].size(),cv::INTER_NEAREST);
+                        cv::resize(oRGBMaskPacket,oRGBMaskPacket,vInputInfos[nInputRGBStreamIdx].size(),0,0,cv::INTER_NEAREST);
                     vInputs[nInputRGBMaskStreamIdx] = oRGBMaskPacket;
                 }
                 ///////////////////////////////////////////////////////////////////////////////////
@@ -572,7 +572,7 @@ namespace lv {
                     oThermalMaskPacket = (oThermalMaskPacket!=255); // background is white & noisy
                     cv::morphologyEx(oThermalMaskPacket,oThermalMaskPacket,cv::MORPH_OPEN,cv::Mat(),cv::Point(-1,-1),2);
                     if(oThermalMaskPacket.size()!=vInputInfos[nInputThermalStreamIdx].size())
-                        cv::resize(oThermalMaskPacket,oThermalMaskPacket,vInputInfos[nInputThermalStreamIdx].size(),cv::INTER_NEAREST);
+                        cv::resize(oThermalMaskPacket,oThermalMaskPacket,vInputInfos[nInputThermalStreamIdx].size(),0,0,cv::INTER_NEAREST);
                     vInputs[nInputThermalMaskStreamIdx] = oThermalMaskPacket;
                 }
             }
-- 
2.43.0


From c855cca32c1d1e9c15c160679331aff88f1bce21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 086/125] fix: VAP-trimodal2016 depth stream is announced with
 the type of its packets

---
 modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp b/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
index 09e4c55..881a7a1 100644
--- a/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
+++ b/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
@@ -350,7 +350,7 @@ namespace lv {
             if(dScale!=1.0)
                 cv::resize(oGlobalROI,oGlobalROI,cv::Size(),dScale,dScale,cv::INTER_NEAREST);
             for(size_t nStreamIdx=0; nStreamIdx<nInputStreamCount; ++nStreamIdx)
-                this->m_vInputInfos[nStreamIdx] = lv::MatInfo{oGlobalROI.size(),(nStreamIdx==nInputRGBStreamIdx?CV_8UC3:CV_8UC1)};
+                this->m_vInputInfos[nStreamIdx] = lv::MatInfo{oGlobalROI.size(),(nStreamIdx==nInputRGBStreamIdx?CV_8UC3:(this->m_bLoadDepth&&nStreamIdx==nInputDepthStreamIdx)?CV_16UC1:CV_8UC1)};
             for(size_t nStreamIdx=0; nStreamIdx<nGTStreamCount; ++nStreamIdx)
                 this->m_vGTInfos[nStreamIdx] = lv::MatInfo{oGlobalROI.size(),CV_8UC1};
             if(this->m_bUndistort) {
-- 
2.43.0


From 2dea938d93789c2944a103df366dae1b040631a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:57 +0000
Subject: [PATCH 087/125] fix: keep both dimensions of scaled displays under
 the maximum size

The limiting dimension was picked without considering the aspect ratio of
the maximum size, so tall images could get wider than allowed (and wide
ones taller).
---
 modules/utils/src/opencv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index b2303a9..fbc4c9d 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -257,7 +257,7 @@ void lv::DisplayHelper::display(const std::vector<std::vector<std::pair<cv::Mat,
     lvAssert(nColCount>0 && nRowCount>0);
     cv::Size oCurrDisplaySize(int(oSuggestedTileSize.width*nColCount),int(oSuggestedTileSize.height*nRowCount));
     if(m_oMaxDisplaySize.area()>0 && (oCurrDisplaySize.width>m_oMaxDisplaySize.width || oCurrDisplaySize.height>m_oMaxDisplaySize.height)) {
-        if(oCurrDisplaySize.width>m_oMaxDisplaySize.width && oCurrDisplaySize.width>oCurrDisplaySize.height)
+        if(double(oCurrDisplaySize.width)/m_oMaxDisplaySize.width>double(oCurrDisplaySize.height)/m_oMaxDisplaySize.height)
             oCurrDisplaySize = cv::Size(m_oMaxDisplaySize.width,int(m_oMaxDisplaySize.width*float(oCurrDisplaySize.height)/oCurrDisplaySize.width));
         else
             oCurrDisplaySize = cv::Size(int(m_oMaxDisplaySize.height*(float(oCurrDisplaySize.width)/oCurrDisplaySize.height)),m_oMaxDisplaySize.height);
@@ -331,7 +331,7 @@ void lv::DisplayHelper::displayAlbumAndWaitKey(const std::vector<std::pair<cv::M
     }
     cv::Size oCurrDisplaySize(vImageNamePairs[0].first.cols,vImageNamePairs[0].first.rows);
     if(m_oMaxDisplaySize.area()>0 && (oCurrDisplaySize.width>m_oMaxDisplaySize.width || oCurrDisplaySize.height>m_oMaxDisplaySize.height)) {
-        if(oCurrDisplaySize.width>m_oMaxDisplaySize.width && oCurrDisplaySize.width>oCurrDisplaySize.height)
+        if(double(oCurrDisplaySize.width)/m_oMaxDisplaySize.width>double(oCurrDisplaySize.height)/m_oMaxDisplaySize.height)
             oCurrDisplaySize = cv::Size(m_oMaxDisplaySize.width,int(m_oMaxDisplaySize.width*float(oCurrDisplaySize.height)/oCurrDisplaySize.width));
         else
             oCurrDisplaySize = cv::Size(int(m_oMaxDisplaySize.height*(float(oCurrDisplaySize.width)/oCurrDisplaySize.height)),m_oMaxDisplaySize.height);
-- 
2.43.0


From 5b578500f788b2bca8e518dd969b6149ccac7b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:57 +0000
Subject: [PATCH 088/125] fix: map the full range of 32-bit signed images to
 the display range

The scale was twice too large, saturating half of the expected input range
to black or white.
---
 modules/utils/src/opencv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index fbc4c9d..a3f0309 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -275,7 +275,7 @@ void lv::DisplayHelper::display(const std::vector<std::vector<std::pair<cv::Mat,
             else if(oImage.depth()==CV_16U) // expected input range = [0..USHRT_MAX]
                 oImage.convertTo(oImageBYTE3,CV_8U,double(UCHAR_MAX)/(USHRT_MAX));
             else if(oImage.depth()==CV_32S) // expected input range = [INT_MIN..INT_MAX]
-                oImage.convertTo(oImageBYTE3,CV_8U,double(UCHAR_MAX)/(INT_MAX),double(UCHAR_MAX/2));
+                oImage.convertTo(oImageBYTE3,CV_8U,double(UCHAR_MAX)/UINT_MAX,-double(INT_MIN)*UCHAR_MAX/UINT_MAX);
             else if(oImage.depth()==CV_32F) // expected input range = [0,1]
                 oImage.convertTo(oImageBYTE3,CV_8U,double(UCHAR_MAX));
             else
@@ -344,7 +344,7 @@ void lv::DisplayHelper::displayAlbumAndWaitKey(const std::vector<std::pair<cv::M
         if(oImage.depth()==CV_16U) // expected input range = [0..USHRT_MAX]
             oImage.convertTo(oImageBYTE3,CV_8U,double(UCHAR_MAX)/(USHRT_MAX));
         else if(oImage.depth()==CV_32S) // expected input range = [INT_MIN..INT_MAX]
-            oImage.convertTo(oImageBYTE3,CV_8U,double(UCHAR_MAX)/(INT_MAX),double(UCHAR_MAX/2));
+            oImage.convertTo(oImageBYTE3,CV_8U,double(UCHAR_MAX)/UINT_MAX,-double(INT_MIN)*UCHAR_MAX/UINT_MAX);
         else if(oImage.depth()==CV_32F) // expected input range = [0,1]
             oImage.convertTo(oImageBYTE3,CV_8U,double(UCHAR_MAX));
         else
-- 
2.43.0


From d4de35fc5069a19bc2b3f25784c2919a75eb474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:14 +0000
Subject: [PATCH 089/125] fix: validate the view angles given to the ground
 truth translator, not its members

---
 modules/vptz/src/virtualptz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index b5a296c..2b6ab16 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -317,7 +317,7 @@ vptz::GTTranslator::GTTranslator( int cur_output_width, int cur_output_height, d
     lvDbgExceptionWatch;
     if(cur_output_width<1 || cur_output_height<1 || cur_verti_FOV<=0.0 || cur_verti_FOV>=180.0 ||
         bgt_output_width<1 || bgt_output_height<1 || bgt_verti_FOV<=0.0 || bgt_verti_FOV>=180.0 ||
-        curHoriAngle<=-180.0 || curHoriAngle>180.0 || curVertiAngle<0.0 || curVertiAngle>180.0)
+        cur_hori_angle<=-180.0 || cur_hori_angle>180.0 || cur_verti_angle<0.0 || cur_verti_angle>180.0)
         lvError("invalid parameter(s)");
     curOutputWidth = cur_output_width;
     curOutputHeight = cur_output_height;
@@ -331,7 +331,7 @@ vptz::GTTranslator::GTTranslator( int cur_output_width, int cur_output_height, d
 
 void vptz::GTTranslator::UpdateViewAngle(double cur_hori_angle, double cur_verti_angle) {
     lvDbgExceptionWatch;
-    if(curHoriAngle<=-180.0 || curHoriAngle>180.0 || curVertiAngle<0.0 || curVertiAngle>180.0)
+    if(cur_hori_angle<=-180.0 || cur_hori_angle>180.0 || cur_verti_angle<0.0 || cur_verti_angle>180.0)
         lvError("invalid input parameter");
     curHoriAngle = cur_hori_angle;
     curVertiAngle = cur_verti_angle;
-- 
2.43.0


From d4828aae0ae51914baeb8e451d72f32611922f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:14 +0000
Subject: [PATCH 090/125] fix: keep pan angles of image points in (-180,180]

---
 modules/vptz/src/virtualptz.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 2b6ab16..3025988 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -830,6 +830,8 @@ void vptz::PTZPointXYtoHV( int target2dX, int target2dY, double& tarHoriAngle, d
     double target3dY = ray_world.at<double>(1,0);
     double target3dZ = ray_world.at<double>(2,0);
     tarHoriAngle = R2D(atan2(target3dY, target3dX));     // horizontal angle
+    if(tarHoriAngle<=-180.0)
+        tarHoriAngle += 360.0;
     double target3dR = sqrt(target3dX*target3dX+target3dY*target3dY+target3dZ*target3dZ);
     tarVertiAngle = R2D(acos(target3dZ/target3dR));    // vertical angle
 }
-- 
2.43.0


From 385deff5bd4479924da68b3c7d33c267f4fd44b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:14 +0000
Subject: [PATCH 091/125] fix: round projected positions left of or above the
 image to the nearest pixel

---
 modules/vptz/src/virtualptz.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 3025988..6569d29 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -918,8 +918,10 @@ bool vptz::PTZPointHVtoXY( double tarHoriAngle, double tarVertiAngle, int& targe
     //cout<<cv::Point2d(x_normal, y_normal)<<endl;
 
     // 2d image coordinate, range [0:width, height:0]
-    target2dX = int((x_normal+0.5)*camOutputWidth+0.5);
-    target2dY = int((0.5-y_normal)*camOutputHeight+0.5);
+    const double x_image = std::floor((x_normal+0.5)*camOutputWidth+0.5);
+    const double y_image = std::floor((0.5-y_normal)*camOutputHeight+0.5);
+    target2dX = int(x_image);
+    target2dY = int(y_image);
     return true;
 }
 
-- 
2.43.0


From d5624a0338bdba63bbe080434c89b68ab7f37701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:14 +0000
Subject: [PATCH 092/125] fix: report targets at 90 degrees of the view
 direction as not visible

---
 modules/vptz/src/virtualptz.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 6569d29..8aade79 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -920,6 +920,12 @@ bool vptz::PTZPointHVtoXY( double tarHoriAngle, double tarVertiAngle, int& targe
     // 2d image coordinate, range [0:width, height:0]
     const double x_image = std::floor((x_normal+0.5)*camOutputWidth+0.5);
     const double y_image = std::floor((0.5-y_normal)*camOutputHeight+0.5);
+    if(!(z_camera<0.0) || !(std::abs(x_image)<INT_MAX) || !(std::abs(y_image)<INT_MAX)) {
+        // too close to the limit of the visible half space to be projected
+        target2dX = INT_MAX;
+        target2dY = INT_MAX;
+        return false;
+    }
     target2dX = int(x_image);
     target2dY = int(y_image);
     return true;
-- 
2.43.0


From 367165660f12d533338cc65eb41795eed492e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:03 +0000
Subject: [PATCH 093/125] fix: accept ground truth boxes as large as the ground
 truth image

---
 modules/vptz/src/virtualptz.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 8aade79..f688de6 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -10,6 +10,11 @@ inline std::string GetRootFolderPath(const std::string& sPath) {
     return nLastSeparatorPos==sPath.npos?std::string():(sPath.substr(0,nLastSeparatorPos)+"/");
 }
 
+// gives the direction angles of an image plane position (which might be outside the image itself)
+static void unprojectPoint( double target2dX, double target2dY, double& tarHoriAngle, double& tarVertiAngle,
+                            int camOutputWidth, int camOutputHeight,
+                            double camVertiFOV, double camHoriAngle, double camVertiAngle);
+
 vptz::Camera::Camera( const std::string& sInputPath, double verti_FOV, double output_width,
                       double output_height, double hori_angle, double verti_angle,
                       double hori_speed, double verti_speed, double communication_delay) :
@@ -370,10 +375,10 @@ bool vptz::GTTranslator::GetGTBoundingBox(double bgtHoriAngle, double bgtVertiAn
     cv::Point r_b_XY((bgtOutputWidth+bgtBBoxWidth)/2, (bgtOutputHeight+bgtBBoxHeight)/2);
     // the four vertexes of bounding box on spherical surface
     cv::Point2d l_t_HV, l_b_HV, r_t_HV, r_b_HV;
-    PTZPointXYtoHV(l_t_XY, l_t_HV, bgtOutputWidth, bgtOutputHeight, bgtVertiFOV, bgtHoriAngle, bgtVertiAngle);
-    PTZPointXYtoHV(l_b_XY, l_b_HV, bgtOutputWidth, bgtOutputHeight, bgtVertiFOV, bgtHoriAngle, bgtVertiAngle);
-    PTZPointXYtoHV(r_t_XY, r_t_HV, bgtOutputWidth, bgtOutputHeight, bgtVertiFOV, bgtHoriAngle, bgtVertiAngle);
-    PTZPointXYtoHV(r_b_XY, r_b_HV, bgtOutputWidth, bgtOutputHeight, bgtVertiFOV, bgtHoriAngle, bgtVertiAngle);
+    unprojectPoint(l_t_XY.x, l_t_XY.y, l_t_HV.x, l_t_HV.y, bgtOutputWidth, bgtOutputHeight, bgtVertiFOV, bgtHoriAngle, bgtVertiAngle);
+    unprojectPoint(l_b_XY.x, l_b_XY.y, l_b_HV.x, l_b_HV.y, bgtOutputWidth, bgtOutputHeight, bgtVertiFOV, bgtHoriAngle, bgtVertiAngle);
+    unprojectPoint(r_t_XY.x, r_t_XY.y, r_t_HV.x, r_t_HV.y, bgtOutputWidth, bgtOutputHeight, bgtVertiFOV, bgtHoriAngle, bgtVertiAngle);
+    unprojectPoint(r_b_XY.x, r_b_XY.y, r_b_HV.x, r_b_HV.y, bgtOutputWidth, bgtOutputHeight, bgtVertiFOV, bgtHoriAngle, bgtVertiAngle);
     // 2. Current Simulator Domain
     // the four vertexes of bounding box on image plane
     if( !PTZPointHVtoXY(l_t_HV, l_t_XY, curOutputWidth, curOutputHeight, curVertiFOV, curHoriAngle, curVertiAngle) ||
@@ -798,6 +803,12 @@ void vptz::PTZPointXYtoHV( int target2dX, int target2dY, double& tarHoriAngle, d
     else if(camVertiAngle<0.0 || camVertiAngle>180.0)
         lvError("invalid camVertiAngle");
 
+    unprojectPoint(target2dX,target2dY,tarHoriAngle,tarVertiAngle,camOutputWidth,camOutputHeight,camVertiFOV,camHoriAngle,camVertiAngle);
+}
+
+static void unprojectPoint( double target2dX, double target2dY, double& tarHoriAngle, double& tarVertiAngle,
+                            int camOutputWidth, int camOutputHeight,
+                            double camVertiFOV, double camHoriAngle, double camVertiAngle) {
     // viewMatrix (world coordinate -> camera coordinate)
     // glRotatef(GLfloat(vertiAngle-180), 1, 0, 0);      // x axis
     double angle = D2R(camVertiAngle-180);
-- 
2.43.0


From 42a4c6fb895e63a318436a569decd887d4874cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:53 +0000
Subject: [PATCH 094/125] fix: let the readable angle change properties be read

---
 modules/vptz/src/virtualptz.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index f688de6..03c067f 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -213,6 +213,8 @@ double vptz::Camera::Get(CameraPropertyFlag flag) {
     switch(flag) {
         case PTZ_CAM_IS_VIDEO : return isVideo;
         case PTZ_CAM_FRAME_NUM : return m_nScenarioFrameCount;
+        case PTZ_CAM_HORI_ANGLE_CHANGE : return horiAngleChange;
+        case PTZ_CAM_VERTI_ANGLE_CHANGE : return vertiAngleChange;
         case PTZ_CAM_GET_FRAME_OVERHEAD : return getFrameOverhead;
         case PTZ_CAM_EXECUTION_DELAY : return executionDelay;
         case PTZ_CAM_MOTION_DELAY : return motionDelay;
-- 
2.43.0


From e459a1e4458373a1fe77c5090c9c94a82b8d7336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:02 +0000
Subject: [PATCH 095/125] fix: give the pan angle change across the +-180 limit
 its right sign

---
 modules/vptz/src/virtualptz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 03c067f..dbe05fe 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -137,7 +137,7 @@ void vptz::Camera::GoToPosition(int x, int y) {
     PTZPointXYtoHV(x, y, horiAngle, vertiAngle, int(outputWidth), int(outputHeight), vertiFOV, horiAngle, vertiAngle);
     horiAngleChange = horiAngle-tempHoriAngle;
     if(horiAngleChange>180.0)
-        horiAngleChange = 360.0-horiAngleChange;
+        horiAngleChange = horiAngleChange-360.0;
     else if(horiAngleChange<=-180.0)
         horiAngleChange = horiAngleChange+360.0;
     vertiAngleChange = vertiAngle-tempVertiAngle;
@@ -258,7 +258,7 @@ void vptz::Camera::Set(CameraPropertyFlag flag, double value) {
             horiAngle = value;
             horiAngleChange = horiAngle-tempHoriAngle;
             if(horiAngleChange>180.0)
-                horiAngleChange = 360.0-horiAngleChange;
+                horiAngleChange = horiAngleChange-360.0;
             else if(horiAngleChange<=-180.0)
                 horiAngleChange = horiAngleChange+360.0;
         } break;
-- 
2.43.0


From 386e2a5102641c3479f1fd62d80241e10b1b9e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:11 +0000
Subject: [PATCH 096/125] fix: wrap pan angles that are odd multiples of 180
 into (-180,180]

---
 modules/vptz/src/virtualptz.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index dbe05fe..7c63aad 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -254,6 +254,8 @@ void vptz::Camera::Set(CameraPropertyFlag flag, double value) {
         case PTZ_CAM_HORI_ANGLE: {
             if(value<=-180.0 || value>180.0)
                 value = fmod(value+180-360*(value<0),360)-180+360*(value<0);
+            if(value<=-180.0)
+                value += 360.0;
             double tempHoriAngle = horiAngle;
             horiAngle = value;
             horiAngleChange = horiAngle-tempHoriAngle;
-- 
2.43.0


From 4a0b893a66bc96f8fa4f86fac14750646b36560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:20 +0000
Subject: [PATCH 097/125] fix: refuse non-finite camera property values and
 non-positive frame rates

---
 modules/vptz/src/virtualptz.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 7c63aad..b84319e 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -236,8 +236,12 @@ double vptz::Camera::Get(CameraPropertyFlag flag) {
 void vptz::Camera::Set(CameraPropertyFlag flag, double value) {
     lvDbgExceptionWatch;
     bool bRefreshProj = false;
+    if(!std::isfinite(value))
+        lvError("invalid (non-finite) property value");
     switch(flag) {
         case PTZ_CAM_FRAME_RATE:
+            if(value<=0)
+                lvError("invalid frameRate value");
             m_dFrameRate = value;
             break;
         case PTZ_CAM_FRAME_POS:
-- 
2.43.0


From dba3330ae1bcf3eeb39079cd4bc0ef5d251f3a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:30 +0000
Subject: [PATCH 098/125] fix: refuse panoramic images that would be read out
 of bounds

---
 modules/vptz/src/virtualptz.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index b84319e..90aa056 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -205,6 +205,7 @@ const cv::Mat& vptz::Camera::GetFrame() {
 void vptz::Camera::UpdatePanoImage(cv::Mat& image) {
     lvDbgExceptionWatch;
     lvAssert(!isVideo);
+    lvAssert(!image.empty() && (image.type()==CV_8UC3 || image.type()==CV_8UC4));
     image.copyTo(panoImage);
 }
 
-- 
2.43.0


From 36c69fb5ce9b4d88acf9d74f78da1349e2342bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:39 +0000
Subject: [PATCH 099/125] fix: update and release the objects of a camera in
 its own context

---
 modules/vptz/src/virtualptz.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 90aa056..1b42836 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -126,6 +126,7 @@ vptz::Camera::Camera( const std::string& sInputPath, double verti_FOV, double ou
 
 vptz::Camera::~Camera() {
     lvDbgExceptionWatch;
+    m_pContext->setAsActive();
     gluDeleteQuadric(m_pSphereObj);
     glDeleteTextures(1, &m_nTexID);
 }
@@ -301,6 +302,7 @@ void vptz::Camera::Set(CameraPropertyFlag flag, double value) {
             lvError("invalid flag");
     }
     if(bRefreshProj && m_pContext) {
+        m_pContext->setAsActive();
         glMatrixMode(GL_PROJECTION);
         glLoadIdentity();
         gluPerspective(vertiFOV, outputWidth/outputHeight, 0.01, 10.0);
-- 
2.43.0


From 924835085586f8db4be886ae9ac7aeeb1e77d667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:48 +0000
Subject: [PATCH 100/125] fix: never simulate negative execution delays

---
 modules/vptz/src/virtualptz.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 1b42836..dd114d2 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -153,6 +153,8 @@ void vptz::Camera::BeginPlaying(int nFrameIdx) {
     lvDbgExceptionWatch;
     Set(PTZ_CAM_FRAME_POS,(double)nFrameIdx);
     currentTime = nFrameIdx/m_dFrameRate;
+    executionBeginTime = 0.0;
+    getFrameOverhead = 0.0;
     firstTick = double(cv::getTickCount());
 }
 
@@ -163,7 +165,7 @@ bool vptz::Camera::WaitDelay(bool bSleep) {
     // The end of other parts (tracker's analysing, get frame)
     executionEndTime = (double(cv::getTickCount())-firstTick)/cv::getTickFrequency();
     // two of the three kinds of delay
-    executionDelay = (executionEndTime-executionBeginTime)-getFrameOverhead;
+    executionDelay = std::max((executionEndTime-executionBeginTime)-getFrameOverhead,0.0);
     motionDelay = std::abs(horiAngleChange)/horiSpeed+std::abs(vertiAngleChange)/vertiSpeed;
     // calculate frame position
     currentTime += executionDelayRatio*executionDelay + motionDelay + communicationDelay;
-- 
2.43.0


From ac2b4a94ae1bd464e15ef0f29033a021d5f60848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:57 +0000
Subject: [PATCH 101/125] fix: do not overflow the position of frames past the
 end of the sequence

---
 modules/vptz/src/virtualptz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index dd114d2..9f5ef60 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -169,7 +169,7 @@ bool vptz::Camera::WaitDelay(bool bSleep) {
     motionDelay = std::abs(horiAngleChange)/horiSpeed+std::abs(vertiAngleChange)/vertiSpeed;
     // calculate frame position
     currentTime += executionDelayRatio*executionDelay + motionDelay + communicationDelay;
-    m_nCurrFrameIdx = std::max(int(currentTime*m_dFrameRate+0.5),m_nCurrFrameIdx+1);
+    m_nCurrFrameIdx = std::max(int(std::min(currentTime*m_dFrameRate+0.5,double(m_nScenarioFrameCount))),m_nCurrFrameIdx+1);
     if(bSleep) {
         double waitingTime = motionDelay + communicationDelay - getFrameOverhead;
         if(waitingTime<0.001) waitingTime = 0.001;
-- 
2.43.0


From 8b1b32ee12e5772aa0d571dbe06c3fd149b1c753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:09 +0000
Subject: [PATCH 102/125] fix: compare the row of the target with the image
 height when evaluating trackers

---
 modules/vptz/src/virtualptz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 9f5ef60..e4e326e 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -691,7 +691,7 @@ void vptz::Evaluator::UpdateCurrentResult(cv::Rect& rCurrTargetBBox, bool bPrint
     double dCurrTargetPointError;  // target point error (pixel, -1.0 if out of view), L2 dist between tracked point and gt point
     double dCurrTargetPointOffset; // target point offset (pixel, -1.0 if out of view), L2 dist between gt point and image center
     if(tgtTargetPoint.x<0 || tgtTargetPoint.y<0 ||
-        tgtTargetPoint.x>m_pTranslator->curOutputWidth-1 || tgtTargetPoint.x>m_pTranslator->curOutputHeight-1 ||
+        tgtTargetPoint.x>m_pTranslator->curOutputWidth-1 || tgtTargetPoint.y>m_pTranslator->curOutputHeight-1 ||
         (rCurrTargetBBox.width<VPTZ_MINIMUM_BBOX_RADIUS || rCurrTargetBBox.height<VPTZ_MINIMUM_BBOX_RADIUS) ) {
         ++m_nCurrOutOfViewFrameCount;
         dCurrTargetPointError = -1.0;
-- 
2.43.0


From d1a85a0868b7f2b78338eaa3b54f2f296e9c608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:18 +0000
Subject: [PATCH 103/125] fix: forget the former ground truth box when the
 target gets out of sight

---
 modules/vptz/src/virtualptz.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index e4e326e..c809eba 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -686,7 +686,8 @@ void vptz::Evaluator::UpdateCurrentResult(cv::Rect& rCurrTargetBBox, bool bPrint
     double bgtVertiAngle = m_voCurrGTSequence_FN[nCurrGTArrayIdx]["verticalAngle"];
     // translated ground truth for required frame
     m_pTranslator->GetGTTargetPoint(bgtHoriAngle, bgtVertiAngle, tgtTargetPoint);
-    m_pTranslator->GetGTBoundingBox(bgtHoriAngle, bgtVertiAngle, bgtBBoxwidth, bgtBBoxheight, tgtBoundingBox);
+    if(!m_pTranslator->GetGTBoundingBox(bgtHoriAngle, bgtVertiAngle, bgtBBoxwidth, bgtBBoxheight, tgtBoundingBox))
+        tgtBoundingBox = cv::Rect();
     // target point distance and offset
     double dCurrTargetPointError;  // target point error (pixel, -1.0 if out of view), L2 dist between tracked point and gt point
     double dCurrTargetPointOffset; // target point offset (pixel, -1.0 if out of view), L2 dist between gt point and image center
-- 
2.43.0


From 2b8eb364d307ac9371c40debe533defa36e62f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:29 +0000
Subject: [PATCH 104/125] fix: average overlap ratios over the frames they are
 divided by, without empty unions

---
 modules/vptz/src/virtualptz.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index c809eba..618c39c 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -709,8 +709,9 @@ void vptz::Evaluator::UpdateCurrentResult(cv::Rect& rCurrTargetBBox, bool bPrint
     // overlap ratio of bounding box
     double AND = double((tgtBoundingBox&rCurrTargetBBox).area());
     double OR = double(tgtBoundingBox.area()+rCurrTargetBBox.area()-AND);
-    double dCurrBBoxOverlapRatio = AND/OR ;
-    m_dCurrBBoxOverlapRatioSum += dCurrBBoxOverlapRatio;
+    double dCurrBBoxOverlapRatio = OR>0.0?AND/OR:0.0;
+    if(dCurrTargetPointError>=0.0) // the average is given over in-view frames only
+        m_dCurrBBoxOverlapRatioSum += dCurrBBoxOverlapRatio;
     m_oOutputEvalFS << "{:" << "framePos" << m_nCurrFrameIdx
                     << "targetPointError" << dCurrTargetPointError
                     << "targetPointOffset" << dCurrTargetPointOffset
-- 
2.43.0


From 34c83f12a95a60f4ac8540cea3de079e2bc9b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:38 +0000
Subject: [PATCH 105/125] fix: keep tracker evaluation ratios in [0,1]

---
 modules/vptz/src/virtualptz.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 618c39c..ec7a724 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -562,9 +562,9 @@ void vptz::Evaluator::EndTesting() {
     const double dTargetPointError = m_dCurrTargetPointErrorSum/nValidProcessedFrames;
     const double dTargetPointOffset = m_dCurrTargetPointOffsetSum/nValidProcessedFrames;
     const double dBBoxOverlapRatio = m_dCurrBBoxOverlapRatioSum/nValidProcessedFrames;
-    const double dTrackFragmentation = double(m_nCurrOutOfViewFrameCount)/m_nCurrProcessedFrameCount;
-    const double dOutOfViewRatio = (double)m_nCurrOutOfViewFrameCount/(m_nTestFrameCount-1);
-    const double dProcessedRatio = (double)m_nCurrProcessedFrameCount/(m_nTestFrameCount-1);
+    const double dTrackFragmentation = double(m_nCurrOutOfViewFrameCount)/std::max(m_nCurrProcessedFrameCount,1);
+    const double dOutOfViewRatio = (double)m_nCurrOutOfViewFrameCount/std::max(m_nTestFrameCount,1);
+    const double dProcessedRatio = (double)m_nCurrProcessedFrameCount/std::max(m_nTestFrameCount,1);
     m_oOutputEvalFS << "]"
                     << "targetPointError_avg" << dTargetPointError
                     << "targetPointOffset_avg" << dTargetPointOffset
-- 
2.43.0


From 33d88fb12ad5b32a36c9527784c5c9e52c454d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:49 +0000
Subject: [PATCH 106/125] fix: return the box from which the initial target was
 taken

---
 modules/vptz/src/virtualptz.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index ec7a724..cd7ce28 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -628,9 +628,7 @@ cv::Mat vptz::Evaluator::GetInitTargetFrame() {
 cv::Rect vptz::Evaluator::GetInitTargetBBox() {
     lvDbgExceptionWatch;
     lvAssert(m_bReady && m_pCamera.get());
-    return cv::Rect(m_oInitTargetFrame.cols/2-m_oInitTarget.cols/2,
-                    m_oInitTargetFrame.rows/2-m_oInitTarget.rows/2,
-                    m_oInitTarget.cols,m_oInitTarget.rows);
+    return m_tgtInitBBox;
 }
 
 cv::Mat vptz::Evaluator::GetNextFrame(const cv::Point& oExpectedTargetPosition, bool bUseWaitDelaySleep) {
-- 
2.43.0


From 83c5c643493a542f66af80d27c1bc61faf9b21b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:46 +0000
Subject: [PATCH 107/125] fix: open colour image sequences and videos as
 panoramas

---
 modules/vptz/src/virtualptz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index cd7ce28..3541780 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -53,11 +53,11 @@ vptz::Camera::Camera( const std::string& sInputPath, double verti_FOV, double ou
         cv::Mat oTestFrame1, oTestFrame2;
         if(!panoCapture.set(cv::CAP_PROP_POS_FRAMES,0) || !panoCapture.read(oTestFrame1) || oTestFrame1.empty() || !panoCapture.read(oTestFrame2) || oTestFrame2.empty())
             lvError("could not fetch the first two frames of the image sequence");
-        if(cv::countNonZero(oTestFrame1!=oTestFrame2)==0)
+        if(cv::countNonZero(cv::Mat(oTestFrame1!=oTestFrame2).reshape(1))==0)
             lvError("opencv impl cannot properly parse the image sequence, all frames are identical");
         if(!panoCapture.set(cv::CAP_PROP_POS_FRAMES,0) || !panoCapture.read(oTestFrame2) || oTestFrame2.empty())
             lvError("could not fetch the first frame of the image sequence");
-        if(cv::countNonZero(oTestFrame1!=oTestFrame2))
+        if(cv::countNonZero(cv::Mat(oTestFrame1!=oTestFrame2).reshape(1)))
             lvError("opencv impl could not seek back to the first frame of the image sequence");
         panoCapture >> panoImage;
         panoCapture.set(cv::CAP_PROP_POS_FRAMES,0);
-- 
2.43.0


From b2d60eaec5c3990faba47109af5f5cfaefbea519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:26 +0000
Subject: [PATCH 108/125] fix: OpenGL texture transfers assumed 4-byte row
 alignment of tightly packed matrices

---
 modules/utils/src/opengl-draw.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/modules/utils/src/opengl-draw.cpp b/modules/utils/src/opengl-draw.cpp
index df34bb6..213d633 100644
--- a/modules/utils/src/opengl-draw.cpp
+++ b/modules/utils/src/opengl-draw.cpp
@@ -95,6 +95,7 @@ GLTexture2D::GLTexture2D( GLsizei nLevels, GLenum eInternalFormat, GLsizei nWidt
     lvAssert(m_nLevels>=1 && m_nWidth>0 && m_nHeight>0);
     glBindTexture(GL_TEXTURE_2D,getTexId());
     glTexStorage2D(GL_TEXTURE_2D,m_nLevels,m_eInternalFormat,m_nWidth,m_nHeight);
+    glPixelStorei(GL_UNPACK_ALIGNMENT,1); // opencv matrix rows are not padded
     glTexSubImage2D(GL_TEXTURE_2D,0,0,0,m_nWidth,m_nHeight,m_eDataFormat,m_eDataType,m_oInitTexture.data);
     glTexParameteri(GL_TEXTURE_2D,GL_TEXTURE_WRAP_S,GL_MIRRORED_REPEAT);
     glTexParameteri(GL_TEXTURE_2D,GL_TEXTURE_WRAP_T,GL_MIRRORED_REPEAT);
@@ -123,6 +124,7 @@ GLTexture2D::GLTexture2D(GLsizei nLevels, const cv::Mat& oTexture, bool bUseInte
     lvAssert(m_nLevels>=1 && !m_oInitTexture.empty());
     glBindTexture(GL_TEXTURE_2D,getTexId());
     glTexStorage2D(GL_TEXTURE_2D,m_nLevels,m_eInternalFormat,m_nWidth,m_nHeight);
+    glPixelStorei(GL_UNPACK_ALIGNMENT,1); // opencv matrix rows are not padded
     glTexSubImage2D(GL_TEXTURE_2D,0,0,0,m_nWidth,m_nHeight,m_eDataFormat,m_eDataType,m_oInitTexture.data);
     glTexParameteri(GL_TEXTURE_2D,GL_TEXTURE_WRAP_S,GL_MIRRORED_REPEAT);
     glTexParameteri(GL_TEXTURE_2D,GL_TEXTURE_WRAP_T,GL_MIRRORED_REPEAT);
@@ -163,6 +165,7 @@ GLTexture2DArray::GLTexture2DArray( GLsizei nTextureCount, GLsizei nLevels, GLen
     lvAssert(m_nTextureCount>0 && m_nLevels>=1 && m_nWidth>0 && m_nHeight>0);
     glBindTexture(GL_TEXTURE_2D_ARRAY,getTexId());
     glTexStorage3D(GL_TEXTURE_2D_ARRAY,m_nLevels,m_eInternalFormat,m_nWidth,m_nHeight,m_nTextureCount);
+    glPixelStorei(GL_UNPACK_ALIGNMENT,1); // opencv matrix rows are not padded
     glTexSubImage3D(GL_TEXTURE_2D_ARRAY,0,0,0,0,m_nWidth,m_nHeight,m_nTextureCount,m_eDataFormat,m_eDataType,pData);
     glTexParameteri(GL_TEXTURE_2D_ARRAY,GL_TEXTURE_WRAP_S,GL_MIRRORED_REPEAT);
     glTexParameteri(GL_TEXTURE_2D_ARRAY,GL_TEXTURE_WRAP_T,GL_MIRRORED_REPEAT);
@@ -194,6 +197,7 @@ GLTexture2DArray::GLTexture2DArray(GLsizei nLevels, const std::vector<cv::Mat>&
     glTexStorage3D(GL_TEXTURE_2D_ARRAY,m_nLevels,m_eInternalFormat,m_nWidth,m_nHeight,m_nTextureCount);
     for(int nTexIter=0; nTexIter<m_nTextureCount; ++nTexIter) {
         lvAssert(m_voInitTextures[nTexIter].size()==m_voInitTextures[0].size() && m_voInitTextures[nTexIter].type()==m_voInitTextures[0].type());
+        glPixelStorei(GL_UNPACK_ALIGNMENT,1); // opencv matrix rows are not padded
         glTexSubImage3D(GL_TEXTURE_2D_ARRAY,0,0,0,nTexIter,m_nWidth,m_nHeight,1,m_eDataFormat,m_eDataType,m_voInitTextures[nTexIter].data);
     }
     glTexParameteri(GL_TEXTURE_2D_ARRAY,GL_TEXTURE_WRAP_S,GL_MIRRORED_REPEAT);
@@ -234,6 +238,7 @@ void GLDynamicTexture2D::updateTexture(const cv::Mat& oTexture, bool bRebindAll)
     lvDbgAssert(oTexture.isContinuous());
     if(bRebindAll)
         glBindTexture(GL_TEXTURE_2D,getTexId());
+    glPixelStorei(GL_UNPACK_ALIGNMENT,1); // opencv matrix rows are not padded
     glTexSubImage2D(GL_TEXTURE_2D,0,0,0,m_nWidth,m_nHeight,m_eDataFormat,m_eDataType,oTexture.data);
     if(m_nLevels>1)
         glGenerateMipmap(GL_TEXTURE_2D);
@@ -245,6 +250,7 @@ void GLDynamicTexture2D::updateTexture(const GLPixelBufferObject& oPBO, bool bRe
     if(bRebindAll)
         glBindTexture(GL_TEXTURE_2D,getTexId());
     glBindBuffer(oPBO.m_eBufferTarget,oPBO.getPBOId());
+    glPixelStorei(GL_UNPACK_ALIGNMENT,1); // opencv matrix rows are not padded
     glTexSubImage2D(GL_TEXTURE_2D,0,0,0,m_nWidth,m_nHeight,m_eDataFormat,m_eDataType,nullptr);
     if(bRebindAll)
         glBindBuffer(oPBO.m_eBufferTarget,0);
@@ -255,6 +261,7 @@ void GLDynamicTexture2D::fetchTexture(cv::Mat& oTexture) {
     lvDbgAssert(oTexture.size()==m_oInitTexture.size() && oTexture.type()==m_oInitTexture.type());
     lvDbgAssert(oTexture.isContinuous());
     glBindTexture(GL_TEXTURE_2D,getTexId());
+    glPixelStorei(GL_PACK_ALIGNMENT,1); // opencv matrix rows are not padded
     glGetTexImage(GL_TEXTURE_2D,0,m_eDataFormat,m_eDataType,oTexture.data);
 }
 
@@ -263,6 +270,7 @@ void GLDynamicTexture2D::fetchTexture(const GLPixelBufferObject& oPBO, bool bReb
     lvDbgAssert(oPBO.size()==m_oInitTexture.size() && oPBO.type()==m_oInitTexture.type());
     glBindTexture(GL_TEXTURE_2D,getTexId());
     glBindBuffer(oPBO.m_eBufferTarget,oPBO.getPBOId());
+    glPixelStorei(GL_PACK_ALIGNMENT,1); // opencv matrix rows are not padded
     glGetTexImage(GL_TEXTURE_2D,0,m_eDataFormat,m_eDataType,nullptr);
     if(bRebindAll)
         glBindBuffer(oPBO.m_eBufferTarget,0);
@@ -285,6 +293,7 @@ void GLDynamicTexture2DArray::updateTexture(const cv::Mat& oTexture, int nLayer,
     lvDbgAssert(nLayer>=0 && nLayer<m_nTextureCount);
     if(bRebindAll)
         glBindTexture(GL_TEXTURE_2D_ARRAY,getTexId());
+    glPixelStorei(GL_UNPACK_ALIGNMENT,1); // opencv matrix rows are not padded
     glTexSubImage3D(GL_TEXTURE_2D_ARRAY,0,0,0,nLayer,m_nWidth,m_nHeight,1,m_eDataFormat,m_eDataType,oTexture.data);
     if(m_nLevels>1 && bRegenMipmaps)
         glGenerateMipmap(GL_TEXTURE_2D_ARRAY);
@@ -297,6 +306,7 @@ void GLDynamicTexture2DArray::updateTexture(const GLPixelBufferObject& oPBO, int
     if(bRebindAll)
         glBindTexture(GL_TEXTURE_2D_ARRAY,getTexId());
     glBindBuffer(oPBO.m_eBufferTarget,oPBO.getPBOId());
+    glPixelStorei(GL_UNPACK_ALIGNMENT,1); // opencv matrix rows are not padded
     glTexSubImage3D(GL_TEXTURE_2D_ARRAY,0,0,0,nLayer,m_nWidth,m_nHeight,1,m_eDataFormat,m_eDataType,nullptr);
     if(bRebindAll)
         glBindBuffer(oPBO.m_eBufferTarget,0);
@@ -307,10 +317,13 @@ void GLDynamicTexture2DArray::fetchTexture(cv::Mat& oTexture, int nLayer) {
     lvDbgAssert(oTexture.size()==m_voInitTextures[0].size() && oTexture.type()==m_voInitTextures[0].type());
     lvDbgAssert(oTexture.isContinuous());
     lvDbgAssert(nLayer>=0 && nLayer<m_nTextureCount);
-    if(glGetTextureSubImage)
+    if(glGetTextureSubImage) {
+        glPixelStorei(GL_PACK_ALIGNMENT,1); // opencv matrix rows are not padded
         glGetTextureSubImage(getTexId(),0,0,0,nLayer,(GLsizei)m_nWidth,(GLsizei)m_nHeight,1,m_eDataFormat,m_eDataType,(GLsizei)(m_voInitTextures[0].step.p[0]*m_nHeight),oTexture.data);
+    }
     else {
         glBindTexture(GL_TEXTURE_2D_ARRAY,getTexId());
+        glPixelStorei(GL_PACK_ALIGNMENT,1); // opencv matrix rows are not padded
         glGetTexImage(GL_TEXTURE_2D_ARRAY,0,m_eDataFormat,m_eDataType,m_oTextureArrayFetchBuffer.data);
         m_oTextureArrayFetchBuffer(cv::Rect(0,m_nHeight*nLayer,m_nWidth,m_nHeight)).copyTo(oTexture);
     }
@@ -322,12 +335,14 @@ void GLDynamicTexture2DArray::fetchTexture(const GLPixelBufferObject& oPBO, int
     if(glGetTextureSubImage) {
         lvDbgAssert(oPBO.size()==m_voInitTextures[0].size() && oPBO.type()==m_voInitTextures[0].type());
         glBindBuffer(oPBO.m_eBufferTarget,oPBO.getPBOId());
+        glPixelStorei(GL_PACK_ALIGNMENT,1); // opencv matrix rows are not padded
         glGetTextureSubImage(getTexId(),0,0,0,nLayer,(GLsizei)m_nWidth,(GLsizei)m_nHeight,1,m_eDataFormat,m_eDataType,(GLsizei)(m_voInitTextures[0].step.p[0]*m_nHeight),nullptr);
     }
     else {
         lvDbgAssert(oPBO.size()==m_oTextureArrayFetchBuffer.size() && oPBO.type()==m_oTextureArrayFetchBuffer.type());
         glBindTexture(GL_TEXTURE_2D_ARRAY,getTexId());
         glBindBuffer(oPBO.m_eBufferTarget,oPBO.getPBOId());
+        glPixelStorei(GL_PACK_ALIGNMENT,1); // opencv matrix rows are not padded
         glGetTexImage(GL_TEXTURE_2D_ARRAY,0,m_eDataFormat,m_eDataType,nullptr);
     }
     if(bRebindAll)
-- 
2.43.0


From 68040fd5c57809febcb80d6f34640d53f81e1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:37 +0000
Subject: [PATCH 109/125] fix: the active shader pointer dangled after its
 GLShader was destroyed

---
 modules/utils/src/opengl-shaders.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/utils/src/opengl-shaders.cpp b/modules/utils/src/opengl-shaders.cpp
index 75c1e4e..6cc558b 100644
--- a/modules/utils/src/opengl-shaders.cpp
+++ b/modules/utils/src/opengl-shaders.cpp
@@ -59,6 +59,8 @@ GLShader::GLShader(bool bFixedFunct) :
 }
 
 GLShader::~GLShader() {
+    if(s_pCurrActiveShader==this)
+        s_pCurrActiveShader = nullptr;
     if(m_nProgID!=0u) {
         while(!m_mShaderSources.empty())
             removeSource(m_mShaderSources.begin()->first);
-- 
2.43.0


From 0f4ac14b79ec86056ba78c9bd34d389c4c2e57a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:53 +0000
Subject: [PATCH 110/125] fix: shaders were attached on every link and detached
 without being attached, leaving GL errors behind

---
 modules/utils/src/opengl-shaders.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modules/utils/src/opengl-shaders.cpp b/modules/utils/src/opengl-shaders.cpp
index 6cc558b..bacae1e 100644
--- a/modules/utils/src/opengl-shaders.cpp
+++ b/modules/utils/src/opengl-shaders.cpp
@@ -77,6 +77,8 @@ GLuint GLShader::addSource(const std::string& sSource, GLenum eType) {
         const char* acSourcePtr = sSource.c_str();
         glShaderSource(shaderID,1,&acSourcePtr,nullptr);
         glErrorCheck;
+        glAttachShader(m_nProgID,shaderID);
+        glErrorCheck;
     } catch(const lv::Exception&) {
         glDeleteShader(shaderID);
         throw;
@@ -136,10 +138,6 @@ bool GLShader::link(bool bDiscardSources) {
         return false;
     if(m_bIsLinked && m_bIsEmpty)
         return true;
-    for(const auto& oShaderSrc : m_mShaderSources) {
-        glAttachShader(m_nProgID,oShaderSrc.first);
-        glErrorCheck;
-    }
     glLinkProgram(m_nProgID);
     glErrorCheck;
     m_mShaderUniformLocations.clear();
-- 
2.43.0


From cf9876573748a00e505d552d90c2c0730ee48b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:05 +0000
Subject: [PATCH 111/125] fix: the non-builtin absdiff and L2dist shader
 sources were not valid GLSL

---
 modules/utils/include/litiv/utils/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 7cde968..f2352cc 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -775,7 +775,7 @@ namespace lv {
                  "    return uvec3(abs(ivec3(a)-ivec3(b)));\n"
                  "}\n"
                  "uint absdiff(in uint a, in uint b) {\n"
-                 "    return uint(" << (bUseBuiltinDistance?"distance(a,b)":"abs((int)a-(int)b)") << ");\n"
+                 "    return uint(" << (bUseBuiltinDistance?"distance(a,b)":"abs(int(a)-int(b))") << ");\n"
                  "}\n";
         return ssSrc.str();
     }
@@ -792,7 +792,7 @@ namespace lv {
     inline std::string getShaderFunctionSource_L2dist(bool bUseBuiltinDistance) {
         std::stringstream ssSrc;
         ssSrc << "uint L2dist(in uvec3 a, in uvec3 b) {\n"
-                 "    return uint(" << (bUseBuiltinDistance?"distance(a,b)":"sqrt(dot(ivec3(a)-ivec3(b)))") << ");\n"
+                 "    return uint(" << (bUseBuiltinDistance?"distance(a,b)":"length(vec3(ivec3(a)-ivec3(b)))") << ");\n"
                  "}\n";
         return ssSrc.str();
     }
-- 
2.43.0


From 47e8d57268102c13aa1182b9cb3fdc02f91a7557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:10 +0000
Subject: [PATCH 112/125] fix: random neighbour positions in shaders were not
 clamped to the frame

---
 modules/utils/src/opengl-shaders.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/opengl-shaders.cpp b/modules/utils/src/opengl-shaders.cpp
index bacae1e..56a5902 100644
--- a/modules/utils/src/opengl-shaders.cpp
+++ b/modules/utils/src/opengl-shaders.cpp
@@ -780,9 +780,9 @@ std::string GLShader::getShaderFunctionSource_getRandNeighbor3x3(size_t nBorderS
             "    const int nFrameHeight = " << oFrameSize.height << ";\n"
             "    ivec2 vNeighborPos = vCurrPos+_avNeighborPattern3x3[nRandVal%8];\n";
     if(nBorderSize>0) ssSrc <<
-                      "    clamp(vNeighborPos,ivec2(nBorderSize),ivec2(nFrameWidth-nBorderSize-1,nFrameHeight-nBorderSize-1));\n";
+                      "    vNeighborPos = clamp(vNeighborPos,ivec2(nBorderSize),ivec2(nFrameWidth-nBorderSize-1,nFrameHeight-nBorderSize-1));\n";
     else ssSrc <<
-         "    clamp(vNeighborPos,ivec2(0),ivec2(nFrameWidth-1,nFrameHeight-1));\n";
+         "    vNeighborPos = clamp(vNeighborPos,ivec2(0),ivec2(nFrameWidth-1,nFrameHeight-1));\n";
     ssSrc << "    return vNeighborPos;\n"
             "}\n";
     return ssSrc.str();
-- 
2.43.0


From 846cb5889e8e7fbd453a275cbe998a5646afcdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:07 +0000
Subject: [PATCH 113/125] fix: the tinymt32 shader source named a struct member
 after a GLSL type

---
 modules/utils/src/opengl-shaders.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/utils/src/opengl-shaders.cpp b/modules/utils/src/opengl-shaders.cpp
index 56a5902..5eb67e8 100644
--- a/modules/utils/src/opengl-shaders.cpp
+++ b/modules/utils/src/opengl-shaders.cpp
@@ -848,8 +848,8 @@ std::string GLShader::getShaderFunctionSource_urand_tinymt32() {
     // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
     ssSrc << "struct TMT32Model {\n"
             "    uvec4 status;\n"
-            "    uint mat1;\n"
-            "    uint mat2;\n"
+            "    uint nMat1;\n"
+            "    uint nMat2;\n"
             "    uint tmat;\n"
             "    uint pad;\n"
             "};\n"
@@ -862,8 +862,8 @@ std::string GLShader::getShaderFunctionSource_urand_tinymt32() {
             "    p.status[1] = p.status[2];\n"
             "    p.status[2] = s1^(s0<<10);\n"
             "    p.status[3] = s0;\n"
-            "    p.status[1] ^= -int(s0&1)&p.mat1;\n"
-            "    p.status[2] ^= -int(s0&1)&p.mat2;\n"
+            "    p.status[1] ^= -int(s0&1)&p.nMat1;\n"
+            "    p.status[2] ^= -int(s0&1)&p.nMat2;\n"
             "    uint t0 = p.status[3];\n"
             "    uint t1 = p.status[0]+(p.status[2]>>8);\n"
             "    t0 ^= t1;\n"
-- 
2.43.0


From 201888ef123a8eaf4a2fd05d9faa3d3e9116cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:03 +0000
Subject: [PATCH 114/125] fix: shader functions took image parameters with
 layout qualifiers, which GLSL does not allow

---
 modules/features2d/src/LBSP.cpp      | 2 +-
 modules/utils/src/opengl-shaders.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/features2d/src/LBSP.cpp b/modules/features2d/src/LBSP.cpp
index 229709f..eae0585 100644
--- a/modules/features2d/src/LBSP.cpp
+++ b/modules/features2d/src/LBSP.cpp
@@ -410,7 +410,7 @@ std::string LBSP::getShaderFunctionSource(size_t nChannels, bool bUseSharedDataP
     std::stringstream ssSrc;
     // @@@@@ split lookup/threshold?
     if(!bUseSharedDataPreload) ssSrc <<
-             "uvec3 lbsp(in uvec3 t, in uvec3 ref, in layout(" << (nChannels==4?"rgba8ui":"r8ui") << ") readonly uimage2D mData, in ivec2 vCoords) {\n"
+             "uvec3 lbsp(in uvec3 t, in uvec3 ref, readonly uimage2D mData, in ivec2 vCoords) {\n"
              "    return (uvec3(greaterThan(uvec3(abs(ivec3(imageLoad(mData,vCoords+ivec2(-1, 1)).rgb)-ivec3(ref))),t)) << 15)\n"
              "         + (uvec3(greaterThan(uvec3(abs(ivec3(imageLoad(mData,vCoords+ivec2( 1,-1)).rgb)-ivec3(ref))),t)) << 14)\n"
              "         + (uvec3(greaterThan(uvec3(abs(ivec3(imageLoad(mData,vCoords+ivec2( 1, 1)).rgb)-ivec3(ref))),t)) << 13)\n"
diff --git a/modules/utils/src/opengl-shaders.cpp b/modules/utils/src/opengl-shaders.cpp
index 5eb67e8..effd591 100644
--- a/modules/utils/src/opengl-shaders.cpp
+++ b/modules/utils/src/opengl-shaders.cpp
@@ -682,7 +682,7 @@ std::string GLShader::getComputeShaderFunctionSource_SharedDataPreLoad(size_t nC
     std::stringstream ssSrc;
     ssSrc << "shared uvec4 avPreloadData[" << vWorkGroupSize.y+nExternalBorderSize*2 << "][" << vWorkGroupSize.x+nExternalBorderSize*2 << "];\n"
              "shared uint anQuadrantLockstep[4];\n"
-             "uint preload_data(in layout(" << (nChannels==4?"rgba8ui":"r8ui") << ") readonly uimage2D mData) {\n"
+             "uint preload_data(readonly uimage2D mData) {\n"
              "    ivec2 vInvocCoord = ivec2(gl_GlobalInvocationID.xy);\n";
     if(nExternalBorderSize>0) ssSrc <<
              "    const uint nExternalBorderSize = " << nExternalBorderSize << ";\n"
@@ -740,7 +740,7 @@ std::string GLShader::getComputeShaderFunctionSource_SharedDataPreLoad(size_t nC
 std::string GLShader::getComputeShaderFunctionSource_BinaryMedianBlur(size_t nKernelSize, bool bUseSharedDataPreload, const glm::uvec2& vWorkGroupSize) {
     std::stringstream ssSrc;
     if(!bUseSharedDataPreload) ssSrc <<
-             "uint BinaryMedianBlur(in layout(r8ui) readonly uimage2D mData, in ivec2 vCoords) {\n"
+             "uint BinaryMedianBlur(readonly uimage2D mData, in ivec2 vCoords) {\n"
              "    const int nKernelSize = " << nKernelSize << ";\n"
              "    const int nHalfKernelSize = nKernelSize/2;\n"
              "    uint nPositiveCount = 0;\n"
-- 
2.43.0


From 8e710419a2a15d2481f2ceff4cc87705d9313b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:32 +0000
Subject: [PATCH 115/125] fix: the GLSL evaluator counted work group padding as
 don't-care pixels

---
 modules/datasets/src/eval.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/datasets/src/eval.cpp b/modules/datasets/src/eval.cpp
index 4a749e6..bc2dd7e 100644
--- a/modules/datasets/src/eval.cpp
+++ b/modules/datasets/src/eval.cpp
@@ -310,6 +310,8 @@ std::string lv::GLBinaryClassifierEvaluator::getComputeShaderSource(size_t nStag
     ////////////////////////////////////////////////////////////////////////////////////////////////////////////////
     ssSrc <<"void main() {\n"
             "    ivec2 imgCoord = ivec2(gl_GlobalInvocationID.xy);\n"
+            "    if(any(greaterThanEqual(imgCoord,imageSize(imgROI))))\n"
+            "        return; // work group padding beyond the frame\n"
             "    uint nInputSegmVal = imageLoad(imgInput,imgCoord).r;\n"
             "    uint nGTSegmVal = imageLoad(imgGT,imgCoord).r;\n"
             "    uint nROIVal = imageLoad(imgROI,imgCoord).r;\n"
-- 
2.43.0


From c5f1d211dd8599631460120d83265738ad767af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:21 +0000
Subject: [PATCH 116/125] fix: the GLSL LOBSTER model compared the reference of
 one channel with the neighbours of another

---
 modules/video/src/BackgroundSubtractorLOBSTER.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/video/src/BackgroundSubtractorLOBSTER.cpp b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
index 6ae642e..bee7fb5 100644
--- a/modules/video/src/BackgroundSubtractorLOBSTER.cpp
+++ b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
@@ -80,9 +80,9 @@ void BackgroundSubtractorLOBSTER_GLSL::refreshModel(float fSamplesRefreshFrac, b
                             if(m_nImgChannels==1)
                                 LBSP::computeDescriptor<1>(m_oLastColorFrame,m_oLastColorFrame.data[nSampleTotOffset_color],nSampleColIdx,nSampleRowIdx,0,m_anLBSPThreshold_8bitLUT[m_oLastColorFrame.data[nSampleTotOffset_color]],*((ushort*)(m_oLastDescFrame.data+nSampleTotOffset_desc)));
                             else if(m_nImgChannels==3)
-                                LBSP::computeDescriptor<3>(m_oLastColorFrame,m_oLastColorFrame.data[nSampleTotOffset_color],nSampleColIdx,nSampleRowIdx,nChannelIdx,m_anLBSPThreshold_8bitLUT[m_oLastColorFrame.data[nSampleTotOffset_color]],*((ushort*)(m_oLastDescFrame.data+nSampleTotOffset_desc)));
+                                LBSP::computeDescriptor<3>(m_oLastColorFrame,m_oLastColorFrame.data[nSampleTotOffset_color],nSampleColIdx,nSampleRowIdx,nSampleChannelIdx,m_anLBSPThreshold_8bitLUT[m_oLastColorFrame.data[nSampleTotOffset_color]],*((ushort*)(m_oLastDescFrame.data+nSampleTotOffset_desc)));
                             else //m_nImgChannels==4
-                                LBSP::computeDescriptor<4>(m_oLastColorFrame,m_oLastColorFrame.data[nSampleTotOffset_color],nSampleColIdx,nSampleRowIdx,nChannelIdx,m_anLBSPThreshold_8bitLUT[m_oLastColorFrame.data[nSampleTotOffset_color]],*((ushort*)(m_oLastDescFrame.data+nSampleTotOffset_desc)));
+                                LBSP::computeDescriptor<4>(m_oLastColorFrame,m_oLastColorFrame.data[nSampleTotOffset_color],nSampleColIdx,nSampleRowIdx,nSampleChannelIdx,m_anLBSPThreshold_8bitLUT[m_oLastColorFrame.data[nSampleTotOffset_color]],*((ushort*)(m_oLastDescFrame.data+nSampleTotOffset_desc)));
                             m_vnBGModelData[nModelTotOffset_desc] = (uint)*(ushort*)(m_oLastDescFrame.data+nSampleTotOffset_desc);
                         }
                     }
-- 
2.43.0


From c069b0f4d1d4fba3bbef982ecc187834dff46c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:18 +0000
Subject: [PATCH 117/125] fix: refreshing a part of the GLSL LOBSTER model
 threw away what the rest had learned

---
 modules/video/src/BackgroundSubtractorLOBSTER.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/video/src/BackgroundSubtractorLOBSTER.cpp b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
index bee7fb5..0b0594b 100644
--- a/modules/video/src/BackgroundSubtractorLOBSTER.cpp
+++ b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
@@ -53,6 +53,8 @@ void BackgroundSubtractorLOBSTER_GLSL::refreshModel(float fSamplesRefreshFrac, b
     if(!bForceFGUpdate)
         getLatestForegroundMask(m_oLastFGMask);
     glBindBuffer(GL_SHADER_STORAGE_BUFFER,getSSBOId(BackgroundSubtractorLOBSTER_::LOBSTERStorageBuffer_BGModelBinding));
+    if(m_bModelInitialized) // the samples which are not refreshed below must be kept as they are on the gpu
+        glGetBufferSubData(GL_SHADER_STORAGE_BUFFER,0,m_nBGModelSize*sizeof(uint),m_vnBGModelData.data());
     for(size_t nRowIdx=0; nRowIdx<(size_t)m_oFrameSize.height; ++nRowIdx) {
         const size_t nRowOffset = nRowIdx*m_oFrameSize.height;
         const size_t nModelRowOffset = nRowIdx*m_nRowStepSize;
-- 
2.43.0


From 018889d615b5daa51352efcf3adf4233ae459502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:20 +0000
Subject: [PATCH 118/125] fix: the GLSL LOBSTER model refresh used the frame
 height as the row length of the mask

---
 modules/video/src/BackgroundSubtractorLOBSTER.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/video/src/BackgroundSubtractorLOBSTER.cpp b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
index 0b0594b..8d6126b 100644
--- a/modules/video/src/BackgroundSubtractorLOBSTER.cpp
+++ b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
@@ -56,7 +56,7 @@ void BackgroundSubtractorLOBSTER_GLSL::refreshModel(float fSamplesRefreshFrac, b
     if(m_bModelInitialized) // the samples which are not refreshed below must be kept as they are on the gpu
         glGetBufferSubData(GL_SHADER_STORAGE_BUFFER,0,m_nBGModelSize*sizeof(uint),m_vnBGModelData.data());
     for(size_t nRowIdx=0; nRowIdx<(size_t)m_oFrameSize.height; ++nRowIdx) {
-        const size_t nRowOffset = nRowIdx*m_oFrameSize.height;
+        const size_t nRowOffset = nRowIdx*m_oFrameSize.width;
         const size_t nModelRowOffset = nRowIdx*m_nRowStepSize;
         for(size_t nColIdx=0; nColIdx<(size_t)m_oFrameSize.width; ++nColIdx) {
             const size_t nColOffset = nColIdx+nRowOffset;
-- 
2.43.0


From fdef8ca3f2493e43d1dd82c2f14c4bcd04b5db46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:59 +0000
Subject: [PATCH 119/125] fix: the first foreground mask asked from a GLSL
 subtractor was not fetched from the GPU

---
 modules/video/src/BackgroundSubtractionUtils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/video/src/BackgroundSubtractionUtils.cpp b/modules/video/src/BackgroundSubtractionUtils.cpp
index 132e464..25e0dcd 100644
--- a/modules/video/src/BackgroundSubtractionUtils.cpp
+++ b/modules/video/src/BackgroundSubtractionUtils.cpp
@@ -196,6 +196,7 @@ void IBackgroundSubtractor_GLSL::apply_gl(cv::InputArray _oNextImage, bool bRebi
 }
 
 void IBackgroundSubtractor_GLSL::apply_gl(cv::InputArray oNextImage, cv::OutputArray oLastFGMask, bool bRebindAll, double dLearningRate) {
+    lvAssert_(GLImageProcAlgo::m_bFetchingOutput || GLImageProcAlgo::setOutputFetching(true),"algo not initialized with mat output support");
     apply_gl(oNextImage,bRebindAll,dLearningRate);
     getLatestForegroundMask(oLastFGMask);
 }
-- 
2.43.0


From 2b1838eddbf68b65b1b88fb16bff3b3b8ec206ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:59 +0000
Subject: [PATCH 120/125] fix: the passed-color fragment shader source was not
 valid GLSL

---
 modules/utils/src/opengl-shaders.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/src/opengl-shaders.cpp b/modules/utils/src/opengl-shaders.cpp
index effd591..bb97be6 100644
--- a/modules/utils/src/opengl-shaders.cpp
+++ b/modules/utils/src/opengl-shaders.cpp
@@ -374,7 +374,7 @@ std::string GLShader::getFragmentShaderSource_PassThrough_PassedColor() {
              "layout(location=0) out vec4 out_color;\n"
              "layout(location=" << GLVertex::VertexAttrib_ColorIdx << ") in vec4 in_color;\n"
              "void main() {\n"
-             "    out_color = in_color\n"
+             "    out_color = in_color;\n"
              "}\n";
     return ssSrc.str();
 }
-- 
2.43.0


From 4646a76151ca2a5c86c0758536ffa2134088a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:31 +0000
Subject: [PATCH 121/125] fix: integral textures asked for linear filtering and
 could not be sampled

---
 modules/utils/src/opengl-draw.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/modules/utils/src/opengl-draw.cpp b/modules/utils/src/opengl-draw.cpp
index 213d633..8ee6974 100644
--- a/modules/utils/src/opengl-draw.cpp
+++ b/modules/utils/src/opengl-draw.cpp
@@ -105,8 +105,9 @@ GLTexture2D::GLTexture2D( GLsizei nLevels, GLenum eInternalFormat, GLsizei nWidt
         glTexParameteri(GL_TEXTURE_2D,GL_TEXTURE_MIN_FILTER,GL_LINEAR_MIPMAP_LINEAR);
     }
     else {
-        glTexParameteri(GL_TEXTURE_2D,GL_TEXTURE_MAG_FILTER,GL_LINEAR);
-        glTexParameteri(GL_TEXTURE_2D,GL_TEXTURE_MIN_FILTER,GL_LINEAR);
+        const GLint nFilter = lv::gl::isInternalFormatIntegral(m_eInternalFormat)?GL_NEAREST:GL_LINEAR; // integral textures cannot be interpolated
+        glTexParameteri(GL_TEXTURE_2D,GL_TEXTURE_MAG_FILTER,nFilter);
+        glTexParameteri(GL_TEXTURE_2D,GL_TEXTURE_MIN_FILTER,nFilter);
     }
     glErrorCheck;
 }
@@ -134,8 +135,9 @@ GLTexture2D::GLTexture2D(GLsizei nLevels, const cv::Mat& oTexture, bool bUseInte
         glTexParameteri(GL_TEXTURE_2D,GL_TEXTURE_MIN_FILTER,GL_LINEAR_MIPMAP_LINEAR);
     }
     else {
-        glTexParameteri(GL_TEXTURE_2D,GL_TEXTURE_MAG_FILTER,GL_LINEAR);
-        glTexParameteri(GL_TEXTURE_2D,GL_TEXTURE_MIN_FILTER,GL_LINEAR);
+        const GLint nFilter = lv::gl::isInternalFormatIntegral(m_eInternalFormat)?GL_NEAREST:GL_LINEAR; // integral textures cannot be interpolated
+        glTexParameteri(GL_TEXTURE_2D,GL_TEXTURE_MAG_FILTER,nFilter);
+        glTexParameteri(GL_TEXTURE_2D,GL_TEXTURE_MIN_FILTER,nFilter);
     }
     glErrorCheck;
 }
@@ -175,8 +177,9 @@ GLTexture2DArray::GLTexture2DArray( GLsizei nTextureCount, GLsizei nLevels, GLen
         glTexParameteri(GL_TEXTURE_2D_ARRAY,GL_TEXTURE_MIN_FILTER,GL_LINEAR_MIPMAP_LINEAR);
     }
     else {
-        glTexParameteri(GL_TEXTURE_2D_ARRAY,GL_TEXTURE_MAG_FILTER,GL_LINEAR);
-        glTexParameteri(GL_TEXTURE_2D_ARRAY,GL_TEXTURE_MIN_FILTER,GL_LINEAR);
+        const GLint nFilter = lv::gl::isInternalFormatIntegral(m_eInternalFormat)?GL_NEAREST:GL_LINEAR; // integral textures cannot be interpolated
+        glTexParameteri(GL_TEXTURE_2D_ARRAY,GL_TEXTURE_MAG_FILTER,nFilter);
+        glTexParameteri(GL_TEXTURE_2D_ARRAY,GL_TEXTURE_MIN_FILTER,nFilter);
     }
     glErrorCheck;
 }
@@ -208,8 +211,9 @@ GLTexture2DArray::GLTexture2DArray(GLsizei nLevels, const std::vector<cv::Mat>&
         glTexParameteri(GL_TEXTURE_2D_ARRAY,GL_TEXTURE_MIN_FILTER,GL_LINEAR_MIPMAP_LINEAR);
     }
     else {
-        glTexParameteri(GL_TEXTURE_2D_ARRAY,GL_TEXTURE_MAG_FILTER,GL_LINEAR);
-        glTexParameteri(GL_TEXTURE_2D_ARRAY,GL_TEXTURE_MIN_FILTER,GL_LINEAR);
+        const GLint nFilter = lv::gl::isInternalFormatIntegral(m_eInternalFormat)?GL_NEAREST:GL_LINEAR; // integral textures cannot be interpolated
+        glTexParameteri(GL_TEXTURE_2D_ARRAY,GL_TEXTURE_MAG_FILTER,nFilter);
+        glTexParameteri(GL_TEXTURE_2D_ARRAY,GL_TEXTURE_MIN_FILTER,nFilter);
     }
     glErrorCheck;
 }
-- 
2.43.0


From d1e8fb8a9c415640aa6c0952d7061e13bfcaae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:10 +0000
Subject: [PATCH 122/125] fix: the display of the OpenGL pipeline showed
 whatever texture was last bound where the input belongs

---
 modules/utils/src/opengl-imgproc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/utils/src/opengl-imgproc.cpp b/modules/utils/src/opengl-imgproc.cpp
index 3df129d..f1b0b2d 100644
--- a/modules/utils/src/opengl-imgproc.cpp
+++ b/modules/utils/src/opengl-imgproc.cpp
@@ -350,6 +350,12 @@ void GLImageProcAlgo::apply_gl(const cv::Mat& oNextInput, bool bRebindAll) {
             else
                 m_vpOutputArray[m_nCurrLayer]->bindToSampler((GLuint)getTextureBinding(m_nCurrLayer,GLImageProcAlgo::Texture_OutputBinding));
         }
+        if(m_bUsingInput) {
+            if(m_bUsingTexArrays)
+                m_pInputArray->bindToSamplerArray(GLImageProcAlgo::Texture_InputBinding);
+            else
+                m_vpInputArray[m_nCurrLayer]->bindToSampler((GLuint)getTextureBinding(m_nCurrLayer,GLImageProcAlgo::Texture_InputBinding));
+        }
         if(m_bUsingTimers)
             glBeginQuery(GL_TIME_ELAPSED,m_nGLTimers[GLImageProcAlgo::GLTimer_DisplayUpdate]);
         lvAssert(m_oDisplayShader.activate());
-- 
2.43.0


From 786242c5bc10db961fa02aadb768d8e228ddb4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:52 +0000
Subject: [PATCH 123/125] fix: scale colored disparity error maps from zero to
 the max error

The normalization was stretching the range found in the map instead, so
maps without any zero (e.g. no valid pixel without error) were shown with
errors which are too small, down to none at all if every pixel is wrong.
---
 modules/datasets/src/metrics.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/modules/datasets/src/metrics.cpp b/modules/datasets/src/metrics.cpp
index 472f424..8b27461 100644
--- a/modules/datasets/src/metrics.cpp
+++ b/modules/datasets/src/metrics.cpp
@@ -213,11 +213,8 @@ cv::Mat lv::StereoDispErrors::getColoredMask(const cv::Mat& _oDispMap, const cv:
                 oErrorMap(nRowIdx,nColIdx) = 0.0f;
         }
     }
-    const float fOldErrorMapCornerVal = oErrorMap(0,0);
-    oErrorMap(0,0) = fMaxError;
     cv::Mat oOutput;
-    cv::normalize(oErrorMap,oOutput,255,0,cv::NORM_MINMAX,CV_8U);
-    oOutput.at<uchar>(0,0) = uchar((fOldErrorMapCornerVal/fMaxError)*255);
+    oErrorMap.convertTo(oOutput,CV_8U,255.0/fMaxError);
     cv::dilate(oOutput,oOutput,cv::Mat(),cv::Point(-1,-1),2);
     cv::applyColorMap(oOutput,oOutput,cv::COLORMAP_HOT);
     if(!oROI.empty())
-- 
2.43.0


From ac71ee09d28ffb05b062f5eeef070bf6edff4d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:52 +0000
Subject: [PATCH 124/125] fix: report output packets that could not be saved

---
 modules/datasets/src/utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index d0a0f37..b801a9d 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1534,7 +1534,7 @@ void lv::IDataArchiver_<lv::NotArray>::saveOutput(const cv::Mat& _oOutput, size_
         }
         const std::vector<int> vnComprParams = {cv::IMWRITE_PNG_COMPRESSION,9};
         sOutputFilePath << ".png";
-        cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams);
+        lvAssert__(cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams),"could not save output packet at '%s'",sOutputFilePath.str().c_str());
     }
     else {
         sOutputFilePath << ".bin";
@@ -1611,7 +1611,7 @@ void lv::IDataArchiver_<lv::Array>::saveOutputArray(const std::vector<cv::Mat>&
             }
             const std::vector<int> vnComprParams = {cv::IMWRITE_PNG_COMPRESSION,9};
             sOutputFilePath << ".png";
-            cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams);
+            lvAssert__(cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams),"could not save output packet at '%s'",sOutputFilePath.str().c_str());
         }
         else {
             sOutputFilePath << ".bin";
@@ -1638,7 +1638,7 @@ void lv::IDataArchiver_<lv::Array>::saveOutputArray(const std::vector<cv::Mat>&
                 }
                 const std::vector<int> vnComprParams = {cv::IMWRITE_PNG_COMPRESSION,9};
                 sOutputFilePath << ".png";
-                cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams);
+                lvAssert__(cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams),"could not save output packet at '%s'",sOutputFilePath.str().c_str());
             }
             else {
                 sOutputFilePath << ".bin";
-- 
2.43.0


From f88648feb3ea7ecdf59c5ff61b9c123aa1f62a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:31 +0000
Subject: [PATCH 125/125] fix: masked median filters read already filtered
 values when called in place

---
 modules/imgproc/src/imgproc.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 8bc1369..e278270 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -212,6 +212,7 @@ void lv::medianBlur(const cv::Mat& oInput, cv::Mat& oOutput, const cv::Mat_<ucha
     }
     if(oOutput.empty())
         oOutput.create(oInput.size(),CV_8UC1);
+    const cv::Mat oSource = (oOutput.data==oInput.data)?oInput.clone():oInput; // in-place calls must not read filtered values
     const int nOffset=nKernelSize/2, nRows=oInput.rows, nCols=oInput.cols;
 #if USING_OPENMP
 #pragma omp parallel for
@@ -225,7 +226,7 @@ void lv::medianBlur(const cv::Mat& oInput, cv::Mat& oOutput, const cv::Mat_<ucha
                 for(int nOffsetColIdx=std::max(nColIdx-nOffset,0); nOffsetColIdx<=std::min(nColIdx+nOffset,nCols-1); ++nOffsetColIdx) {
                     const size_t nOffsetPxIdx = size_t(nOffsetRowIdx*nCols+nOffsetColIdx);
                     if(oMask.data[nOffsetPxIdx])
-                        aKernelBuffer[nKernelHits++] = oInput.data[nOffsetPxIdx];
+                        aKernelBuffer[nKernelHits++] = oSource.data[nOffsetPxIdx];
                 }
             }
             const int nPxIdx = nRowIdx*nCols+nColIdx;
@@ -274,6 +275,7 @@ void lv::binaryMedianBlur(const cv::Mat& oInput, cv::Mat& oOutput, const cv::Mat
         }
     }
     else {
+        const cv::Mat oSource = (oOutput.data==oInput.data)?oInput.clone():oInput; // in-place calls must not read filtered values
     #if USING_OPENMP
     #ifdef _MSC_VER
     #pragma omp parallel for // msvc only supports openmp 2.0
@@ -289,7 +291,7 @@ void lv::binaryMedianBlur(const cv::Mat& oInput, cv::Mat& oOutput, const cv::Mat
                         const int nOffsetPxIdx = nOffsetRowIdx*nCols+nOffsetColIdx;
                         if(oMask.data[nOffsetPxIdx]) {
                             ++nKernelHits;
-                            if(oInput.data[nOffsetPxIdx])
+                            if(oSource.data[nOffsetPxIdx])
                                 ++nPositiveHits;
                         }
                     }
-- 
2.43.0

