From e0a424745ede971303e966f460d8f817cd3725ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 01/33] fix: do not lose the shutdown wakeup of an idle
 ThreadWorker

The destructor set the stop flag without holding the mutex, so a worker
between evaluating its wait predicate and going to sleep missed the
notification and join() never returned.
---
 c/misc.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/misc.hpp b/c/misc.hpp
index 2fbe004..0386e5e 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -75,7 +75,10 @@ public:
     {}
 
     ~ThreadWorker() {
-        stop = true;
+        {
+            std::lock_guard<std::mutex> lock(mutex);
+            stop = true;
+        }
         occupied.notify_one();
 
         thread.join();
-- 
2.43.0


From 0663e34fba708bef5a69cc8453732587f2855281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 02/33] fix: do not overwrite a pending task when callers share
 a pool

submit() replaced a task the worker had not picked up yet, silently
dropping another caller's share. Wait for the slot to be free.
---
 c/misc.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/misc.hpp b/c/misc.hpp
index 0386e5e..999ce0b 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -64,7 +64,7 @@ class ThreadWorker
                 task();
                 task = nullptr;
             }
-            finished.notify_one();
+            finished.notify_all();
         }
     }
 
@@ -87,7 +87,9 @@ public:
     template<typename Func>
     void submit(Func func) {
         {
-            std::lock_guard<std::mutex> lock(mutex);
+            std::unique_lock<std::mutex> lock(mutex);
+
+            finished.wait(lock, [this]{return task == nullptr;});
             task = func;
         }
         occupied.notify_one();
-- 
2.43.0


From b6a647b6c58e6043e206597469a07167eae3e30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 03/33] fix: parallelFor over an empty range does nothing

It tripped divideWork's assertion; FFT::ifft calls it with an empty range
for sizes 1 and 2.
---
 c/misc.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/misc.hpp b/c/misc.hpp
index 999ce0b..0d40143 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -152,6 +152,11 @@ public:
     void parallelFor(int begin, int end, Func&& func) {
 
         const int  elementCount = end - begin;
+
+        if (elementCount <= 0) {
+            return;
+        }
+
         const auto jobs = divideWork(elementCount, nThreads);
         int jobBegin = begin;
         int k = 0;
-- 
2.43.0


From 3ab3f188986c8b6f26b1c8ccfff60c8000bc33a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 04/33] fix: wait for submitted shares before a parallel call
 throws

When handing out a share or the caller's own share threw, the call left
while workers still used the captured references of the dead frame.
---
 c/misc.hpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/c/misc.hpp b/c/misc.hpp
index 0d40143..fc99b59 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -106,6 +106,12 @@ class ThreadPool {
     unsigned int nThreads;
     std::vector<ThreadWorker> workers;
 
+    void waitWorkers(int count) {
+        for (int k = 0; k < count; k++) {
+            workers[k].wait();
+        }
+    }
+
 public:
     ThreadPool(unsigned int _nThreads = 0) :
         nThreads(_nThreads==0 ? defaultThreadCount() : _nThreads),
@@ -161,11 +167,16 @@ public:
         int jobBegin = begin;
         int k = 0;
 
-        for (; k < jobs.size() - 1; jobBegin += jobs[k++]) {
-            workers[k].submit([=]{func(jobBegin, jobBegin + jobs[k], k);});
-        }
+        try {
+            for (; k < jobs.size() - 1; jobBegin += jobs[k++]) {
+                workers[k].submit([=]{func(jobBegin, jobBegin + jobs[k], k);});
+            }
 
-        func(jobBegin, jobBegin + jobs[k], k);
+            func(jobBegin, jobBegin + jobs[k], k);
+        } catch (...) {
+            waitWorkers(k);
+            throw;
+        }
 
         for (k = 0; k < jobs.size() - 1; k++) {
             workers[k].wait();
@@ -176,11 +187,16 @@ public:
     void parallelBlock(Func&& func) {
         int  k = 0;
 
-        for (; k < nThreads - 1; k++) {
-            workers[k].submit([=]{func(k, nThreads);});
-        }
+        try {
+            for (; k < nThreads - 1; k++) {
+                workers[k].submit([=]{func(k, nThreads);});
+            }
 
-        func(k, nThreads);
+            func(k, nThreads);
+        } catch (...) {
+            waitWorkers(k);
+            throw;
+        }
 
         for (k = 0; k < nThreads - 1; k++) {
             workers[k].wait();
-- 
2.43.0


From 533fd4a098e10247756d9273a18e23c43a7fbabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 05/33] fix: FFT: do not rewrite the first roots while other
 threads read them

With few roots per thread the share of a worker could start at index 0 or 1,
writing roots[1] while the other workers use it as the base of their powers.
---
 c/fft.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/fft.cpp b/c/fft.cpp
index 9411fb8..f4e43a1 100644
--- a/c/fft.cpp
+++ b/c/fft.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+#include <memory>
 #include <thread>
 #include <vector>
 #include "misc.hpp"
@@ -91,7 +93,8 @@ FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
     threadPool.parallelBlock([&] (int idThread, int nThreads) {
 
         uint64_t increment = nRoots / nThreads;
-        uint64_t start = idThread==0 ? 2 : idThread * increment;
+        // roots[0] and roots[1] are already set and read by all the threads
+        uint64_t start = std::max<uint64_t>(2, idThread * increment);
         uint64_t end   = idThread==nThreads-1 ? nRoots : (idThread+1) * increment;
         if (end>start) {
             f.exp(roots[start], roots[1], (uint8_t *)(&start), sizeof(start));
-- 
2.43.0


From f03aad45486281e739a3dcd60ba9e3ed96463eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 06/33] fix: FFT: release everything when the constructor fails

The big integers leaked when the domain is refused, and both tables leaked when
a later allocation fails.
---
 c/fft.cpp | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/c/fft.cpp b/c/fft.cpp
index f4e43a1..09d3fed 100644
--- a/c/fft.cpp
+++ b/c/fft.cpp
@@ -70,24 +70,39 @@ FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
         s++;
     }
 
-    if (s<domainPow) {
+    const bool domainTooBig = s<domainPow;
+    Element firstRoot;
+    Element twoInv;
+
+    mpz_powm(m_aux, m_nqr, m_aux, m_q);
+    f.fromMpz(firstRoot, m_aux);
+
+    mpz_set_ui(m_aux, 2);
+    mpz_invert(m_aux, m_aux, m_q);
+    f.fromMpz(twoInv, m_aux);
+
+    mpz_clear(m_qm1d2);
+    mpz_clear(m_q);
+    mpz_clear(m_nqr);
+    mpz_clear(m_aux);
+
+    if (domainTooBig) {
         throw std::range_error("Domain size too big for the curve");
     }
 
     uint64_t nRoots = 1LL << s;
 
-    roots = new Element[nRoots];
-    powTwoInv = new Element[s+1];
+    std::unique_ptr<Element[]> rootsOwner(new Element[nRoots]);
+    std::unique_ptr<Element[]> powTwoInvOwner(new Element[s+1]);
+
+    roots = rootsOwner.get();
+    powTwoInv = powTwoInvOwner.get();
 
     f.copy(roots[0], f.one());
     f.copy(powTwoInv[0], f.one());
     if (nRoots>1) {
-        mpz_powm(m_aux, m_nqr, m_aux, m_q);
-        f.fromMpz(roots[1], m_aux);
-
-        mpz_set_ui(m_aux, 2);
-        mpz_invert(m_aux, m_aux, m_q);
-        f.fromMpz(powTwoInv[1], m_aux);
+        f.copy(roots[1], firstRoot);
+        f.copy(powTwoInv[1], twoInv);
     }
 
     threadPool.parallelBlock([&] (int idThread, int nThreads) {
@@ -111,10 +126,8 @@ FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
         f.mul(powTwoInv[i], powTwoInv[i-1], powTwoInv[1]);
     }
 
-    mpz_clear(m_qm1d2);
-    mpz_clear(m_q);
-    mpz_clear(m_nqr);
-    mpz_clear(m_aux);
+    rootsOwner.release();
+    powTwoInvOwner.release();
 }
 
 template <typename Field>
-- 
2.43.0


From e7aa91a15f1fc3a4c2f3e621701af2b5bad3315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 07/33] fix: MSM: keep the carry out of the top digit and do
 not read past short scalars

The signed digit decomposition lost the last carry when the window width divides
the scalar length, and scalars shorter than 8 bytes were read out of bounds.
---
 c/msm.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/c/msm.hpp b/c/msm.hpp
index bdfdb69..3c8a760 100644
--- a/c/msm.hpp
+++ b/c/msm.hpp
@@ -2,6 +2,7 @@
 #define MSM_HPP
 
 #include <cstdint>
+#include <cstring>
 
 template <typename Curve, typename BaseField>
 class MSM {
@@ -35,7 +36,8 @@ private:
     }
 
     uint64_t calcChunkCount(uint64_t scalarSize, uint64_t bitsPerChunk) const {
-        return ((scalarSize * 8 - 1 ) / bitsPerChunk) + 1;
+        // The digits are signed: the top one needs room for the carry of the ones below.
+        return ((scalarSize * 8 + 1 ) / bitsPerChunk) + 1;
     }
 
     uint64_t calcBucketCount(uint64_t bitsPerChunk) const {
@@ -47,11 +49,13 @@ private:
         uint64_t byteStart = bitStart/8;
         uint64_t efectiveBitsPerChunk = bitsPerChunk;
 
-        if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
+        if (bitStart >= scalarSize*8) return 0;
+        if (byteStart + 8 > scalarSize) byteStart = scalarSize > 8 ? scalarSize - 8 : 0;
         if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;
 
         uint64_t shift = bitStart - byteStart*8;
-        uint64_t v = *(uint64_t *)(scalars + scalarIdx*scalarSize + byteStart);
+        uint64_t v = 0;
+        std::memcpy(&v, scalars + scalarIdx*scalarSize + byteStart, scalarSize < 8 ? scalarSize : 8);
 
         v = v >> shift;
         v = v & ( ((uint64_t)1 << efectiveBitsPerChunk) - 1);
-- 
2.43.0


From b6ad05617e550e9c4e43297906f44429c4e1251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 08/33] fix: multiexp: do not read past scalars shorter than 8
 bytes

---
 c/multiexp.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/multiexp.cpp b/c/multiexp.cpp
index 4db20f2..4732181 100644
--- a/c/multiexp.cpp
+++ b/c/multiexp.cpp
@@ -2,6 +2,7 @@
 #include <omp.h>
 #endif
 #include <memory.h>
+#include <memory>
 #include "misc.hpp"
 #include "multiexp.hpp"
 /*
@@ -27,10 +28,11 @@ uint64_t ParallelMultiexp<Curve>::getChunk(uint64_t scalarIdx, uint64_t chunkIdx
     uint64_t bitStart = chunkIdx*bitsPerChunk;
     uint64_t byteStart = bitStart/8;
     uint64_t efectiveBitsPerChunk = bitsPerChunk;
-    if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
+    if (byteStart + 8 > scalarSize) byteStart = scalarSize > 8 ? scalarSize - 8 : 0;
     if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;
     uint64_t shift = bitStart - byteStart*8;
-    uint64_t v = *(uint64_t *)(scalars + scalarIdx*scalarSize + byteStart);
+    uint64_t v = 0;
+    memcpy(&v, scalars + scalarIdx*scalarSize + byteStart, scalarSize < 8 ? scalarSize : 8);
     v = v >> shift;
     v = v & ( (1 << efectiveBitsPerChunk) - 1);
     return uint64_t(v);
-- 
2.43.0


From 746553c32333f61e072c051b9ffbb262d77e846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 09/33] fix: grouped multiexp: a class of length 0 has no
 elements

The length wrapped around, so that all its elements were added, and the path for
one element ignored the lengths altogether.
---
 c/multiexp.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/c/multiexp.cpp b/c/multiexp.cpp
index 4732181..a04890f 100644
--- a/c/multiexp.cpp
+++ b/c/multiexp.cpp
@@ -61,9 +61,7 @@ template <typename Curve>
 void ParallelMultiexp<Curve>::processChunk(uint64_t idChunk, uint64_t nX, uint64_t size[]) {
     #pragma omp parallel for
     for(uint64_t i=0; i<n; i++) {
-        uint mod = i % nX;
-        uint len = size[mod] - 1;
-        if (i < 0 || i > len * nX + mod) continue;
+        if (i / nX >= size[i % nX]) continue;
         if (g.isZero(bases[i])) continue;
 #ifdef _OPENMP
         int idThread = omp_get_thread_num();
@@ -211,7 +209,11 @@ void ParallelMultiexp<Curve>::multiexp(typename Curve::Point &r,
         return;
     }
     if (n == 1) {
-        g.mulByScalar(r, bases[0], scalars, scalarSize);
+        if (x[0] == 0) {
+            g.copy(r, g.zero());
+        } else {
+            g.mulByScalar(r, bases[0], scalars, scalarSize);
+        }
         return;
     }
     bitsPerChunk = log2((uint32_t)(n / PME2_PACK_FACTOR));
-- 
2.43.0


From 56f41e661050aef515c05c4487ff782ab174bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 10/33] fix: multiexp: release the accumulators when an
 allocation fails

---
 c/multiexp.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/c/multiexp.cpp b/c/multiexp.cpp
index a04890f..3371cd4 100644
--- a/c/multiexp.cpp
+++ b/c/multiexp.cpp
@@ -100,8 +100,8 @@ void ParallelMultiexp<Curve>::reduce(typename Curve::Point &res, uint64_t nBits)
     uint64_t ndiv2 = 1 << (nBits-1);
 
 
-    PaddedPoint *sall = new PaddedPoint[nThreads];
-    memset(sall, 0, sizeof(PaddedPoint)*nThreads);
+    std::unique_ptr<PaddedPoint[]> sall(new PaddedPoint[nThreads]);
+    memset((void *)sall.get(), 0, sizeof(PaddedPoint)*nThreads);
 
     #pragma omp parallel for
     for (uint64_t i = 1; i<ndiv2; i++) {
@@ -126,7 +126,6 @@ void ParallelMultiexp<Curve>::reduce(typename Curve::Point &res, uint64_t nBits)
     for (u_int32_t i=0; i<nBits-1; i++) g.dbl(accs[ndiv2].p, accs[ndiv2].p);
     g.add(res, p1, accs[ndiv2].p);
     g.copy(accs[ndiv2].p, g.zero());
-    delete[] sall;
 }
 
 template <typename Curve>
@@ -158,8 +157,9 @@ void ParallelMultiexp<Curve>::multiexp(typename Curve::Point &r, typename Curve:
     nChunks = ((scalarSize*8 - 1 ) / bitsPerChunk)+1;
     accsPerChunk = 1 << bitsPerChunk;  // In the chunks last bit is always zero.
 
-    typename Curve::Point *chunkResults = new typename Curve::Point[nChunks];
-    accs = new PaddedPoint[nThreads*accsPerChunk];
+    std::unique_ptr<typename Curve::Point[]> chunkResults(new typename Curve::Point[nChunks]);
+    std::unique_ptr<PaddedPoint[]> accsOwner(new PaddedPoint[nThreads*accsPerChunk]);
+    accs = accsOwner.get();
     // std::cout << "InitTrees " << "\n";
     initAccs();
 
@@ -173,15 +173,13 @@ void ParallelMultiexp<Curve>::multiexp(typename Curve::Point &r, typename Curve:
         reduce(chunkResults[i], bitsPerChunk);
     }
 
-    delete[] accs;
+    accsOwner.reset();
 
     g.copy(r, chunkResults[nChunks-1]);
     for  (int j=nChunks-2; j>=0; j--) {
         for (uint64_t k=0; k<bitsPerChunk; k++) g.dbl(r,r);
         g.add(r, r, chunkResults[j]);
     }
-
-    delete[] chunkResults;
 }
 
 template <typename Curve>
@@ -222,8 +220,9 @@ void ParallelMultiexp<Curve>::multiexp(typename Curve::Point &r,
     nChunks = ((scalarSize * 8 - 1) / bitsPerChunk) + 1;
     accsPerChunk = 1 << bitsPerChunk;  // In the chunks last bit is always zero.
 
-    typename Curve::Point *chunkResults = new typename Curve::Point[nChunks];
-    accs = new PaddedPoint[nThreads * accsPerChunk];
+    std::unique_ptr<typename Curve::Point[]> chunkResults(new typename Curve::Point[nChunks]);
+    std::unique_ptr<PaddedPoint[]> accsOwner(new PaddedPoint[nThreads * accsPerChunk]);
+    accs = accsOwner.get();
     // std::cout << "InitTrees " << "\n";
     initAccs();
     for (uint64_t i = 0; i < nChunks; i++) {
@@ -235,13 +234,11 @@ void ParallelMultiexp<Curve>::multiexp(typename Curve::Point &r,
         reduce(chunkResults[i], bitsPerChunk);
     }
 
-    delete[] accs;
+    accsOwner.reset();
 
     g.copy(r, chunkResults[nChunks - 1]);
     for (int j = nChunks - 2; j >= 0; j--) {
         for (uint64_t k = 0; k < bitsPerChunk; k++) g.dbl(r, r);
         g.add(r, r, chunkResults[j]);
     }
-
-    delete[] chunkResults;
 }
-- 
2.43.0


From b0440163cd6180ac70c09462525a0386da784343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 11/33] fix: BinFile: refuse truncated or hostile containers,
 and clean up when opening fails

Lengths are checked against the container before they are used, in the section
table and in reads. A failed fstat, mmap or malloc is reported, and a failed
attempt releases its copy, its mapping and its descriptor.
---
 c/binfile_utils.cpp | 106 ++++++++++++++++++++++++++------------------
 c/binfile_utils.hpp |   3 ++
 2 files changed, 67 insertions(+), 42 deletions(-)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 408dd38..9cee4ea 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -6,6 +6,8 @@
 #include <string>
 #include <memory.h>
 #include <stdexcept>
+#include <memory>
+#include <new>
 
 #include "binfile_utils.hpp"
 #include "thread_utils.hpp"
@@ -13,48 +15,23 @@
 
 namespace BinFileUtils
 {
-    BinFile::BinFile(void *data, uint64_t size, std::string _type, uint32_t maxVersion)
+    BinFile::BinFile(void *data, uint64_t _size, std::string _type, uint32_t maxVersion)
+        : addr(NULL), size(_size), pos(0), readingSection(NULL)
     {
-        addr = malloc(size);
+        std::unique_ptr<void, void (*)(void *)> copy(malloc(size), free);
+        if (copy == NULL)
+            throw std::bad_alloc();
+
+        addr = copy.get();
         int nThreads = omp_get_max_threads() / 2;
         ThreadUtils::parcpy(addr, data, size, nThreads);
 
-        type.assign((const char *)addr, 4);
-        pos = 4;
-
-        if (type != _type)
-        {
-            throw new std::invalid_argument("Invalid file type. It should be " + _type + " and it is " + type);
-        }
-
-        version = readU32LE();
-        if (version > maxVersion)
-        {
-            throw new std::invalid_argument("Invalid version. It should be <=" + std::to_string(maxVersion) + " and it us " + std::to_string(version));
-        }
-
-        u_int32_t nSections = readU32LE();
-
-        for (u_int32_t i = 0; i < nSections; i++)
-        {
-            u_int32_t sType = readU32LE();
-            u_int64_t sSize = readU64LE();
-
-            if (sections.find(sType) == sections.end())
-            {
-                sections.insert(std::make_pair(sType, std::vector<Section>()));
-            }
-
-            sections[sType].push_back(Section((void *)((u_int64_t)addr + pos), sSize));
-
-            pos += sSize;
-        }
-
-        pos = 0;
-        readingSection = NULL;
+        readHeader(_type, maxVersion);
+        copy.release();
     }
 
     BinFile::BinFile(std::string fileName, std::string _type, uint32_t maxVersion)
+        : addr(NULL), size(0), pos(0), readingSection(NULL)
     {
 
         int fd;
@@ -65,25 +42,51 @@ namespace BinFileUtils
             throw std::system_error(errno, std::generic_category(), "open");
 
         if (fstat(fd, &sb) == -1) /* To obtain file size */
-            throw std::system_error(errno, std::generic_category(), "fstat");
+        {
+            int error = errno;
+            close(fd);
+            throw std::system_error(error, std::generic_category(), "fstat");
+        }
 
         size = sb.st_size;
         void *addrmm = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE | MAP_POPULATE, fd, 0);
-        addr = malloc(sb.st_size);
+        int mmapError = errno;
+        close(fd);
+        if (addrmm == MAP_FAILED)
+            throw std::system_error(mmapError, std::generic_category(), "mmap");
 
-        int nThreads = omp_get_max_threads() / 2;
-        ThreadUtils::parcpy(addr, addrmm, sb.st_size, nThreads);
-        //    memcpy(addr, addrmm, sb.st_size);
+        std::unique_ptr<void, void (*)(void *)> copy(malloc(sb.st_size), free);
+        try
+        {
+            if (copy == NULL)
+                throw std::bad_alloc();
+
+            addr = copy.get();
+            int nThreads = omp_get_max_threads() / 2;
+            ThreadUtils::parcpy(addr, addrmm, sb.st_size, nThreads);
+            //    memcpy(addr, addrmm, sb.st_size);
+        }
+        catch (...)
+        {
+            munmap(addrmm, sb.st_size);
+            throw;
+        }
 
         munmap(addrmm, sb.st_size);
-        close(fd);
 
+        readHeader(_type, maxVersion);
+        copy.release();
+    }
+
+    void BinFile::readHeader(std::string _type, uint32_t maxVersion)
+    {
+        checkAvailable(4);
         type.assign((const char *)addr, 4);
         pos = 4;
 
         if (type != _type)
         {
-            throw new std::invalid_argument("Invalid file type. It should be " + _type + " and it us " + type);
+            throw new std::invalid_argument("Invalid file type. It should be " + _type + " and it is " + type);
         }
 
         version = readU32LE();
@@ -99,6 +102,8 @@ namespace BinFileUtils
             u_int32_t sType = readU32LE();
             u_int64_t sSize = readU64LE();
 
+            checkAvailable(sSize);
+
             if (sections.find(sType) == sections.end())
             {
                 sections.insert(std::make_pair(sType, std::vector<Section>()));
@@ -113,6 +118,20 @@ namespace BinFileUtils
         readingSection = NULL;
     }
 
+    void BinFile::checkAvailable(u_int64_t len)
+    {
+        u_int64_t end = size;
+        if (readingSection != NULL)
+        {
+            end = (u_int64_t)(readingSection->start) - (u_int64_t)addr + readingSection->size;
+        }
+
+        if (len > end - pos)
+        {
+            throw new std::range_error("Reading past the end of the " + std::string(readingSection != NULL ? "section" : "file"));
+        }
+    }
+
     BinFile::~BinFile()
     {
         free(addr);
@@ -187,6 +206,7 @@ namespace BinFileUtils
 
     u_int32_t BinFile::readU32LE()
     {
+        checkAvailable(4);
         u_int32_t res = *((u_int32_t *)((u_int64_t)addr + pos));
         pos += 4;
         return res;
@@ -194,6 +214,7 @@ namespace BinFileUtils
 
     u_int64_t BinFile::readU64LE()
     {
+        checkAvailable(8);
         u_int64_t res = *((u_int64_t *)((u_int64_t)addr + pos));
         pos += 8;
         return res;
@@ -201,6 +222,7 @@ namespace BinFileUtils
 
     void *BinFile::read(u_int64_t len)
     {
+        checkAvailable(len);
         void *res = (void *)((u_int64_t)addr + pos);
         pos += len;
         return res;
diff --git a/c/binfile_utils.hpp b/c/binfile_utils.hpp
index a8d6de9..8e18adf 100644
--- a/c/binfile_utils.hpp
+++ b/c/binfile_utils.hpp
@@ -31,6 +31,9 @@ namespace BinFileUtils
 
         Section *readingSection;
 
+        void readHeader(std::string type, uint32_t maxVersion);
+        void checkAvailable(u_int64_t len);
+
     public:
         BinFile(void *data, uint64_t size, std::string type, uint32_t maxVersion);
         BinFile(std::string fileName, std::string type, uint32_t maxVersion);
-- 
2.43.0


From 390a76ccaed9e0df71e4dc69055da84471a53521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 12/33] fix: header loaders: fail cleanly on damaged headers

A failed load released neither the header nor the section it was reading, and
cleared big integers that had not been initialised. Sizes of the key's points
are computed without wrapping.
---
 c/wtns_utils.cpp | 21 +++++++++-------
 c/zkey_utils.cpp | 62 ++++++++++++++++++++++++++++--------------------
 2 files changed, 49 insertions(+), 34 deletions(-)

diff --git a/c/wtns_utils.cpp b/c/wtns_utils.cpp
index 2301c3a..0e933a1 100644
--- a/c/wtns_utils.cpp
+++ b/c/wtns_utils.cpp
@@ -3,6 +3,7 @@
 namespace WtnsUtils {
 
 Header::Header() {
+    mpz_init(prime);
 }
 
 Header::~Header() {
@@ -10,18 +11,22 @@ Header::~Header() {
 }
 
 std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
-    Header *h = new Header();
+    std::unique_ptr<Header> h(new Header());
     f->startReadSection(1);
 
-    h->n8 = f->readU32LE();
-    mpz_init(h->prime);
-    mpz_import(h->prime, h->n8, -1, 1, -1, 0, f->read(h->n8));
+    try {
+        h->n8 = f->readU32LE();
+        mpz_import(h->prime, h->n8, -1, 1, -1, 0, f->read(h->n8));
 
-    h->nVars = f->readU32LE();
+        h->nVars = f->readU32LE();
 
-    f->endReadSection();
+        f->endReadSection();
+    } catch (...) {
+        f->endReadSection(false);
+        throw;
+    }
 
-    return std::unique_ptr<Header>(h);
+    return h;
 }
 
-} // NAMESPACE
\ No newline at end of file
+} // NAMESPACE
diff --git a/c/zkey_utils.cpp b/c/zkey_utils.cpp
index 52a5629..8747537 100644
--- a/c/zkey_utils.cpp
+++ b/c/zkey_utils.cpp
@@ -5,6 +5,8 @@ namespace ZKeyUtils {
 
 
 Header::Header() {
+    mpz_init(qPrime);
+    mpz_init(rPrime);
 }
 
 Header::~Header() {
@@ -14,40 +16,48 @@ Header::~Header() {
 
 
 std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
-    auto h = new Header();
+    std::unique_ptr<Header> h(new Header());
 
     f->startReadSection(1);
-    uint32_t protocol = f->readU32LE();
-    if (protocol != 1) {
-        throw std::invalid_argument( "zkey file is not groth16" );
+    try {
+        uint32_t protocol = f->readU32LE();
+        if (protocol != 1) {
+            throw std::invalid_argument( "zkey file is not groth16" );
+        }
+        f->endReadSection();
+    } catch (...) {
+        f->endReadSection(false);
+        throw;
     }
-    f->endReadSection();
 
     f->startReadSection(2);
-
-    h->n8q = f->readU32LE();
-    mpz_init(h->qPrime);
-    mpz_import(h->qPrime, h->n8q, -1, 1, -1, 0, f->read(h->n8q));
-
-    h->n8r = f->readU32LE();
-    mpz_init(h->rPrime);
-    mpz_import(h->rPrime, h->n8r , -1, 1, -1, 0, f->read(h->n8r));
-
-    h->nVars = f->readU32LE();
-    h->nPublic = f->readU32LE();
-    h->domainSize = f->readU32LE();
-
-    h->vk_alpha1 = f->read(h->n8q*2);
-    h->vk_beta1 = f->read(h->n8q*2);
-    h->vk_beta2 = f->read(h->n8q*4);
-    h->vk_gamma2 = f->read(h->n8q*4);
-    h->vk_delta1 = f->read(h->n8q*2);
-    h->vk_delta2 = f->read(h->n8q*4);
-    f->endReadSection();
+    try {
+        h->n8q = f->readU32LE();
+        mpz_import(h->qPrime, h->n8q, -1, 1, -1, 0, f->read(h->n8q));
+
+        h->n8r = f->readU32LE();
+        mpz_import(h->rPrime, h->n8r , -1, 1, -1, 0, f->read(h->n8r));
+
+        h->nVars = f->readU32LE();
+        h->nPublic = f->readU32LE();
+        h->domainSize = f->readU32LE();
+
+        u_int64_t n8q = h->n8q;
+        h->vk_alpha1 = f->read(n8q*2);
+        h->vk_beta1 = f->read(n8q*2);
+        h->vk_beta2 = f->read(n8q*4);
+        h->vk_gamma2 = f->read(n8q*4);
+        h->vk_delta1 = f->read(n8q*2);
+        h->vk_delta2 = f->read(n8q*4);
+        f->endReadSection();
+    } catch (...) {
+        f->endReadSection(false);
+        throw;
+    }
 
     h->nCoefs = f->getSectionSize(4) / (12 + h->n8r);
 
-    return std::unique_ptr<Header>(h);
+    return h;
 }
 
 } // namespace
-- 
2.43.0


From db67357b5b7c0f4249ea0f0b083eef7752a1ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 13/33] fix: buildzqfield: an explicit .cpp name is the name of
 one output only

With --oc the element, generic, raw generic and arm64 sources were all written
to the file asked for the .cpp, which ended up holding arm64 assembly.
---
 src/buildzqfield.js | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buildzqfield.js b/src/buildzqfield.js
index 6fbc2e0..f4007e0 100755
--- a/src/buildzqfield.js
+++ b/src/buildzqfield.js
@@ -71,10 +71,10 @@ if (runningAsScript) {
     const asmFileName =  (argv.oa) ? argv.oa : argv.name.toLowerCase() + ".asm";
     const hFileName =  (argv.oh) ? argv.oh : argv.name.toLowerCase() + ".hpp";
     const cFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + ".cpp";
-    const hElementFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_element.hpp";
-    const cGenericFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_generic.cpp";
-    const cRawGenericFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_raw_generic.cpp";
-    const sRawArm64FileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_raw_arm64.s";
+    const hElementFileName =  argv.name.toLowerCase() + "_element.hpp";
+    const cGenericFileName =  argv.name.toLowerCase() + "_generic.cpp";
+    const cRawGenericFileName =  argv.name.toLowerCase() + "_raw_generic.cpp";
+    const sRawArm64FileName =  argv.name.toLowerCase() + "_raw_arm64.s";
 
 
     buildField(q, argv.name).then( (res) => {
-- 
2.43.0


From b03a57f06864c90de0b2ee94366a10ead9ffaec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 14/33] fix: buildzqfield: honour the documented -oc, -oh and
 -oa options

They were read as groups of one-letter options, so the given names were ignored.
---
 src/buildzqfield.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buildzqfield.js b/src/buildzqfield.js
index f4007e0..072bbaf 100755
--- a/src/buildzqfield.js
+++ b/src/buildzqfield.js
@@ -61,6 +61,7 @@ if (runningAsScript) {
     const fs = require("fs");
     var argv = require("yargs")
         .usage("Usage: $0 -q [primeNum] -n [name] -oc [out .c file] -oh [out .h file] -oa [out .asm file]")
+        .parserConfiguration({ "short-option-groups": false })
         .demandOption(["q","n"])
         .alias("q", "prime")
         .alias("n", "name")
-- 
2.43.0


From 1d6159f7ca8ef151317d2b9eb72255c4adfe1d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 15/33] fix: buildzqfield: exit with failure when a template or
 an output fails

The rejection was left unhandled, which up to node 14 (and with
--unhandled-rejections=warn) ends the command with success.
---
 src/buildzqfield.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buildzqfield.js b/src/buildzqfield.js
index 072bbaf..138813a 100755
--- a/src/buildzqfield.js
+++ b/src/buildzqfield.js
@@ -86,6 +86,9 @@ if (runningAsScript) {
         fs.writeFileSync(cGenericFileName, res.generic_cpp, "utf8");
         fs.writeFileSync(cRawGenericFileName, res.raw_generic_cpp, "utf8");
         fs.writeFileSync(sRawArm64FileName, res.raw_arm64_s, "utf8");
+    }).catch( (err) => {
+        console.error(err);
+        process.exitCode = 1;
     });
 
 } else {
-- 
2.43.0


From eda9717f3a99e86bf274e0f9153a15c46476cd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:11 +0000
Subject: [PATCH 16/33] fix: rawSwap stores the value it loaded, not rbx

---
 src/copy.asm.ejs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index 989e927..a780cbe 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -69,7 +69,7 @@
         mov     rax, [rsi + <%= i*8 %>]
         mov     rcx, [rdi + <%= i*8 %>]
         mov     [rdi + <%= i*8 %>], rax
-        mov     [rsi + <%= i*8 %>], rbx
+        mov     [rsi + <%= i*8 %>], rcx
 <% } %>
         ret
 
-- 
2.43.0


From 2d221f4ece1947be2e24ee5c1206fbaf3a9baa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:26 +0000
Subject: [PATCH 17/33] fix: do not assign the shared field to itself when
 constructing a curve

---
 c/curve.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/c/curve.cpp b/c/curve.cpp
index af35ebf..7bd6ebe 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -2,14 +2,11 @@
 
 template <typename BaseField>
 Curve<BaseField>::Curve(BaseField &aF, typename BaseField::Element &aa, typename BaseField::Element &ab, typename BaseField::Element &agx, typename BaseField::Element &agy) : F(aF) {
-    F = aF;
     initCurve(aa, ab, agx, agy);
 }
 
 template <typename BaseField>
 Curve<BaseField>::Curve(BaseField &aF, std::string as, std::string bs, std::string gxs, std::string gys) : F(aF) {
-    F = aF;
-
     typename BaseField::Element aa;
     typename BaseField::Element ab;
     typename BaseField::Element agx;
-- 
2.43.0


From e42c89e3655bba70d3499fa433fe367182764b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 18/33] fix: element2str returns memory from one allocator,
 whatever the element

---
 src/fr.cpp.ejs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index 9d3f1e2..1486933 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -3,6 +3,7 @@
 #include <stdlib.h>
 #include <gmp.h>
 #include <assert.h>
+#include <new>
 #include <string>
 
 
@@ -66,7 +67,8 @@ char *<%=name%>_element2str(P<%=name%>Element pE) {
     mpz_t r;
     if (!(pE->type & <%=name%>_LONG)) {
         if (pE->shortVal>=0) {
-            char *r = new char[32];
+            char *r = (char *)malloc(32);
+            if (r == NULL) throw std::bad_alloc();
             sprintf(r, "%d", pE->shortVal);
             return r;
         } else {
-- 
2.43.0


From 75cc1285eac9cb4d26b53188a553310fa0972aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:38 +0000
Subject: [PATCH 19/33] fix: toString does not leak when its result cannot be
 allocated

---
 src/fr.cpp.ejs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index 1486933..bb55acf 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -3,6 +3,7 @@
 #include <stdlib.h>
 #include <gmp.h>
 #include <assert.h>
+#include <memory>
 #include <new>
 #include <string>
 
@@ -230,11 +231,9 @@ std::string Raw<%=name%>::toString(const Element &a, uint32_t radix) {
     <%=name%>_rawFromMontgomery(tmp.v, a.v);
     mpz_init(r);
     mpz_import(r, <%=name%>_N64, -1, 8, -1, 0, (const void *)(tmp.v));
-    char *res = mpz_get_str (0, radix, r);
+    std::unique_ptr<char, decltype(&free)> res(mpz_get_str (0, radix, r), free);
     mpz_clear(r);
-    std::string resS(res);
-    free(res);
-    return resS;
+    return std::string(res.get());
 }
 
 void Raw<%=name%>::inv(Element &r, const Element &a) {
-- 
2.43.0


From a00b7e54ee0653d94dd12595713b1364e71ab2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:38 +0000
Subject: [PATCH 20/33] fix: toRprBE and fromRprBE release their temporary

---
 src/fr.cpp.ejs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index bb55acf..15cfb89 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -303,6 +303,7 @@ int Raw<%=name%>::toRprBE(const Element &element, uint8_t *data, int bytes)
    
     mpz_export(data, NULL, 1, bytes, 1, 0, r);
 
+    mpz_clear(r);
     return <%=name%>_N64 * 8;
 }
 
@@ -316,6 +317,7 @@ int Raw<%=name%>::fromRprBE(Element &element, const uint8_t *data, int bytes)
 
     mpz_import(r, <%=name%>_N64 * 8, 0, 1, 0, 0, data);
     fromMpz(element, r);
+    mpz_clear(r);
     return <%=name%>_N64 * 8;
 }
 
-- 
2.43.0


From 9c6c0a973da10384c69ab825354ac14fc154730d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:38 +0000
Subject: [PATCH 21/33] fix: toRprBE writes the bytes of zero

---
 src/fr.cpp.ejs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index 15cfb89..72b2af8 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -1,6 +1,7 @@
 #include "<%=name.toLowerCase()+".hpp"%>"
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <gmp.h>
 #include <assert.h>
 #include <memory>
@@ -301,6 +302,7 @@ int Raw<%=name%>::toRprBE(const Element &element, uint8_t *data, int bytes)
 
     toMpz(r, element);
    
+    memset(data, 0, bytes); // nothing is exported for zero
     mpz_export(data, NULL, 1, bytes, 1, 0, r);
 
     mpz_clear(r);
-- 
2.43.0


From 671cdaea9486b50313d1d05cfe1db138e5a10232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:51 +0000
Subject: [PATCH 22/33] fix: toString of points and extension fields is not cut
 short when memory runs out

---
 c/curve.cpp    |  6 ++----
 c/f12field.cpp |  6 ++----
 c/f2field.cpp  |  6 ++----
 c/f6field.cpp  | 10 ++--------
 4 files changed, 8 insertions(+), 20 deletions(-)

diff --git a/c/curve.cpp b/c/curve.cpp
index 7bd6ebe..c42e4b6 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -1,4 +1,4 @@
-#include <sstream>
+#include <string>
 
 template <typename BaseField>
 Curve<BaseField>::Curve(BaseField &aF, typename BaseField::Element &aa, typename BaseField::Element &ab, typename BaseField::Element &agx, typename BaseField::Element &agy) : F(aF) {
@@ -618,9 +618,7 @@ template <typename BaseField>
 std::string Curve<BaseField>::toString(Point &p, uint32_t radix) {
     PointAffine tmp;
     copy(tmp, p);
-    std::ostringstream stringStream;
-    stringStream << "(" << F.toString(tmp.x, radix) << "," << F.toString(tmp.y, radix) << ")";
-    return stringStream.str();
+    return "(" + F.toString(tmp.x, radix) + "," + F.toString(tmp.y, radix) + ")";
 }
 
 #ifdef COUNT_OPS
diff --git a/c/f12field.cpp b/c/f12field.cpp
index ee5e231..e419996 100644
--- a/c/f12field.cpp
+++ b/c/f12field.cpp
@@ -1,6 +1,6 @@
 #include "splitparstr.hpp"
 #include "assert.h"
-#include <sstream>
+#include <string>
 
 template <typename BaseField>
 F12Field<BaseField>::F12Field() {
@@ -35,9 +35,7 @@ void F12Field<BaseField>::fromString(Element &r, std::string s) {
 
 template <typename BaseField>
 std::string F12Field<BaseField>::toString(Element &e, uint32_t radix) {
-    std::ostringstream stringStream;
-    stringStream << "(" << F.toString(e.x, radix) << "," << F.toString(e.y, radix) << ")";
-    return stringStream.str();
+    return "(" + F.toString(e.x, radix) + "," + F.toString(e.y, radix) + ")";
 }
 
 template <typename BaseField>
diff --git a/c/f2field.cpp b/c/f2field.cpp
index 3a250ed..c3190fe 100644
--- a/c/f2field.cpp
+++ b/c/f2field.cpp
@@ -1,6 +1,6 @@
 #include "splitparstr.hpp"
 #include "assert.h"
-#include <sstream>
+#include <string>
 
 template <typename BaseField>
 F2Field<BaseField>::F2Field(typename BaseField::Element &anr) {
@@ -51,9 +51,7 @@ void F2Field<BaseField>::fromString(Element &r, std::string s) {
 
 template <typename BaseField>
 std::string F2Field<BaseField>::toString(Element &e, uint32_t radix) {
-    std::ostringstream stringStream;
-    stringStream << "(" << F.toString(e.a, radix) << "," << F.toString(e.b, radix) << ")";
-    return stringStream.str();
+    return "(" + F.toString(e.a, radix) + "," + F.toString(e.b, radix) + ")";
 }
 
 template <typename BaseField>
diff --git a/c/f6field.cpp b/c/f6field.cpp
index f305c3f..be1e08e 100644
--- a/c/f6field.cpp
+++ b/c/f6field.cpp
@@ -1,6 +1,6 @@
 #include "splitparstr.hpp"
 #include "assert.h"
-#include <sstream>
+#include <string>
 
 template <typename BaseField>
 F6Field<BaseField>::F6Field()
@@ -48,13 +48,7 @@ void F6Field<BaseField>::fromString(Element &r, std::string s) {
 
 template <typename BaseField>
 std::string F6Field<BaseField>::toString(Element &e, uint32_t radix) {
-    std::ostringstream stringStream;
-    stringStream << "("
-                 << F.toString(e.x, radix) << ","
-                 << F.toString(e.y, radix) << ","
-                 << F.toString(e.z, radix)
-                 << ")";
-    return stringStream.str();
+    return "(" + F.toString(e.x, radix) + "," + F.toString(e.y, radix) + "," + F.toString(e.z, radix) + ")";
 }
 
 template <typename BaseField>
-- 
2.43.0


From 249ce98c1ccb0e72441d0d01369f6742159e5a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 23/33] fix: squaring in an extension by a root of anything but
 -1

---
 c/f2field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/f2field.cpp b/c/f2field.cpp
index c3190fe..e58fcaa 100644
--- a/c/f2field.cpp
+++ b/c/f2field.cpp
@@ -160,7 +160,7 @@ void F2Field<BaseField>::square(Element &r, Element &e1) {
 
         F.add(tmp1, e1.a, e1.b);
         mulByNr(tmp2, e1.b);
-        F.add(tmp2, e1.a, tmp1);
+        F.add(tmp2, e1.a, tmp2);
 
         F.mul(tmp1, tmp1, tmp2);
 
-- 
2.43.0


From 1326cd452280748c4c45da043a765cecaee7da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 24/33] fix: the negative of the affine point at infinity is
 the point at infinity

---
 c/curve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/curve.cpp b/c/curve.cpp
index c42e4b6..79f57ca 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -586,6 +586,10 @@ void Curve<BaseField>::neg(Point &r, Point &a) {
 
 template <typename BaseField>
 void Curve<BaseField>::neg(Point &r, PointAffine &a) {
+    if (isZero(a)) {
+        copy(r, zero());
+        return;
+    }
     F.copy(r.x, a.x);
     F.neg(r.y, a.y);
     F.copy(r.zz, F.one());
-- 
2.43.0


From ca4cc638d366df13fe937e784ac7176c87dec556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 25/33] fix: splitParStr terminates for a string without a
 comma

---
 c/splitparstr.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/splitparstr.cpp b/c/splitparstr.cpp
index c081969..f6a2c60 100644
--- a/c/splitparstr.cpp
+++ b/c/splitparstr.cpp
@@ -47,6 +47,7 @@ std::vector<std::string> splitParStr(std::string s) {
     res.push_back(accS);
     if (res.size()==1) {
         removePars(res[0]);
+        if (res[0] == s) return res; // nothing left to open
         return splitParStr(res[0]);
     } else {
         return res;
-- 
2.43.0


From 540e7ccf682b0f1efbc4736fd26d5f0469cc2656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 26/33] fix: copyn ignores the undefined upper half of its int
 count

---
 src/copy.asm.ejs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index a780cbe..df5463d 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -90,6 +90,7 @@
 <%=name%>_copyn_loop:
         mov     r8, rsi
         mov     r9, rdi
+        mov     edx, edx        ; the count is an int: its upper half is undefined
         mov     rax, <%= n64+1 %>
         mul     rdx
         mov     rcx, rax
-- 
2.43.0


From 60e274aa6f87d71525cee2d1e91fed8c730ff7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 27/33] fix: tagged assembly operations may write their result
 over an operand

---
 src/add.asm.ejs    |  8 ++++----
 src/binops.asm.ejs | 16 +++++++---------
 src/sub.asm.ejs    | 30 +++++++++++++-----------------
 3 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/add.asm.ejs b/src/add.asm.ejs
index eed3d22..bfc9ee4 100644
--- a/src/add.asm.ejs
+++ b/src/add.asm.ejs
@@ -137,8 +137,8 @@ add_l1ms2:
         bt     rcx, 62          ; check if montgomery second
         jc     add_l1ms2m
 add_l1ms2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_l1ms2m:
@@ -158,8 +158,8 @@ add_s1l2m:
         bt     rax, 62          ; check if montgomery first
         jc     add_s1ml2m
 add_s1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_s1ml2m:
@@ -178,16 +178,16 @@ add_l1nl2n:
 <%=     addL1L2()         %>
 
 add_l1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_l1ml2:
         bt     rcx, 62          ; check if montgomery seconf
         jc     add_l1ml2m
 add_l1ml2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_l1ml2m:
diff --git a/src/binops.asm.ejs b/src/binops.asm.ejs
index 68d2b8d..b1aa0c7 100644
--- a/src/binops.asm.ejs
+++ b/src/binops.asm.ejs
@@ -56,9 +56,9 @@
         ret
 
 <%=s1s2_solveNeg%>:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.toLong_b() %>
 <%=     global.toLong_a() %>
+<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 
 
@@ -69,6 +69,7 @@
         cmp    eax, 0
         <% const s1l2_solveNeg = global.tmpLabel() %>
         js     <%=s1l2_solveNeg%>
+<%=     global.setTypeDest("0x80"); %>
         <%=op%> rax, [rdx +8]
         mov    [rdi+8], rax
 <%   for (let i=1; i<n64; i++) { %>
@@ -98,6 +99,7 @@
         cmp    ecx, 0
         <% const l1s2_solveNeg = global.tmpLabel() %>
         js     <%=l1s2_solveNeg%>
+<%=     global.setTypeDest("0x80"); %>
         movsx  rax, ecx
         <%=op%> rax, [rsi +8]
         mov    [rdi+8], rax
@@ -178,11 +180,9 @@
         bt     rax, 62          ; check if montgomery first
         jc     <%=op%>_l1ms2
 <%=op%>_l1ns2:
-<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1S2(op)       %>
 
 <%=op%>_l1ms2:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_a()       %>
 <%=     binOpL1S2(op)       %>
 
@@ -191,11 +191,9 @@
         bt     rcx, 62          ; check if montgomery first
         jc     <%=op%>_s1l2m
 <%=op%>_s1l2n:
-<%=     global.setTypeDest("0x80"); %>
 <%=     binOpS1L2(op)       %>
 
 <%=op%>_s1l2m:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_b()       %>
 <%=     binOpS1L2(op)       %>
 
@@ -210,22 +208,22 @@
 <%=     binOpL1L2(op)       %>
 
 <%=op%>_l1nl2m:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_b()       %>
+<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 
 <%=op%>_l1ml2:
         bt     rcx, 62          ; check if montgomery first
         jc     <%=op%>_l1ml2m
 <%=op%>_l1ml2n:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_a()       %>
+<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 
 <%=op%>_l1ml2m:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_a()       %>
 <%=     global.fromMont_b()       %>
+<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 <% } %>
 
@@ -249,7 +247,6 @@
         push   rsi
         push   rdx
         mov    rbp, rsp
-        <%=     global.setTypeDest("0x80"); %>
 
         mov     rax, [rsi]
         bt      rax, 63          ; Check if is long operand
@@ -266,6 +263,7 @@ bnot_l1m:
 <%=     global.fromMont_a()       %>
 
 bnot_l1n:
+<%=     global.setTypeDest("0x80"); %>
 <%   for (let i=0; i<n64; i++) { %>
         mov    rax, [rsi + <%= i*8 + 8 %>]
         not    rax
diff --git a/src/sub.asm.ejs b/src/sub.asm.ejs
index e50b974..fbd3f01 100644
--- a/src/sub.asm.ejs
+++ b/src/sub.asm.ejs
@@ -144,8 +144,8 @@ sub_l1ms2:
         bt     rcx, 62          ; check if montgomery second
         jc     sub_l1ms2m
 sub_l1ms2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_l1ms2m:
@@ -165,8 +165,8 @@ sub_s1l2m:
         bt     rax, 62          ; check if montgomery second
         jc     sub_s1ml2m
 sub_s1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_s1ml2m:
@@ -185,16 +185,16 @@ sub_l1nl2n:
 <%=     subL1L2()         %>
 
 sub_l1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_l1ml2:
         bt     rcx, 62          ; check if montgomery seconf
         jc     sub_l1ml2m
 sub_l1ml2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_l1ml2m:
@@ -318,24 +318,20 @@ rawSubLL_done:
 ;    rax
 ;;;;;;;;;;;;;;;;;;;;;;
 rawNegLS:
-        mov rax, [q]
-        sub rax, rdx
-        mov [rdi], rax
-<% for (let i=1; i<n64; i++) { %>
-        mov rax, [q + <%=i*8%> ]
-        sbb rax, 0
-        mov [rdi + <%=i*8%>], rax
-<% } %>
-        setc dl
-
 <% for (let i=0; i<n64; i++) { %>
-        mov rax, [rdi + <%=i*8%> ]
+        mov rax, [q + <%=i*8%>]
         <%= i==0 ? "sub" : "sbb" %> rax, [rsi + <%=i*8%>]
         mov [rdi + <%=i*8%>], rax
 <% } %>
+        setc al
+
+        sub [rdi], rdx
+<% for (let i=1; i<n64; i++) { %>
+        sbb qword [rdi + <%=i*8%>], 0
+<% } %>
+        setc dl
 
-        setc dh
-        or dl, dh
+        or dl, al
         jz rawNegSL_done
 
         ; it is a negative value, so add q
-- 
2.43.0


From 00537301c87afb6db76ead7e5011e1349ee70552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 28/33] fix: F12Field::exp with result and base being the same
 element

---
 c/f12field.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/f12field.cpp b/c/f12field.cpp
index e419996..bb815cd 100644
--- a/c/f12field.cpp
+++ b/c/f12field.cpp
@@ -93,6 +93,8 @@ void F12Field<BaseField>::mulScalar(Element &r, Element &a, typename BaseField::
 template <typename BaseField>
 void F12Field<BaseField>::exp(Element &r, Element &a, uint8_t* scalar, unsigned int scalarSize) {
 
+    Element aCopy;
+    copy(aCopy, a); // base and result can be the same
     copy(r, one());
     Element t;
 
@@ -100,7 +102,7 @@ void F12Field<BaseField>::exp(Element &r, Element &a, uint8_t* scalar, unsigned
         square(t, r);
 
         if ( BIT_IS_SET(scalar, i) ) {
-            mul(r, t, a);
+            mul(r, t, aCopy);
         } else {
             copy(r, t);
         }
-- 
2.43.0


From 560fb040cacf1dde9ee04a759c8f1af343f9ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 29/33] fix: portable rawNegLS and rawShl with result and
 operand being the same element

---
 src/fr_raw_generic.cpp.ejs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fr_raw_generic.cpp.ejs b/src/fr_raw_generic.cpp.ejs
index e13bbb1..bf73c2f 100644
--- a/src/fr_raw_generic.cpp.ejs
+++ b/src/fr_raw_generic.cpp.ejs
@@ -81,8 +81,10 @@ void <%=name%>_rawNeg(<%=name%>RawElement pRawResult, const <%=name%>RawElement
 //  Substracts a long element and a short element form 0
 void <%=name%>_rawNegLS(<%=name%>RawElement pRawResult, <%=name%>RawElement pRawA, uint64_t rawB)
 {
-    uint64_t carry1 = mpn_sub_1(pRawResult, <%=name%>_rawq, <%=name%>_N64, rawB);
-    uint64_t carry2 = mpn_sub_n(pRawResult, pRawResult, pRawA, <%=name%>_N64);
+    <%=name%>RawElement tmp;    // result and operand can be the same
+
+    uint64_t carry1 = mpn_sub_1(tmp, <%=name%>_rawq, <%=name%>_N64, rawB);
+    uint64_t carry2 = mpn_sub_n(pRawResult, tmp, pRawA, <%=name%>_N64);
 
     if (carry1 || carry2)
     {
@@ -318,7 +320,7 @@ void <%=name%>_rawShl(<%=name%>RawElement r, <%=name%>RawElement a, uint64_t b)
     uint64_t word_shift = b / 64;
     uint64_t word_count = <%=name%>_N64 - word_shift;
 
-    mpn_copyi(r + word_shift, a, word_count);
+    mpn_copyd(r + word_shift, a, word_count);    // from the top: result and operand can be the same
     std::memset(r, 0, word_shift * sizeof(uint64_t));
 
     if (bit_shift)
-- 
2.43.0


From 49a0e0bbeb282bc7818b091a2b2ba8dc62682214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 30/33] fix: portable toMontgomery of a short element keeps its
 short value

---
 src/fr_generic.cpp.ejs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index 2cd5a6d..0925778 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -313,12 +313,14 @@ void <%=name%>_toMontgomery(P<%=name%>Element r, P<%=name%>Element a)
        <%=name%>_rawMMul1(r->longVal, <%=name%>_R2.longVal, -a_shortVal);
        <%=name%>_rawNeg(r->longVal, r->longVal);
 
+       r->shortVal = a->shortVal;
        r->type = <%=name%>_SHORTMONTGOMERY;
     }
     else
     {
         <%=name%>_rawMMul1(r->longVal, <%=name%>_R2.longVal, a->shortVal);
 
+        r->shortVal = a->shortVal;
         r->type = <%=name%>_SHORTMONTGOMERY;
     }
 }
-- 
2.43.0


From c9af3f44dd6f1956ea49bda3a24a6590ba70fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 31/33] fix: portable add, sub and bit operations with result
 and operand being the same element

---
 src/fr_generic.cpp.ejs | 100 ++++++++++++++---------------------------
 1 file changed, 34 insertions(+), 66 deletions(-)

diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index 0925778..e392ec1 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -372,12 +372,11 @@ static inline void sub_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void sub_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element a_m;
     <%=name%>_toMontgomery(&a_m, a);
 
     <%=name%>_rawSub(r->longVal, a_m.longVal, b->longVal);
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void sub_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -389,12 +388,11 @@ static inline void sub_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void sub_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element b_m;
     <%=name%>_toMontgomery(&b_m, b);
 
     <%=name%>_rawSub(r->longVal, a->longVal, b_m.longVal);
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void sub_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -414,22 +412,20 @@ static inline void sub_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
 
 static inline void sub_l1ms2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element b_m;
     <%=name%>_toMontgomery(&b_m, b);
 
     <%=name%>_rawSub(r->longVal, a->longVal, b_m.longVal);
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void sub_s1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element a_m;
     <%=name%>_toMontgomery(&a_m, a);
 
     <%=name%>_rawSub(r->longVal, a_m.longVal, b->longVal);
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void sub_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -562,12 +558,11 @@ static inline void add_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void add_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element a_m;
     <%=name%>_toMontgomery(&a_m, a);
 
     <%=name%>_rawAdd(r->longVal, a_m.longVal, b->longVal);
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void add_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -578,12 +573,11 @@ static inline void add_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void add_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element b_m;
     <%=name%>_toMontgomery(&b_m, b);
 
     <%=name%>_rawAdd(r->longVal, a->longVal, b_m.longVal);
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void add_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -605,21 +599,19 @@ static inline void add_l1ms2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 {
     <%=name%>Element b_m;
 
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>_toMontgomery(&b_m, b);
 
     <%=name%>_rawAdd(r->longVal, a->longVal, b_m.longVal);
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void add_s1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element m_a;
     <%=name%>_toMontgomery(&m_a, a);
 
     <%=name%>_rawAdd(r->longVal, m_a.longVal, b->longVal);
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void add_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -1443,8 +1435,6 @@ static inline void and_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         return;
     }
 
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -1452,6 +1442,7 @@ static inline void and_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     <%=name%>_toLongNormal(&b_n, b);
 
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -1462,18 +1453,15 @@ static inline void and_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void and_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawAnd(r->longVal, a->longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -1481,22 +1469,20 @@ static inline void and_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>_toNormal(&a_n, a);
 
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b->longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
 
     if (a->shortVal >= 0)
@@ -1509,12 +1495,11 @@ static inline void and_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b->longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -1530,12 +1515,11 @@ static inline void and_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawAnd(r->longVal, b_n.longVal, a_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -1551,12 +1535,11 @@ static inline void and_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
 
     if (b->shortVal >= 0)
@@ -1569,6 +1552,7 @@ static inline void and_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawAnd(r->longVal, a->longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 // Ands two elements of any kind
@@ -1994,8 +1978,6 @@ static inline void or_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>E
         return;
     }
 
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2003,12 +1985,11 @@ static inline void or_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>E
     <%=name%>_toLongNormal(&b_n, b);
 
     <%=name%>_rawOr(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2024,12 +2005,11 @@ static inline void or_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     }
 
     <%=name%>_rawOr(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
 
     if (a->shortVal >= 0)
@@ -2042,12 +2022,11 @@ static inline void or_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     }
 
     <%=name%>_rawOr(r->longVal, a_n.longVal, b->longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
 
     if (b->shortVal >= 0)
@@ -2060,12 +2039,11 @@ static inline void or_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     }
 
     <%=name%>_rawOr(r->longVal, a->longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2081,6 +2059,7 @@ static inline void or_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     }
 
     <%=name%>_rawOr(r->longVal, b_n.longVal, a_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -2091,28 +2070,24 @@ static inline void or_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
 
 static inline void or_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawOr(r->longVal, a->longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>_toNormal(&a_n, a);
 
     <%=name%>_rawOr(r->longVal, a_n.longVal, b->longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2120,6 +2095,7 @@ static inline void or_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawOr(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 
@@ -2184,8 +2160,6 @@ static inline void xor_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         return;
     }
 
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2193,12 +2167,11 @@ static inline void xor_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     <%=name%>_toLongNormal(&b_n, b);
 
     <%=name%>_rawXor(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
 
     if (a->shortVal >= 0)
@@ -2211,12 +2184,11 @@ static inline void xor_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawXor(r->longVal, a_n.longVal, b->longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2232,12 +2204,11 @@ static inline void xor_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawXor(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
 
     if (b->shortVal >= 0)
@@ -2250,12 +2221,11 @@ static inline void xor_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawXor(r->longVal, a->longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2271,6 +2241,7 @@ static inline void xor_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawXor(r->longVal, b_n.longVal, a_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -2281,28 +2252,24 @@ static inline void xor_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void xor_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawXor(r->longVal, a->longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>_toNormal(&a_n, a);
 
     <%=name%>_rawXor(r->longVal, a_n.longVal, b->longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2310,6 +2277,7 @@ static inline void xor_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawXor(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 void <%=name%>_bxor(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -2366,8 +2334,6 @@ void <%=name%>_bxor(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element
 
 void <%=name%>_bnot(P<%=name%>Element r, P<%=name%>Element a)
 {
-    r->type = <%=name%>_LONG;
-
     if (a->type == <%=name%>_LONG)
     {
         if (a->type & <%=name%>_MONTGOMERY)
@@ -2389,4 +2355,6 @@ void <%=name%>_bnot(P<%=name%>Element r, P<%=name%>Element a)
 
         <%=name%>_rawNot(r->longVal, a_n.longVal);
     }
+
+    r->type = <%=name%>_LONG;
 }
-- 
2.43.0


From f6868ae7005fe763cd4cbf3dac90945257eb2ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 32/33] fix: NAFs can be built before naf.cpp is initialized

---
 c/naf.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/naf.cpp b/c/naf.cpp
index 079dcf7..5db527c 100644
--- a/c/naf.cpp
+++ b/c/naf.cpp
@@ -53,6 +53,9 @@ bool buildNafTable() {
 
 
 void buildNaf(uint8_t *r, uint8_t* scalar, unsigned int scalarSize) {
+    static const bool tableBuilt = buildNafTable(); // on first use, which can be before this file's initialization
+    (void)tableBuilt;
+
     int64_t *r64 = (int64_t *)r;
 
     bool carry = false;
@@ -72,5 +75,3 @@ void buildNaf(uint8_t *r, uint8_t* scalar, unsigned int scalarSize) {
         r64[i] = rs & 0x0303030303030303LL;
     }
 }
-
-static bool tableBulded = buildNafTable();
-- 
2.43.0


From 3cab5751d5a7c8e2c35ff7f7a0052cb820a4c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:43 +0000
Subject: [PATCH 33/33] fix: opening a file that is being shortened, or cannot
 be read, ended the process with SIGBUS: read it instead of mapping it

---
 c/binfile_utils.cpp | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 9cee4ea..6eb72bf 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -1,9 +1,9 @@
-#include <sys/mman.h>
 #include <sys/stat.h>
 #include <fcntl.h>
 #include <unistd.h>
 #include <system_error>
 #include <string>
+#include <cerrno>
 #include <memory.h>
 #include <stdexcept>
 #include <memory>
@@ -49,30 +49,30 @@ namespace BinFileUtils
         }
 
         size = sb.st_size;
-        void *addrmm = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE | MAP_POPULATE, fd, 0);
-        int mmapError = errno;
-        close(fd);
-        if (addrmm == MAP_FAILED)
-            throw std::system_error(mmapError, std::generic_category(), "mmap");
-
-        std::unique_ptr<void, void (*)(void *)> copy(malloc(sb.st_size), free);
-        try
+        std::unique_ptr<void, void (*)(void *)> copy(malloc(size), free);
+        if (copy == NULL)
         {
-            if (copy == NULL)
-                throw std::bad_alloc();
-
-            addr = copy.get();
-            int nThreads = omp_get_max_threads() / 2;
-            ThreadUtils::parcpy(addr, addrmm, sb.st_size, nThreads);
-            //    memcpy(addr, addrmm, sb.st_size);
+            close(fd);
+            throw std::bad_alloc();
         }
-        catch (...)
+
+        // Read, not mapped: touching a mapping whose file was shortened meanwhile, or whose pages cannot be read, ends the process.
+        addr = copy.get();
+        uint64_t done = 0;
+        while (done < size)
         {
-            munmap(addrmm, sb.st_size);
-            throw;
+            ssize_t n = ::read(fd, (char *)addr + done, size - done);
+            if (n == -1 && errno == EINTR)
+                continue;
+            if (n <= 0)
+            {
+                int error = n == -1 ? errno : EIO;
+                close(fd);
+                throw std::system_error(error, std::generic_category(), "read");
+            }
+            done += n;
         }
-
-        munmap(addrmm, sb.st_size);
+        close(fd);
 
         readHeader(_type, maxVersion);
         copy.release();
-- 
2.43.0

