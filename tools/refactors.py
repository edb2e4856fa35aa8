#!/usr/bin/env python3
"""Development only: edits that keep the behaviour; every check named must stay quiet on them.  refactors.py [NAME...]   (FFIASM_DIV scales the runs)"""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = "/tmp/refscratch"
F = {}
def ref(name, props, *edits, new={}): F[name] = (props.split(), edits, new)
M = "c/misc.hpp"
ref("pool-shares-on-the-fly", "C01 C02 C03 C04 C05 C07 C08 C09 C12 C33",
 (M, "        const auto jobs = divideWork(elementCount, nThreads);\n        int jobBegin = begin;\n        int k = 0;\n", "        const int threads = (int)nThreads;\n        const int nJobs = elementCount < threads ? elementCount : threads;\n        const int jobSize = elementCount / nJobs;\n        const int rest = elementCount % nJobs;\n        int jobBegin = begin;\n        int k = 0;\n"),
 (M, "            for (; k < jobs.size() - 1; jobBegin += jobs[k++]) {\n                workers[k].submit([=]{func(jobBegin, jobBegin + jobs[k], k);});\n            }\n\n            func(jobBegin, jobBegin + jobs[k], k);\n", "            while (k < nJobs - 1) {\n                const int jobEnd = jobBegin + jobSize + (k < rest ? 1 : 0);\n                workers[k].submit([=]{func(jobBegin, jobEnd, k);});\n                jobBegin = jobEnd;\n                k++;\n            }\n\n            func(jobBegin, end, k);\n"),
 (M, "        for (k = 0; k < jobs.size() - 1; k++) {\n            workers[k].wait();\n        }\n    }\n\n    template<typename Func>\n    void parallelBlock", "        waitWorkers(nJobs - 1);\n    }\n\n    template<typename Func>\n    void parallelBlock"))
ref("worker-moves-task", "C01 C02 C03 C04 C05 C08 C09 C12 C33",
 (M, "                task();\n                task = nullptr;\n            }\n            finished.notify_all();\n", "                task();\n                task = nullptr;\n                finished.notify_all();\n            }\n"),
 (M, "            std::unique_lock<std::mutex> lock(mutex);\n\n            finished.wait(lock, [this]{return task == nullptr;});\n            task = func;\n        }\n", "            std::unique_lock<std::mutex> lock(mutex);\n\n            while (task) finished.wait(lock);\n            task = std::function<void()>(func);\n        }\n"))
ref("pool-state-enum", "C01 C02 C03 C04 C09 C33",
 (M, "    std::atomic<bool> stop;\n    std::function<void()> task;\n", "    enum State { IDLE, BUSY, STOPPING };\n    State state;\n    std::function<void()> task;\n"),
 (M, "                occupied.wait(lock, [this]{return task != nullptr || stop;});\n\n                if (stop) {\n                    return;\n                }\n\n                task();\n                task = nullptr;\n", "                occupied.wait(lock, [this]{return state != IDLE;});\n\n                if (state == STOPPING) {\n                    return;\n                }\n\n                task();\n                task = nullptr;\n                state = IDLE;\n"),
 (M, "        stop(false),\n", "        state(IDLE),\n"), (M, "            stop = true;\n        }\n", "            finished.wait(lock, [this]{return state == IDLE;});\n            state = STOPPING;\n        }\n"), (M, "            std::lock_guard<std::mutex> lock(mutex);\n", "            std::unique_lock<std::mutex> lock(mutex);\n"),
 (M, "            finished.wait(lock, [this]{return task == nullptr;});\n            task = func;\n", "            finished.wait(lock, [this]{return state == IDLE;});\n            task = func;\n            state = BUSY;\n"),
 (M, "        finished.wait(lock, [this]{return task == nullptr;});\n    }\n};", "        finished.wait(lock, [this]{return state == IDLE;});\n    }\n};"))
T = "c/fft.cpp"
ref("fft-vectors", "C07 C08 C09 C12 C19 C30 C33 C10",
 (T, "            for (u_int64_t i=begin; i< end; i++) {\n                Element t;\n                Element u;\n                u_int64_t k=(i/mdiv2)*m;\n                u_int64_t j=i%mdiv2;\n\n                f.mul(t, root(s, j), a[k+j+mdiv2]);\n                f.copy(u,a[k+j]);\n                f.add(a[k+j], t, u);\n                f.sub(a[k+j+mdiv2], u, t);\n            }\n", "            for (u_int64_t i=begin; i< (u_int64_t)end; i++) butterfly(a, i, s);\n"),
 (T, "template <typename Field>\nvoid FFT<Field>::fft(Element *a, u_int64_t n) {\n", "template <typename Field>\nvoid FFT<Field>::butterfly(Element *a, u_int64_t i, u_int32_t level) {\n    const u_int64_t half = (u_int64_t)1 << (level-1);\n    Element &lo = a[(i/half)*2*half + i%half];\n    Element &hi = *(&lo + half);\n    Element t;\n    f.mul(t, hi, root(level, i%half));\n    f.sub(hi, lo, t);\n    f.add(lo, lo, t);\n}\n\ntemplate <typename Field>\nvoid FFT<Field>::fft(Element *a, u_int64_t n) {\n"),
 ("c/fft.hpp", "    void reversePermutation(", "    void butterfly(Element *a, u_int64_t i, u_int32_t level);\n    void reversePermutation("))
ref("fft-roots-serial-blocks", "C07 C08 C09 C12 C19 C30",
 (T, "    threadPool.parallelBlock([&] (int idThread, int nThreads) {\n\n        uint64_t increment = nRoots / nThreads;\n        // roots[0] and roots[1] are already set and read by all the threads\n        uint64_t start = std::max<uint64_t>(2, idThread * increment);\n        uint64_t end   = idThread==nThreads-1 ? nRoots : (idThread+1) * increment;\n        if (end>start) {\n", "    const Element generator = nRoots > 1 ? roots[1] : roots[0];\n\n    threadPool.parallelFor(2, nRoots > 2 ? nRoots : 2, [&] (int begin, int stop, int idThread) {\n        uint64_t start = begin;\n        uint64_t end = stop;\n        if (end>start) {\n"))
X = "c/multiexp.cpp"
ref("mexp-dynamic", "C06 C08 C09 C11 C12 C19 C30",
 (X, "void ParallelMultiexp<Curve>::processChunk(uint64_t idChunk) {\n    #pragma omp parallel for\n", "void ParallelMultiexp<Curve>::processChunk(uint64_t idChunk) {\n    #pragma omp parallel for schedule(dynamic, 2)\n"),
 (X, "void ParallelMultiexp<Curve>::packThreads() {\n    #pragma omp parallel for\n", "void ParallelMultiexp<Curve>::packThreads() {\n    #pragma omp parallel for schedule(guided)\n"),
 (X, "    #pragma omp parallel for\n    for (uint64_t i=0; i<nThreads*accsPerChunk; i++) {\n        g.copy(accs[i].p, g.zero());\n    }\n", "    #pragma omp parallel\n    {\n        #pragma omp for nowait\n        for (uint64_t i=0; i<nThreads*accsPerChunk; i++) {\n            g.copy(accs[i].p, g.zero());\n        }\n    }\n"),
 (X, "#include <memory>\n", "#include <memory>\n#include <vector>\n"), (X, "    std::unique_ptr<PaddedPoint[]> sall(new PaddedPoint[nThreads]);\n    memset((void *)sall.get(), 0, sizeof(PaddedPoint)*nThreads);\n", "    std::vector<PaddedPoint> sall(nThreads);\n    for (auto &z : sall) g.copy(z.p, g.zero());\n"))
ref("mexp-critical", "C06 C09 C12",
 (X, "    #pragma omp parallel for\n    for(uint64_t i=0; i<accsPerChunk; i++) {\n        for(uint64_t j=1; j<nThreads; j++) {\n            if (!g.isZero(accs[j*accsPerChunk + i].p)) {\n", "    for(uint64_t j=1; j<nThreads; j++) {\n        #pragma omp parallel for\n        for(uint64_t i=0; i<accsPerChunk; i++) {\n            if (!g.isZero(accs[j*accsPerChunk + i].p)) {\n"))
ref("msm-vectors", "C05 C08 C09 C11 C12 C19 C30 C33",
 ("c/msm.cpp", "    std::unique_ptr<typename Curve::Point[]> bucketMatrix(new typename Curve::Point[matrixSize]);\n", "    std::vector<typename Curve::Point> bucketMatrix(matrixSize);\n"), ("c/msm.cpp", "    std::unique_ptr<int32_t[]> slicedScalars(new int32_t[nSlices]);\n", "    std::vector<int32_t> slicedScalars(nSlices);\n"),
 ("c/msm.cpp", "        for (int i = 0; i < bitsPerChunk; i++) {\n            g.dbl(r, r);\n        }\n        g.add(r, r, chunks[j]);\n", "        uint64_t left = bitsPerChunk;\n        while (left-- > 0) g.dbl(r, r);\n        g.add(r, chunks[j], r);\n"))
B = "c/binfile_utils.cpp"
LOOP = '        uint64_t done = 0;\n        while (done < size)\n        {\n            ssize_t n = ::read(fd, (char *)addr + done, size - done);\n            if (n == -1 && errno == EINTR)\n                continue;\n            if (n <= 0)\n            {\n                int error = n == -1 ? errno : EIO;\n                close(fd);\n                throw std::system_error(error, std::generic_category(), "read");\n            }\n            done += n;\n        }\n        close(fd);\n\n'
ref("bin-pread-backwards", "C13 C14 C15 C16 C19 C32",
 (B, LOOP, "        const uint64_t step = 1 << 12;\n        for (uint64_t end = size; end > 0;)\n        {\n            const uint64_t begin = end > step ? end - step : 0;\n            uint64_t at = begin;\n            while (at < end)\n            {\n                const ssize_t n = pread(fd, (char *)addr + at, end - at, at);\n                if (n > 0)\n                    at += n;\n                else if (n == 0 || errno != EINTR)\n                {\n                    const int error = n ? errno : EIO;\n                    close(fd);\n                    throw std::system_error(error, std::generic_category(), \"pread\");\n                }\n            }\n            end = begin;\n        }\n        close(fd);\n\n"))
ref("bin-fd-guard", "C13 C14 C15 C19",
 (B, "        struct stat sb;\n", "        struct stat sb;\n        struct Guard { int &fd; ~Guard() { if (fd != -1) ::close(fd); } } guard{fd};\n"),
 (B, "            int error = errno;\n            close(fd);\n            throw std::system_error(error, std::generic_category(), \"fstat\");\n", "            throw std::system_error(errno, std::generic_category(), \"fstat\");\n"),
 (B, "        if (copy == NULL)\n        {\n            close(fd);\n            throw std::bad_alloc();\n        }\n\n        // Read, not", "        if (copy == NULL) throw std::bad_alloc();\n\n        // Read, not"),
 (B, "                int error = n == -1 ? errno : EIO;\n                close(fd);\n                throw std::system_error(error,", "                throw std::system_error(n == -1 ? errno : EIO,"),
 (B, "            done += n;\n        }\n        close(fd);\n", "            done += n;\n        }\n"))
ref("bin-lookup-helper", "C13 C14 C15 C16 C32 C19",
 (B, "    BinFile::~BinFile()\n", "    BinFile::Section &BinFile::findSection(u_int32_t sectionId, u_int32_t sectionPos)\n    {\n        auto it = sections.find(sectionId);\n        if (it == sections.end())\n            throw new std::range_error(\"Section does not exist: \" + std::to_string(sectionId));\n        if (sectionPos >= it->second.size())\n            throw new std::range_error(\"Section pos too big. There are \" + std::to_string(it->second.size()) + \" and it's trying to access section: \" + std::to_string(sectionPos));\n        return it->second[sectionPos];\n    }\n\n    BinFile::~BinFile()\n"),
 (B, "        return sections[sectionId][sectionPos].start;\n", "        return findSection(sectionId, sectionPos).start;\n"), (B, "        return sections[sectionId][sectionPos].size;\n", "        return findSection(sectionId, sectionPos).size;\n"), ("c/binfile_utils.hpp", "@@CLASS@@", ""))
ref("bin-stdio", "C13 C14 C15 C19",
 (B, LOOP, "        FILE *stream = fdopen(fd, \"rb\");\n        if (stream == NULL)\n        {\n            int error = errno;\n            close(fd);\n            throw std::system_error(error, std::generic_category(), \"fdopen\");\n        }\n        const size_t got = fread(addr, 1, size, stream);\n        fclose(stream);\n        if (got != size)\n            throw std::system_error(EIO, std::generic_category(), \"fread\");\n\n"), (B, "#include <cerrno>\n", "#include <cerrno>\n#include <cstdio>\n"))
E_ = "c/exp.hpp"
ref("exp-vector", "C10 C11 C12 C19 C30 C33 C05",
 (E_, "#include \"naf.hpp\"\n", "#include \"naf.hpp\"\n#include <vector>\n"), (E_, "    uint8_t *naf = new uint8_t[(scalarSize+2)*8];\n    buildNaf(naf, scalar, scalarSize);\n", "    std::vector<uint8_t> naf((scalarSize+2)*8);\n    buildNaf(naf.data(), scalar, scalarSize);\n"), (E_, "    delete[] naf;\n", ""),
 (E_, "        G.dbl(r, r);\n        if (naf[i] == 1) {\n            G.add(r, r, baseCopy);\n        } else if (naf[i] == 2) {\n            G.sub(r, r, baseCopy);\n        }\n", "        const int digit = naf[i];\n        G.dbl(r, r);\n        switch (digit) {\n        case 1: G.add(r, r, baseCopy); break;\n        case 2: G.sub(r, r, baseCopy); break;\n        default: break;\n        }\n"))
ref("naf-local-struct", "C10 C30 C33 C05",
 ("c/naf.cpp", "static uint64_t NAFTable[1024];\n", "namespace {\nstruct Table {\n    uint64_t v[1024];\n};\nstatic uint64_t NAFTable[1024];\nstatic inline uint64_t lookup(int st) { return NAFTable[st]; }\n}\n"), ("c/naf.cpp", "rs = NAFTable[st];", "rs = lookup(st);"))
J = "src/buildzqfield.js"
ref("js-async", "C17 C18 C31",
 (J, "    buildField(q, argv.name).then( (res) => {\n", "    const main = async () => {\n        const res = await buildField(q, argv.name);\n"), (J, "    }).catch( (err) => {\n", "    };\n\n    main().catch( (err) => {\n"))
ref("js-table", "C17 C18 C31",
 (J, "        fs.writeFileSync(asmFileName, res.asm, \"utf8\");\n        fs.writeFileSync(hFileName, res.hpp, \"utf8\");\n        fs.writeFileSync(cFileName, res.cpp, \"utf8\");\n", "        const outputs = new Map([[asmFileName, res.asm], [hFileName, res.hpp], [cFileName, res.cpp]]);\n        for (const [file, text] of outputs) fs.writeFileSync(file, Buffer.from(text, \"utf8\"));\n"))
ref("js-promises", "C17 C18 C31",
 (J, "    buildField(q, argv.name).then( (res) => {\n", "    buildField(q, argv.name).then( async (res) => {\n"), (J, "        fs.writeFileSync(asmFileName, res.asm, \"utf8\");\n        fs.writeFileSync(hFileName, res.hpp, \"utf8\");\n        fs.writeFileSync(cFileName, res.cpp, \"utf8\");\n", "        await fs.promises.writeFile(asmFileName, res.asm, \"utf8\");\n        await fs.promises.writeFile(hFileName, res.hpp, \"utf8\");\n        await fs.promises.writeFile(cFileName, res.cpp);\n"))
ref("js-helper-file", "C17 C18 C31", (J, "        fs.writeFileSync(asmFileName, res.asm, \"utf8\");\n", "        require(\"./save.js\")(asmFileName, res.asm);\n"), new={"src/save.js": "const fs = require('node:fs');\nmodule.exports = function save(name, text) {\n    const fd = fs.openSync(name, 'w');\n    try { fs.writeFileSync(fd, text); } finally { fs.closeSync(fd); }\n};\n"})
ref("new-cpp-file", "C05 C10 C33", ("c/naf.cpp", "static uint64_t NAFTable[1024];\n", "static uint64_t NAFTable[1024];\nint nafState(bool last, unsigned int byte, bool carry);\n"), ("c/naf.cpp", "        st = last ? 1 : 0;\n        if (i<scalarSize) st += scalar[i] & 0xFE;\n", "        st = nafState(last, i<scalarSize ? scalar[i] : 0, false);\n"), new={"c/naf_state.cpp": "int nafState(bool last, unsigned int byte, bool carry) {\n    return (last ? 1 : 0) + (int)(byte & 0xFE) + (carry ? 0x200 : 0);\n}\n"})
CV = "c/curve.cpp"; F2 = "c/f2field.cpp"; W = "c/wtns_utils.cpp"; Z = "c/zkey_utils.cpp"; MB = "src/montgomerybuilder.js"; AB = "src/asmbuilder.js"
ref("pool-inline-when-busy", "C01 C02 C03 C04 C05 C07 C08 C09 C12 C33",
 (M, "    template<typename Func>\n    void submit(Func func) {\n        {\n            std::unique_lock<std::mutex> lock(mutex);\n\n            finished.wait(lock, [this]{return task == nullptr;});\n            task = func;\n        }\n        occupied.notify_one();\n", "    template<typename Func>\n    void submit(Func func) {\n        {\n            std::unique_lock<std::mutex> lock(mutex, std::try_to_lock);\n\n            if (lock.owns_lock() && task == nullptr) {\n                task = func;\n                lock.unlock();\n                occupied.notify_one();\n                return;\n            }\n        }\n        func(); // the worker is busy with another caller's share\n"))
ref("pool-latch", "C01 C02 C03 C04 C05 C07 C09 C12",
 (M, "                task();\n                task = nullptr;\n            }\n            finished.notify_all();\n", "                std::function<void()> job;\n                job.swap(task);\n                running = true;\n                lock.unlock();\n                job();\n                job = nullptr;\n                lock.lock();\n                running = false;\n            }\n            finished.notify_all();\n"),
 (M, "    std::function<void()> task;\n", "    std::function<void()> task;\n    bool running = false;\n"),
 (M, "            finished.wait(lock, [this]{return task == nullptr;});\n            task = func;\n", "            finished.wait(lock, [this]{return !running && task == nullptr;});\n            task = func;\n"),
 (M, "        finished.wait(lock, [this]{return task == nullptr;});\n    }\n};", "        finished.wait(lock, [this]{return !running && task == nullptr;});\n    }\n};"))
ref("curve-add-local", "C05 C06 C08 C10 C11 C19 C24 C30 C33".replace("C24 ", ""),
 (CV, "    // X3 = R^2-PPP-2*Q\n    F.square(p3.x, R);\n    F.sub(p3.x, p3.x, PPP);\n    F.sub(p3.x, p3.x, Q);\n    F.sub(p3.x, p3.x, Q);\n\n    // Y3 = R*(Q-X3)-S1*PPP\n    F.mul(tmp, S1, PPP);\n    F.sub(p3.y, Q, p3.x);\n    F.mul(p3.y, p3.y, R );\n    F.sub(p3.y, p3.y, tmp);\n\n    // ZZ3 = ZZ1*ZZ2*PP\n    F.mul(p3.zz, p1.zz, p2.zz);\n    F.mul(p3.zz, p3.zz, PP);\n    \n    // ZZZ3 = ZZZ1*ZZZ2*PPP\n    F.mul(p3.zzz, p1.zzz, p2.zzz);\n    F.mul(p3.zzz, p3.zzz, PPP);\n\n}",
  "    Point sum;\n    F.mul(sum.zz, PP, p2.zz);\n    F.mul(sum.zz, p1.zz, sum.zz);\n    F.mul(sum.zzz, PPP, p2.zzz);\n    F.mul(sum.zzz, p1.zzz, sum.zzz);\n    F.square(sum.x, R);\n    F.add(tmp, Q, Q);\n    F.add(tmp, tmp, PPP);\n    F.sub(sum.x, sum.x, tmp);\n    F.sub(sum.y, Q, sum.x);\n    F.mul(sum.y, R, sum.y);\n    F.mul(tmp, PPP, S1);\n    F.sub(sum.y, sum.y, tmp);\n    copy(p3, sum);\n}"))
ref("f2-mul-schoolbook", "C05 C06 C10 C19 C30",
 (F2, "    typename BaseField::Element sum1, sum2;\n    F.add(sum1, e1.a, e1.b);\n    F.add(sum2, e2.a, e2.b);\n\n    F.add(r.a, aa, bbr);\n\n    F.mul(r.b, sum1, sum2 );\n    F.sub(r.b, r.b, aa);\n    F.sub(r.b, r.b, bb);\n", "    typename BaseField::Element ab, ba;\n    F.mul(ab, e1.a, e2.b);\n    F.mul(ba, e1.b, e2.a);\n    F.add(r.b, ab, ba);\n    F.add(r.a, bbr, aa);\n"))
ref("header-guard", "C16 C19 C32",
 (W, "std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {\n    std::unique_ptr<Header> h(new Header());\n    f->startReadSection(1);\n\n    try {\n        h->n8 = f->readU32LE();\n        mpz_import(h->prime, h->n8, -1, 1, -1, 0, f->read(h->n8));\n\n        h->nVars = f->readU32LE();\n\n        f->endReadSection();\n    } catch (...) {\n        f->endReadSection(false);\n        throw;\n    }\n\n    return h;\n}", "namespace {\nstruct OpenSection {\n    BinFileUtils::BinFile *f;\n    bool done;\n    OpenSection(BinFileUtils::BinFile *_f, int id) : f(_f), done(false) { f->startReadSection(id); }\n    ~OpenSection() { if (!done) f->endReadSection(false); }\n    void finish() { f->endReadSection(); done = true; }\n};\n}\n\nstd::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {\n    OpenSection section(f, 1);\n    auto h = std::unique_ptr<Header>(new Header());\n\n    h->n8 = f->readU32LE();\n    const void *prime = f->read(h->n8);\n    h->nVars = f->readU32LE();\n    mpz_import(h->prime, h->n8, -1, 1, -1, 0, prime);\n    section.finish();\n\n    return h;\n}"),
 (Z, "        u_int64_t n8q = h->n8q;\n        h->vk_alpha1 = f->read(n8q*2);\n        h->vk_beta1 = f->read(n8q*2);\n        h->vk_beta2 = f->read(n8q*4);\n        h->vk_gamma2 = f->read(n8q*4);\n        h->vk_delta1 = f->read(n8q*2);\n        h->vk_delta2 = f->read(n8q*4);\n", "        const u_int64_t g1Size = (u_int64_t)h->n8q*2;\n        const u_int64_t g2Size = g1Size*2;\n        uint8_t *vk = (uint8_t *)f->read(3*g1Size + 3*g2Size);\n        h->vk_alpha1 = vk;\n        h->vk_beta1 = vk + g1Size;\n        h->vk_beta2 = vk + 2*g1Size;\n        h->vk_gamma2 = vk + 2*g1Size + g2Size;\n        h->vk_delta1 = vk + 2*g1Size + 2*g2Size;\n        h->vk_delta2 = vk + 3*g1Size + 2*g2Size;\n"))
ref("asm-other-registers", "C05 C07 C10 C17 C18 C28 C30 C31",
 (AB, "[\"rax\", \"r8\", \"r9\", \"r10\", \"r11\"]", "[\"r11\", \"rax\", \"r9\", \"r8\", \"r10\"]"), (AB, "[\"r12\", \"r13\", \"r14\", \"r15\", \"rbp\", \"rbx\"]", "[\"rbx\", \"r15\", \"r13\", \"r14\", \"r12\", \"rbp\"]"))
ref("asm-xor-first", "C05 C10 C17 C28 C30",
 (MB, "    c.op(\"mov\",\"rcx\",\"rdx\");   // rdx is needed for multiplications so keep it in cx\n", ""), (MB, "    c.op(\"xor\", 3, 3);\n", "    c.op(\"mov\",\"rcx\",\"rdx\");   // rdx is needed for multiplications so keep it in cx\n    c.op(\"xor\", 3, 3);\n"))
ref("asm-loop-helper", "C05 C10 C17 C28 C30 C31",
 (MB, "    for (let i=0; i<n64; i++) {\n        c.op(\"mov\" ,  `[rdi + ${i*8}]`, t+i);\n    }\n\n    return c.getCode();", "    storeResult(c, params);\n\n    return c.getCode();"), (MB, "function templateMontgomery(", "function storeResult(c, {n64, t}) {\n    for (let i=n64-1; i>=0; i--) {\n        c.op(\"mov\" ,  `[rdi + ${i*8}]`, t+i);\n    }\n}\n\nfunction templateMontgomery("))
ref("multi-render-parallel", "C17 C18 C31",
 (J, "    let asm = await renderFile(path.join(__dirname, \"fr.asm.ejs\"), builder);\n    const cpp = await renderFile(path.join(__dirname, \"fr.cpp.ejs\"), builder);\n    const hpp = await renderFile(path.join(__dirname, \"fr.hpp.ejs\"), builder);\n", "    const asm = await renderFile(path.join(__dirname, \"fr.asm.ejs\"), builder);\n    const [cpp, hpp] = await Promise.all([\"fr.cpp.ejs\", \"fr.hpp.ejs\"].map((f) => renderFile(path.join(__dirname, f), builder)));\n"))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for n in sys.argv[1:] or sorted(F):
    props, edits, new = F[n]; shutil.rmtree(S, ignore_errors=True); shutil.copytree("/repo", S, symlinks=True)
    for f, a, b in edits:
        t = open(S + "/" + f).read()
        if a == "@@CLASS@@":
            a = "    void startReadSection("; i = t.index(a); t = t[:i] + "    Section &findSection(u_int32_t sectionId, u_int32_t sectionPos);\n" + t[i:]; open(S + "/" + f, "w").write(t); continue
        if t.count(a) != 1: sys.exit("%s: text found %d times in %s:\n%s" % (n, t.count(a), f, a))
        open(S + "/" + f, "w").write(t.replace(a, b))
    for f, t in new.items(): open(S + "/" + f, "w").write(t)
    out = []
    for p in props:
        r = sh("FFIASM_REPO=%s timeout 900 python3 %s/check.py %s" % (S, V, p))
        if r.returncode: out.append("%s exit=%d %s" % (p, r.returncode, r.stdout[-700:]))
    print("%-26s %s" % (n, "quiet: " + " ".join(props) if not out else "ALARM\n   " + "\n   ".join(out)), flush=True)
shutil.rmtree(S, ignore_errors=True)
