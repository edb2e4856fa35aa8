// Stand-in for a header the repository refers to but does not contain: copies a block with several threads.
#pragma once
#include <cstdint>
#include <cstring>
#include <exception>
#include <thread>
#include <vector>
namespace ThreadUtils {
inline void parcpy(void *dst, const void *src, uint64_t size, int nThreads) {
    if (nThreads < 1) nThreads = 1;
    const uint64_t part = size / nThreads; std::vector<std::thread> th; std::exception_ptr err;
    try { th.reserve(nThreads - 1); for (int i = 0; i < nThreads - 1; i++) th.emplace_back([=] { memcpy((char *)dst + part * i, (const char *)src + part * i, part); }); }
    catch (...) { err = std::current_exception(); }
    if (!err) memcpy((char *)dst + part * (nThreads - 1), (const char *)src + part * (nThreads - 1), size - part * (nThreads - 1));
    for (auto &t : th) t.join();
    if (err) std::rethrow_exception(err);
}
}
