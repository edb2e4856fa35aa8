#include "binmodel.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
namespace bm {
void put32(std::vector<u8> &v, u32 x) { for (int i = 0; i < 4; i++) v.push_back((u8)(x >> (8 * i))); }
void put64(std::vector<u8> &v, u64 x) { for (int i = 0; i < 8; i++) v.push_back((u8)(x >> (8 * i))); }
static u64 get(const std::vector<u8> &d, u64 p, int n) { u64 x = 0; for (int i = 0; i < n; i++) x |= (u64)d[p + i] << (8 * i); return x; }
void begin(Img &o, const char *type, u32 v, u32 mv) { o.d.clear(); o.s.clear(); o.sizeat.clear(); memcpy(o.type, type, 4); o.type[4] = 0; o.version = v; o.maxv = mv; for (int i = 0; i < 4; i++) o.d.push_back((u8)type[i]); put32(o.d, v); put32(o.d, 0); o.ok = true; o.trailing = false; }
void add(Img &o, u32 id, const std::vector<u8> &b) {
    put32(o.d, id); o.sizeat.push_back(o.d.size()); put64(o.d, b.size()); o.s.push_back({id, o.d.size(), b.size()}); o.d.insert(o.d.end(), b.begin(), b.end());
    u32 n = (u32)o.s.size(); for (int i = 0; i < 4; i++) o.d[8 + i] = (u8)(n >> (8 * i));
}
void build(sim::Rng &r, Img &o, int style) {
    static const char *ty[] = {"zkey", "wtns", "r1cs", "\0\0\0\0", "ab\0c"}; u32 mv = r.chance(1, 5) ? 0xffffffff : (u32)r.below(4); u32 v = mv ? (u32)r.below((u64)mv + 1) : 0; if (r.chance(1, 3)) v = mv;
    begin(o, ty[r.chance(3, 4) ? r.below(2) : r.below(5)], v, mv);
    static const u32 ids[] = {0, 1, 2, 3, 4, 10, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu};
    int n = r.chance(1, 12) ? 0 : 1 + (int)r.below(r.chance(1, 6) ? 24 : 6); u32 fav = ids[r.below(10)];
    for (int i = 0; i < n; i++) {
        u32 id = r.chance(1, 3) ? fav : r.chance(3, 4) ? ids[r.below(10)] : (u32)r.next(); u64 sz = r.chance(1, 5) ? 0 : r.chance(1, 10) ? 4096 - 8 + r.below(16) : r.chance(1, 30) ? 9000 + r.below(9000) : 1 + r.below(60);
        std::vector<u8> b(sz); for (auto &x : b) x = (u8)r.next(); add(o, id, b);
    }
    (void)style;
}
void parse(const std::vector<u8> &d, const char *type, u32 mv, Img &o) {
    o.s.clear(); o.ok = false; o.trailing = false; memcpy(o.type, type, 4); o.type[4] = 0; o.maxv = mv;
    if (d.size() < 12 || memcmp(&d[0], type, 4)) return;
    o.version = (u32)get(d, 4, 4); if (o.version > mv) return;
    u64 p = 12, n = get(d, 8, 4);
    for (u64 i = 0; i < n; i++) {
        if (d.size() - p < 12) { o.s.clear(); return; }
        u32 id = (u32)get(d, p, 4); u64 sz = get(d, p + 4, 8); p += 12;
        if (sz > d.size() - p) { o.s.clear(); return; }
        o.s.push_back({id, p, sz}); p += sz;
    }
    o.ok = true; o.trailing = p != d.size();
}
static void poke(Img &o, u64 at, u64 v, int n) { for (int i = 0; i < n && at + i < o.d.size(); i++) o.d[at + i] = (u8)(v >> (8 * i)); }
void corrupt(sim::Rng &r, Img &o, int kind) {
    u64 n = o.d.size();
    switch (kind) {
    case 0: { u64 at; switch (r.below(5)) { case 0: at = r.below(n < 24 ? n : 24); break; case 1: at = n - 1 - r.below(n < 12 ? n : 12); break; case 2: at = o.s.empty() ? r.below(n) : o.s[r.below(o.s.size())].off; break;
              case 3: at = o.sizeat.empty() ? 0 : o.sizeat[r.below(o.sizeat.size())] + r.below(12) - 4; break; default: at = r.below(n); } if (at >= n) at = n - 1; o.d.resize(at); break; }
    case 1: { int k = 1 + (int)r.below(4); while (k--) { u64 at = r.below(n); if (r.chance(2, 3)) at = o.sizeat.empty() || r.chance(1, 4) ? r.below(n < 12 ? n : 12) : o.sizeat[r.below(o.sizeat.size())] + r.below(8); if (at < n) o.d[at] ^= (u8)(1 << r.below(8)); } break; }
    case 2: { u64 pg = r.chance(1, 2) ? 512 : 4096, a = r.below(n / pg + 1) * pg, e = a + pg; if (r.chance(1, 4)) { a = r.below(n); e = a + 1 + r.below(64); } for (u64 i = a; i < e && i < n; i++) o.d[i] = 0; break; }
    case 3: { static const u64 big[] = {~0ull, ~0ull - 11, 1ull << 63, (1ull << 63) - 1, 1ull << 32, 0xffffffffull, 0x80000000ull}; u64 at = o.sizeat.empty() ? 8 : o.sizeat[r.below(o.sizeat.size())]; u64 v;
              switch (r.below(6)) { case 0: case 1: v = big[r.below(7)]; break; case 2: v = n; break; case 3: v = n - (at + 8) + 1 + r.below(3); break; case 4: v = (u64)0 - (at + 8) + r.below(n); break; default: v = r.next(); } 
              if (r.chance(1, 4)) { static const u32 cnt[] = {0xffffffffu, 0x80000000u, 0x7fffffffu, 100, 1000000}; u32 c = r.chance(1, 2) ? cnt[r.below(5)] : (u32)o.s.size() + 1; poke(o, 8, c, 4); if (r.chance(1, 2)) break; }
              if (!o.sizeat.empty()) poke(o, at, v, 8); break; }
    case 4: { int k = (int)r.below(3); if (k == 0) o.d[r.below(4)] ^= (u8)(1 + r.below(255)); else if (k == 1 && o.maxv != 0xffffffff) poke(o, 4, (u64)o.maxv + 1 + (r.chance(1, 2) ? 0 : r.below(0xffffffffu - o.maxv)), 4); else { o.d.resize(r.below(12)); } break; }
    case 5: { o.d.resize(r.below(200)); for (auto &x : o.d) x = (u8)r.next(); if (r.chance(1, 2)) for (u64 i = 0; i < 4 && i < o.d.size(); i++) o.d[i] = (u8)o.type[i]; if (r.chance(1, 2)) poke(o, 4, 0, 4); if (r.chance(1, 2)) poke(o, 8, r.below(6), 4); break; }
    default: { u64 k = 1 + r.below(20); while (k--) o.d.push_back((u8)r.next()); break; }
    }
}
static char pth[64], dir_[64];
const char *path() {
    if (!pth[0]) { struct stat sb; bool shm = stat("/dev/shm", &sb) == 0 && access("/dev/shm", W_OK) == 0; snprintf(dir_, sizeof dir_, "%s/ffisim-%010d", shm ? "/dev/shm" : "/tmp", (int)getppid()); mkdir(dir_, 0700); snprintf(pth, sizeof pth, "%s/f", dir_); }
    return pth;
}
void write_file(const std::vector<u8> &d) { int fd = open(path(), O_WRONLY | O_CREAT | O_TRUNC, 0600); u64 o = 0; while (o < d.size()) { ssize_t k = write(fd, d.data() + o, d.size() - o); if (k <= 0) abort(); o += (u64)k; } close(fd); }
void mutate_file(sim::Rng &r, int how, u64 n) {
    int fd;
    switch (how) {
    case 0: fd = open(path(), O_WRONLY); { std::vector<u8> z(n, 0xEE); (void)!write(fd, z.data(), n); } close(fd); break;
    case 1: (void)!truncate(path(), (off_t)r.below(n + 1)); break;
    case 2: unlink(path()); break;
    case 3: { char t[80]; snprintf(t, sizeof t, "%s2", path()); fd = open(t, O_WRONLY | O_CREAT | O_TRUNC, 0600); (void)!write(fd, "garbage", 7); close(fd); rename(t, path()); break; }
    default: (void)!truncate(path(), 0); break;
    }
}
void patch_file(const u8 *d, u64 n, u64 at, u64 end) { if (at >= end) return; if (n > end - at) n = end - at; int fd = open(path(), O_WRONLY); if (fd < 0) return; (void)!pwrite(fd, d, n, (off_t)at); close(fd); }
void replace_file(const std::vector<u8> &d) { char t[80]; snprintf(t, sizeof t, "%s2", path()); int fd = open(t, O_WRONLY | O_CREAT | O_TRUNC, 0600); (void)!write(fd, d.data(), d.size()); close(fd); rename(t, path()); }
void remove_file() { unlink(path()); rmdir(dir_); }
}
