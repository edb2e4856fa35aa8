// Scenarios on the container reader and the header loaders.
#include "binmodel.h"
#include "oracle.h"
#include <sys/types.h>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <stdexcept>
#include <memory>
#include <omp.h>
#include <thread>
#include <sys/stat.h>
#include <unistd.h>
#include "binfile_utils.hpp"
#include "wtns_utils.hpp"
#include "zkey_utils.hpp"
using sim::Params; using sim::Rng; using sim::i64; using sim::u64; using sim::u32; using sim::u8;
using BinFileUtils::BinFile;
typedef std::unique_ptr<BinFile> BF;

// runs f; true if it ended in an exception (thrown by value or, as this code base does, by pointer)
template <class F> static bool fails(F f) {
    try { f(); return false; } catch (std::exception *e) { delete e; return true; } catch (std::exception &) { return true; }
}
static BF open_img(const bm::Img &m, bool file, u8 *buf) {
    std::string type; { type.assign(m.type, 4); }
    if (file) return BinFileUtils::openExisting(bm::path(), type, m.maxv);
    return BF(new BinFile(buf, m.d.size(), type, m.maxv));
}
static u8 *mem_copy(const bm::Img &m) { sim::Quiet q; u8 *b = new u8[m.d.size()]; if (m.d.size()) memcpy(b, m.d.data(), m.d.size()); return b; }
static bool same(const void *p, const bm::Img &m, u64 off, u64 n) { sim::check_read(p, n); sim::Quiet q; return n == 0 || !memcmp(p, m.d.data() + off, n); }
static void drop(u8 *b) { sim::Quiet q; delete[] b; }

// every section through random access, absent ones refused
static void verify_random(BinFile &f, const bm::Img &m) {
    for (size_t i = 0; i < m.s.size(); i++) {
        u32 k = 0, tot = 0; { sim::Quiet q; for (size_t j = 0; j < m.s.size(); j++) if (m.s[j].id == m.s[i].id) { if (j < i) k++; tot++; } }
        u64 sz = 0; void *p = 0;
        if (fails([&] { sz = f.getSectionSize(m.s[i].id, k); p = f.getSectionData(m.s[i].id, k); })) sim::viol("section-missing", "section %u (number %u) is not accessible", m.s[i].id, k);
        if (sz != m.s[i].size) sim::viol("wrong-section", "section %u (number %u) has size %llu instead of %llu", m.s[i].id, k, (unsigned long long)sz, (unsigned long long)m.s[i].size);
        if (!same(p, m, m.s[i].off, sz)) sim::viol("wrong-section", "section %u (number %u) has wrong contents", m.s[i].id, k);
        if (k + 1 == tot) {
            if (!fails([&] { f.getSectionData(m.s[i].id, tot); }) || !fails([&] { f.getSectionSize(m.s[i].id, tot); }) || !fails([&] { f.startReadSection(m.s[i].id, tot); })) sim::viol("extra-section", "section %u has more instances than the file", m.s[i].id);
        }
    }
    static const u32 probe[] = {0, 1, 5, 0x7fffffff, 0x80000000u, 0xffffffffu, 77777};
    for (u32 id : probe) { bool in = false; { sim::Quiet q; for (auto &s : m.s) in |= s.id == id; } if (in) continue;
        if (!fails([&] { f.getSectionData(id); }) || !fails([&] { f.getSectionSize(id); }) || !fails([&] { f.startReadSection(id); })) sim::viol("extra-section", "section %u is not in the file but accessible", id); }
}
// one section through sequential reads
static void verify_seq(BinFile &f, const bm::Img &m, size_t i, u64 seed) {
    Rng r(seed); u32 k = 0; { sim::Quiet q; for (size_t j = 0; j < i; j++) if (m.s[j].id == m.s[i].id) k++; }
    u64 off = m.s[i].off, left = m.s[i].size; bool other = r.chance(1, 2), early = r.chance(1, 3);
    if (fails([&] { f.startReadSection(m.s[i].id, k); })) sim::viol("section-missing", "section %u cannot be opened for reading", m.s[i].id);
    while (left) {
        if (other && r.chance(1, 4)) { other = false; size_t o = r.below(m.s.size()); if (!fails([&] { f.startReadSection(m.s[o].id); })) sim::viol("not-refused", "a second section could be opened while one is open"); }
        if (early && r.chance(1, 4)) { early = false; if (!fails([&] { f.endReadSection(); })) sim::viol("not-refused", "a section could be closed before it was fully read"); }
        u64 want = 0; int op = (int)r.below(3); if (op == 0 && left < 4) op = 2; if (op == 1 && left < 8) op = 2;
        if (op < 2) { sim::Quiet q; for (int b = 0; b < (op ? 8 : 4); b++) want |= (u64)m.d[off + b] << (8 * b); }
        bool bad = false;
        if (op == 0) { if (fails([&] { bad = f.readU32LE() != (u32)want; })) bad = true; off += 4; left -= 4; }
        else if (op == 1) { if (fails([&] { bad = f.readU64LE() != want; })) bad = true; off += 8; left -= 8; }
        else { u64 n = r.chance(1, 3) ? left : r.below(left < 50 ? left + 1 : 50); void *p = 0; if (fails([&] { p = f.read(n); })) bad = true; else bad = !same(p, m, off, n); off += n; left -= n; }
        if (bad) sim::viol("wrong-read", "sequential reading returned something else than the section's bytes");
    }
    if (fails([&] { f.endReadSection(); })) sim::viol("wrong-close", "a fully read section cannot be closed");
}

// ---- C13
static void gen_open(Rng &r, Params &p, int) { p.set("file", r.below(2)); p.set("omp", 1 + r.below(r.chance(1, 3) ? 16 : 5), 1); p.set("ops", r.below(7), 0); p.set("openers", r.chance(1, 4) ? 2 : 1, 1); p.set("cseed", (i64)(r.next() >> 1)); p.set("gapmin", 1); }
static void run_open(const Params &p) {
    omp_set_num_threads((int)p["omp"]); bm::Img m; u8 *buf = 0; Rng r(p["cseed"]);
    { sim::Quiet q; bm::build(r, m, 0); if (p["file"]) bm::write_file(m.d); } if (!p["file"]) buf = mem_copy(m);
    { try { throw std::runtime_error("x"); } catch (std::exception &) {} }
    u64 mark = sim::alloc_mark();
    {
        BF f, g; std::unique_ptr<std::thread> th;
        if (p["openers"] == 2) th.reset(new std::thread([&] { if (fails([&] { g = open_img(m, p["file"], buf); })) sim::viol("refused", "a well-formed container was refused"); }));
        if (fails([&] { f = open_img(m, p["file"], buf); })) sim::viol("refused", "a well-formed container was refused");
        if (th) { th->join(); th.reset(); }
        if (sim::fds_open() || sim::maps_open()) { /* may be kept by the object; checked after destruction */ }
        for (int i = 0; i <= p["ops"]; i++) {
            int op = (int)r.below(4); if (i == p["ops"]) op = 3;
            if (op == 0) verify_random(*f, m);
            else if (op == 1 && m.s.size()) verify_seq(*f, m, r.below(m.s.size()), r.next());
            else if (op == 2) { sim::note_fault(sim::F_MUTATE); sim::Quiet q; if (p["file"]) bm::mutate_file(r, (int)r.below(5), m.d.size()); else if (buf) { if (r.chance(1, 2)) { memset(buf, (int)r.next(), m.d.size()); } else { delete[] buf; buf = 0; } } }
            else if (op == 3) { verify_random(*f, m); for (size_t k = 0; k < m.s.size() && k < 6; k++) verify_seq(*f, m, r.below(m.s.size()), r.next()); if (g) verify_random(*g, m); }
        }
    }
    u64 b; if (sim::leaked(mark, &b)) sim::viol("leak", "%llu bytes are still allocated after the container was destroyed", (unsigned long long)b);
    if (sim::fds_open()) sim::viol("fd-left", "a descriptor is still open after the container was destroyed");
    if (sim::maps_open()) sim::viol("map-left", "a mapping is left after the container was destroyed");
    drop(buf); { sim::Quiet q; bm::remove_file(); }
}
static sim::Scenario s_open("bin_open", gen_open, run_open);

static void nothing_left(u64 mark, const char *when) {
    u64 b, n = sim::leaked(mark, &b); if (n) sim::viol("leak", "%llu blocks (%llu bytes) are still allocated after %s", (unsigned long long)n, (unsigned long long)b, when);
    if (sim::fds_open()) sim::viol("fd-left", "a descriptor is still open after %s", when);
    if (sim::maps_open()) sim::viol("map-left", "a mapping is left after %s", when);
    if (sim::live_threads() > 1) sim::viol("thread-left", "a thread is still running after %s", when);
}
// ---- C14
static void gen_torn(Rng &r, Params &p, int) { p.set("file", r.below(2)); p.set("omp", 1 + r.below(6), 1); p.set("kind", r.below(7)); p.set("more", r.chance(1, 6), 0); p.set("cseed", (i64)(r.next() >> 1)); }
static void run_torn(const Params &p) {
    omp_set_num_threads((int)p["omp"]); bm::Img m; u8 *buf = 0; Rng r(p["cseed"]); int kind = (int)p["kind"];
    { static const sim::Fault fk[] = {sim::F_TORN, sim::F_BITFLIP, sim::F_ZEROPAGE, sim::F_HOSTILE, sim::F_HOSTILE, sim::F_HOSTILE, sim::F_TORN}; sim::note_fault(fk[kind]); }
    { sim::Quiet q; bm::build(r, m, 0); bm::corrupt(r, m, kind); if (p["more"] && m.d.size()) bm::corrupt(r, m, m.d.size() > 12 ? (int)r.below(4) : 6); std::vector<u8> d = m.d; bm::parse(d, m.type, m.maxv, m); if (p["file"]) bm::write_file(m.d); }
    if (!p["file"]) buf = mem_copy(m);
    { try { throw std::runtime_error("x"); } catch (std::exception &) {} }
    u64 mark = sim::alloc_mark();
    {
        BF f; bool refused = fails([&] { f = open_img(m, p["file"], buf); });
        if (!refused && !m.ok) sim::viol("corrupt-accepted", "a corrupt container of %llu bytes was accepted", (unsigned long long)m.d.size());
        if (refused && m.ok && !m.trailing) sim::viol("refused", "a container that is still well-formed was refused");
        if (!refused) { verify_random(*f, m); for (size_t k = 0; k < m.s.size() && k < 4; k++) verify_seq(*f, m, r.below(m.s.size()), r.next()); }
    }
    nothing_left(mark, "a refused or closed container");
    drop(buf); { sim::Quiet q; bm::remove_file(); }
}
static sim::Scenario s_torn("bin_torn", gen_torn, run_torn);

// ---- C15
static void gen_fail(Rng &r, Params &p, int) { p.set("omp", 1 + r.below(10), 1); p.set("kind", r.below(8)); p.set("k", r.below(r.chance(1, 2) ? 4 : 24), 0); p.set("err", r.below(8)); p.set("cseed", (i64)(r.next() >> 1)); p.set("file", r.chance(4, 5)); p.set("damaged", r.chance(1, 5), 0); p.set("lasting", r.chance(1, 3), 0); }
static void run_fail(const Params &p) {
    static const int errs[] = {ENOMEM, EACCES, EMFILE, ENFILE, EIO, EINTR, EAGAIN, EPERM};
    omp_set_num_threads((int)p["omp"]); bm::Img m; Rng r(p["cseed"]); int kind = (int)p["kind"], e = errs[p["err"]]; bool file = p["file"] || kind < 3 || kind > 4; int last = p["lasting"] && e != EINTR && e != EAGAIN ? 0x20000 : 0;   // the fault stays
    { sim::Quiet q; bm::build(r, m, 0); if (p["damaged"]) { bm::corrupt(r, m, (int)r.below(4)); std::vector<u8> d = m.d; bm::parse(d, m.type, m.maxv, m); } bm::write_file(m.d); }
    u8 *buf = mem_copy(m);
    { try { throw std::runtime_error("x"); } catch (std::exception &) {} try { throw std::bad_alloc(); } catch (std::exception &) {} }
    u64 mark = sim::alloc_mark();
    static const sim::Fault fk[] = {sim::F_OPEN, sim::F_FSTAT, sim::F_MMAP, sim::F_ALLOC, sim::F_CREATE, sim::F_READ, sim::F_MISSING, sim::F_MISSING};
    for (int a = 0; a < 2; a++) {
        BF f; bool refused; sim::Fault ft = fk[kind]; bool gone = false;
        if (a == 0) {
            if (kind == 5) sim::arm(ft, p["err"] < 6 && m.d.size() > 100 ? p["k"] : 0, (p["err"] < 3 ? 0 : e) | (p["k"] > 0 ? 0x10000 : 0) | (p["err"] < 3 ? 0 : last));
            else if (kind < 5) sim::arm(ft, kind == 3 || kind == 4 ? p["k"] : 0, e | last);
            else { sim::note_fault(ft); gone = true; sim::Quiet q; bm::remove_file(); if (kind == 7) { mkdir(std::string(bm::path()).substr(0, std::string(bm::path()).size() - 2).c_str(), 0700); mkdir(bm::path(), 0700); } }
        }
        refused = fails([&] { f = open_img(m, file, buf); });
        bool hit = a == 0 && (kind == 5 ? sim::occurrences(ft) > 0 : kind < 5 ? sim::fired(ft) : gone);   // a short read may be refused, too
        if (kind <= 5) sim::arm(ft, -1);
        if (refused && !hit && m.ok && !m.trailing) sim::viol("refused", "opening failed without a fault");
        if (!refused && !m.ok) sim::viol("corrupt-accepted", "a corrupt container was accepted");
        if (!refused && gone) sim::viol("missing-accepted", "opening succeeded without a file");
        if (!refused) verify_random(*f, m);
        f.reset();
        nothing_left(mark, refused ? "a failed open" : "closing");
        if (gone) { sim::Quiet q; if (kind == 7) { rmdir(bm::path()); } std::string d(bm::path()); mkdir(d.substr(0, d.size() - 2).c_str(), 0700); bm::write_file(m.d); }
    }
    drop(buf); { sim::Quiet q; bm::remove_file(); }
}
static sim::Scenario s_fail("bin_fail", gen_fail, run_fail);

// ---- C16: header loading
static void put_num(std::vector<u8> &v, Rng &r, u64 n, bool plain) { for (u64 i = 0; i < n; i++) v.push_back(plain ? (u8)r.next() : (u8)(r.chance(1, 4) ? 0 : r.next())); }
static bool mpz_is(const mpz_t z, const u8 *d, u64 n) { sim::Quiet q; mpz_t t; mpz_init(t); for (u64 i = n; i-- > 0;) { mpz_mul_2exp(t, t, 8); mpz_add_ui(t, t, d[i]); } bool r = mpz_cmp(t, z) == 0; mpz_clear(t); return r; }
static void gen_hdr(Rng &r, Params &p, int) { p.set("zkey", r.below(2)); p.set("bad", r.chance(2, 3) ? r.below(12) : -1); p.set("omp", 1 + r.below(4), 1); p.set("open", r.chance(1, 5), 0); p.set("k", r.chance(1, 4) ? (i64)r.below(12) : -1); p.set("cseed", (i64)(r.next() >> 1)); }
static void run_hdr(const Params &p) {
    omp_set_num_threads((int)p["omp"]); oracle::gmp_setup(); Rng r(p["cseed"]); bm::Img m; int bad = (int)p["bad"]; bool zk = p["zkey"], expect_fail = false; u8 *buf;
    u32 n8 = 0, nq = 0, nr = 0, v1 = 0, v2 = 0, v3 = 0; u64 poff = 0, qoff = 0, roff = 0, vk = 0; u64 ncoef = 0; int sec1 = -1, sec2 = -1, sec4 = -1, extra = -1;
    { sim::Quiet q; std::vector<u8> b; bm::begin(m, zk ? "zkey" : "wtns", 1, 1);
      v1 = (u32)r.next(); v2 = (u32)r.next(); v3 = (u32)r.next();
      auto filler = [&] { std::vector<u8> x; put_num(x, r, r.below(40), true); extra = (int)m.s.size(); bm::add(m, 100 + (u32)r.below(5), x); };
      if (r.chance(1, 2)) filler();
      auto hostile = [&](u32 n) -> u32 { static const u32 h[] = {0xffffffffu, 0x80000000u, 0x7fffffffu, 0x40000000u, 0x20000000u, 0xfffffff4u}; return bad == 3 ? h[r.below(6)] : bad == 4 ? n + 1 + (u32)r.below(20000) : n; };
      if (!zk) {
          n8 = r.chance(1, 3) ? (u32)r.below(70) : 32; bm::put32(b, hostile(n8)); poff = b.size(); put_num(b, r, n8, false); bm::put32(b, v1);
          if (bad == 3 || bad == 4) expect_fail = true;
          if (bad == 0) expect_fail = true;                                                          // no section 1
          else { if (bad == 1) { u64 cut = 1 + r.below(b.size()); b.resize(b.size() - cut); expect_fail = true; } if (bad == 2) { put_num(b, r, 1 + r.below(9), true); expect_fail = true; }
                 sec1 = (int)m.s.size(); bm::add(m, 1, b); poff += m.s[sec1].off; }
          if (r.chance(2, 3)) { std::vector<u8> w; put_num(w, r, r.below(200), true); bm::add(m, 2, w); if (extra < 0) extra = (int)m.s.size() - 1; }
      } else {
          std::vector<u8> c; u32 proto = bad == 5 ? (r.chance(1, 2) ? 2 : (u32)r.next() | 2) : 1; if (proto != 1) expect_fail = true; bm::put32(c, proto);
          if (bad == 6) { c.resize(r.below(4)); expect_fail = true; } if (bad == 7) { put_num(c, r, 1 + r.below(5), true); expect_fail = true; }
          if (bad == 0) expect_fail = true; else { sec1 = (int)m.s.size(); bm::add(m, 1, c); }
          if (r.chance(1, 3)) filler();
          bool hq = r.chance(1, 2); nq = r.chance(1, 3) ? (u32)r.below(50) : 32; nr = r.chance(1, 3) ? (u32)r.below(50) : 32;
          bm::put32(b, hq ? hostile(nq) : nq); qoff = b.size(); put_num(b, r, nq, false); bm::put32(b, hq ? nr : hostile(nr)); roff = b.size(); put_num(b, r, nr, false); bm::put32(b, v1); bm::put32(b, v2); bm::put32(b, v3); vk = b.size(); put_num(b, r, (u64)nq * 18, true);
          if (bad == 3 || bad == 4) expect_fail = true;
          if (bad == 8) expect_fail = true;
          else { if (bad == 1) { u64 cut = 1 + r.below(b.size()); if (r.chance(1, 2) && nq) cut = 1 + r.below((u64)nq * 18); b.resize(b.size() - cut); expect_fail = true; } if (bad == 2) { put_num(b, r, 1 + r.below(9), true); expect_fail = true; }
                 sec2 = (int)m.s.size(); bm::add(m, 2, b); qoff += m.s[sec2].off; roff += m.s[sec2].off; vk += m.s[sec2].off; }
          std::vector<u8> w; put_num(w, r, r.below(400), true); if (bad == 9) expect_fail = true; else { sec4 = (int)m.s.size(); bm::add(m, 4, w); } ncoef = w.size() / (12 + (u64)nr);
          if (r.chance(1, 3)) filler();
      } }
    if (expect_fail) sim::note_fault(bad == 3 || bad == 4 ? sim::F_HOSTILE : sim::F_TORN);
    buf = mem_copy(m); { try { throw std::runtime_error("x"); } catch (std::exception &) {} try { throw std::bad_alloc(); } catch (std::exception &) {} try { throw std::invalid_argument("zkey"); } catch (std::exception &) {} }
    u64 mark0 = sim::alloc_mark(); BF f; if (extra >= 0) for (int i = 0; i <= extra; i++) if (m.s[i].id == m.s[extra].id) { extra = i; break; }
    if (fails([&] { f = open_img(m, false, buf); })) sim::viol("refused", "a well-formed container was refused");
    bool userOpen = false; if (p["open"] && extra >= 0) { f->startReadSection(m.s[extra].id); userOpen = true; }
    u64 mark = sim::alloc_mark();
    for (int a = 0; a < 2; a++) {
        std::unique_ptr<WtnsUtils::Header> w; std::unique_ptr<ZKeyUtils::Header> z; bool ef = expect_fail || (a == 0 && userOpen);
        if (a == 0) sim::arm(sim::F_ALLOC, p["k"]);
        bool refused = fails([&] { if (zk) z = ZKeyUtils::loadHeader(f.get()); else w = WtnsUtils::loadHeader(f.get()); });
        bool hit = a == 0 && sim::fired(sim::F_ALLOC); sim::arm(sim::F_ALLOC, -1);
        if (!refused && ef) sim::viol("header-accepted", "a header that is missing, short, too long, hostile or of another protocol was accepted");
        if (refused && !ef && !hit) sim::viol("header-refused", "a well-formed header was refused");
        if (!refused && w) {
            if (w->n8 != n8 || w->nVars != v1 || !mpz_is(w->prime, m.d.data() + poff, n8)) sim::viol("wrong-header", "the witness header differs from the file");
        } else if (!refused && z) {
            bool ok = z->n8q == nq && z->n8r == nr && z->nVars == v1 && z->nPublic == v2 && z->domainSize == v3 && z->nCoefs == ncoef && mpz_is(z->qPrime, m.d.data() + qoff, nq) && mpz_is(z->rPrime, m.d.data() + roff, nr);
            u64 o = vk; void *pp[] = {z->vk_alpha1, z->vk_beta1, z->vk_beta2, z->vk_gamma2, z->vk_delta1, z->vk_delta2}; static const int mul[] = {2, 2, 4, 4, 2, 4};
            for (int i = 0; ok && i < 6; i++) { ok = same(pp[i], m, o, (u64)nq * mul[i]); o += (u64)nq * mul[i]; }
            if (!ok) sim::viol("wrong-header", "the zkey header differs from the file");
        }
        w.reset(); z.reset();
        u64 b, n = sim::leaked(mark, &b); if (n) sim::viol("leak", "%llu blocks (%llu bytes) are still allocated after loading a header %s", (unsigned long long)n, (unsigned long long)b, refused ? "failed" : "and destroying it");
        if (a == 0 && userOpen) {    // the caller's own session must have survived
            if (!fails([&] { f->startReadSection(m.s[extra].id); })) sim::viol("session-lost", "a header load that was refused closed the section its caller was reading");
            u64 sz = m.s[extra].size; if (!same(f->read(sz), m, m.s[extra].off, sz)) sim::viol("session-lost", "a refused header load moved the caller's read position");
            if (fails([&] { f->endReadSection(); })) sim::viol("session-lost", "the caller's section cannot be closed after a refused header load");
        }
        verify_random(*f, m); for (size_t k = 0; k < m.s.size() && k < 3; k++) verify_seq(*f, m, r.below(m.s.size()), r.next());
    }
    f.reset(); nothing_left(mark0, "closing");
    drop(buf); (void)sec1; (void)sec4;
}
static sim::Scenario s_hdr("bin_header", gen_hdr, run_hdr);

// ---- C16: sequential reading, also past the end of the section
static void gen_read(Rng &r, Params &p, int) { p.set("file", r.chance(1, 4)); p.set("omp", 1 + r.below(4), 1); p.set("ops", 1 + r.below(25), 1); p.set("cseed", (i64)(r.next() >> 1)); }
static void run_read(const Params &p) {
    omp_set_num_threads((int)p["omp"]); Rng r(p["cseed"]); bm::Img m; u8 *buf = 0;
    { sim::Quiet q; do bm::build(r, m, 0); while (m.s.empty()); if (p["file"]) bm::write_file(m.d); } buf = mem_copy(m);
    { BF f; if (fails([&] { f = open_img(m, p["file"], buf); })) sim::viol("refused", "a well-formed container was refused");
      bool open = false, over = false; size_t cur = 0; u64 pos = 0;      // model: the open section and the offset in the data
      for (int i = 0; i < p["ops"]; i++) {
        int op = (int)r.below(10);
        if (!open) { if (op < 7) { cur = r.below(m.s.size()); u32 k = 0; { sim::Quiet q; for (size_t j = 0; j < cur; j++) if (m.s[j].id == m.s[cur].id) k++; }
                         if (fails([&] { f->startReadSection(m.s[cur].id, k); })) sim::viol("section-missing", "a present section cannot be opened for reading"); open = true; over = false; pos = m.s[cur].off; }
                     else verify_random(*f, m); continue; }
        u64 end = m.s[cur].off + m.s[cur].size, len, n = m.d.size();
        if (op == 0) { if (!fails([&] { f->startReadSection(m.s[r.below(m.s.size())].id); })) sim::viol("not-refused", "a second section could be opened while one is open"); continue; }
        if (op == 1) { bool bad = fails([&] { f->endReadSection(); }); if (!over && bad != (pos != end)) sim::viol(bad ? "wrong-close" : "not-refused", bad ? "a fully read section cannot be closed" : "a section could be closed before it was fully read"); if (over && pos != end && !bad) sim::viol("not-refused", "a section could be closed although reading went past it"); if (!bad) open = false; else if (r.chance(1, 3)) { f->endReadSection(false); open = false; } continue; }
        if (op == 2 && r.chance(1, 3)) { if (fails([&] { f->endReadSection(false); })) sim::viol("wrong-close", "an unchecked close was refused"); open = false; continue; }
        u64 want = 0; int kind = (int)r.below(3); len = kind == 0 ? 4 : kind == 1 ? 8 : r.chance(1, 8) ? (r.chance(1, 2) ? ~0ull - r.below(100) : n + r.below(100)) : r.chance(1, 4) ? end - (pos < end ? pos : end) : r.below(60);
        bool inside = !over && len <= end - pos, indata = pos <= n && len <= n - pos;
        if (kind < 2 && indata) { sim::Quiet q; for (u64 b = 0; b < len; b++) want |= (u64)m.d[pos + b] << (8 * b); }
        bool bad = false; u64 got = 0; void *ptr = 0;
        bool ex = fails([&] { if (kind == 0) got = f->readU32LE(); else if (kind == 1) got = f->readU64LE(); else ptr = f->read(len); });
        if (ex && inside) sim::viol("wrong-read", "a read inside the open section was refused");
        if (ex) { over = true; f->endReadSection(false); open = false; continue; }
        if (!indata) sim::viol("read-outside", "a read of %llu bytes past the container was not refused", (unsigned long long)len);
        if (kind < 2) bad = got != want; else bad = !same(ptr, m, pos, len);
        if (bad) sim::viol("wrong-read", "sequential reading returned something else than the container's bytes");
        pos += len; if (pos > end) over = true;
      } }
    drop(buf); if (p["file"]) { sim::Quiet q; bm::remove_file(); }
}
static sim::Scenario s_read("bin_read", gen_read, run_read);

// ---- C32: one container read at random by several threads (one of them may read it sequentially), and other containers opened, read, refused and destroyed meanwhile
static void gen_conc(Rng &r, Params &p, int) { p.set("file", r.below(2)); p.set("omp", 1 + r.below(6), 1); p.set("threads", 2 + r.below(3), 2); p.set("ops", 1 + r.below(4), 1); p.set("race", r.chance(2, 3)); p.set("seq", r.below(2)); p.set("style", r.below(3)); p.set("cseed", (i64)(r.next() >> 1)); p.set("gapmin", 1); }
struct Wimg { bm::Img m; u32 n8, nv; u64 poff; };
static void build_wtns(Rng &r, Wimg &w) { bm::begin(w.m, "wtns", 2, 2); std::vector<u8> b; if (r.chance(1, 2)) { std::vector<u8> x; put_num(x, r, r.below(30), true); bm::add(w.m, 2, x); } w.n8 = 1 + (u32)r.below(40); w.nv = (u32)r.next(); bm::put32(b, w.n8); put_num(b, r, w.n8, true); bm::put32(b, w.nv); w.poff = 4; bm::add(w.m, 1, b); w.poff += w.m.s.back().off; }
static void run_conc(const Params &p) {
    if (p["race"]) sim::race_on(true); omp_set_num_threads((int)p["omp"]); oracle::gmp_setup(); int T = (int)p["threads"], K = (int)p["ops"]; bm::Img m, bad; Wimg w; u8 *buf = 0, *bbuf = 0, *wbuf = 0; Rng r(p["cseed"]);
    { sim::Quiet q; bm::build(r, m, (int)p["style"]); if (p["file"]) bm::write_file(m.d); build_wtns(r, w); bm::build(r, bad, 0); bm::corrupt(r, bad, (int)r.below(7)); std::vector<u8> d = bad.d; bm::parse(d, bad.type, bad.maxv, bad); }
    buf = mem_copy(m); bbuf = mem_copy(bad); wbuf = mem_copy(w.m); { try { throw std::runtime_error("x"); } catch (std::exception &) {} }
    u64 mark = sim::alloc_mark();
    {
        BF f; std::vector<std::thread> th; bool file = p["file"]; if (fails([&] { f = open_img(m, file, buf); })) sim::viol("refused", "a well-formed container was refused");
        u64 s0 = r.next();
        auto work = [&](int t) {
            Rng q(sim::mix(s0, t)); if (T > 4) omp_set_num_threads(1);
            for (int k = 0; k < K; k++) {
                int op = (int)q.below(8);
                if (t == 0 && p["seq"] && m.s.size()) { verify_seq(*f, m, q.below(m.s.size()), q.next()); continue; }
                if (op < 4) verify_random(*f, m);
                else if (op < 6) { BF g; if (fails([&] { g = open_img(m, file, buf); })) sim::viol("refused", "a well-formed container was refused while others are in use"); verify_random(*g, m); if (m.s.size()) verify_seq(*g, m, q.below(m.s.size()), q.next()); }
                else if (op == 6) { BF g; bool ref = fails([&] { g = open_img(bad, false, bbuf); }); if (!ref && !bad.ok) sim::viol("corrupt-accepted", "a corrupt container was accepted"); if (ref && bad.ok && !bad.trailing) sim::viol("refused", "a well-formed container was refused while others are in use"); }
                else { BF g; std::unique_ptr<WtnsUtils::Header> h; if (fails([&] { g = open_img(w.m, false, wbuf); h = WtnsUtils::loadHeader(g.get()); })) sim::viol("header-refused", "a well-formed header was refused while other containers are in use");
                       if (h->n8 != w.n8 || h->nVars != w.nv || !mpz_is(h->prime, w.m.d.data() + w.poff, w.n8)) sim::viol("wrong-header", "a header loaded beside other readers differs from the file"); }
            } };
        for (int t = 1; t < T; t++) th.emplace_back(work, t);
        work(0); for (auto &x : th) x.join();
        verify_random(*f, m); if (m.s.size()) verify_seq(*f, m, r.below(m.s.size()), r.next());
    }
    nothing_left(mark, "several threads read containers");
    drop(buf); drop(bbuf); drop(wbuf); { sim::Quiet q; bm::remove_file(); }
}
static sim::Scenario s_conc("bin_conc", gen_conc, run_conc);

// ---- C14: somebody else changes the file while it is being opened
static u64 shown(BinFile &f, const std::vector<u32> &ids, u64 *nsec) {      // a digest of everything the container shows; every byte is read
    u64 h = 7, cnt = 0;
    for (u32 id : ids) for (u32 k = 0; k < 4000; k++) {
        u64 sz = 0; void *p = 0;
        if (fails([&] { sz = f.getSectionSize(id, k); p = f.getSectionData(id, k); })) break;
        if (sz) sim::check_read(p, sz); cnt++;
        sim::Quiet q; h = sim::mix(h, id * 4096ull + k); h = sim::mix(h, sz); u64 w = 0; const u8 *b = (const u8 *)p; for (u64 i = 0; i < sz; i++) { w = w * 31 + b[i]; } h = sim::mix(h, w);
    }
    *nsec = cnt; return h;
}
static void gen_race(Rng &r, Params &p, int) { p.set("omp", 1 + r.below(10), 1); p.set("times", 1 + r.below(3), 1); p.set("wait", r.chance(1, 3) ? 0 : r.below(60), 0); p.set("shrink", r.chance(1, 4), 0); p.set("cseed", (i64)(r.next() >> 1)); p.set("gapmin", 1); }
static void run_race(const Params &p) {
    omp_set_num_threads((int)p["omp"]); bm::Img m, o; Rng r(p["cseed"]); std::vector<u32> ids; volatile int begun = 0;
    { sim::Quiet q; bm::build(r, m, 0); bm::build(r, o, 0); if (r.chance(1, 2)) { o.d = m.d; o.sizeat = m.sizeat; o.s = m.s; bm::corrupt(r, o, r.chance(2, 3) ? 3 : 1); } memcpy(o.d.data(), m.d.data(), o.d.size() < 4 || m.d.size() < 4 ? 0 : 4); bm::write_file(m.d);
      static const u32 more[] = {0, 1, 2, 3, 4, 0xffffffffu}; for (u32 x : more) ids.push_back(x); for (auto &s : m.s) ids.push_back(s.id); for (auto &s : o.s) ids.push_back(s.id);
      for (size_t i = 0; i < ids.size(); i++) for (size_t j = i + 1; j < ids.size();) if (ids[j] == ids[i]) ids.erase(ids.begin() + j); else j++; }
    { try { throw std::runtime_error("x"); } catch (std::exception &) {} }
    u64 mark = sim::alloc_mark();
    {
        u64 ms = r.next(); int T = (int)p["times"], W = (int)p["wait"]; bool shrink = p["shrink"];
        std::thread other([&, ms] {                   // stands for another program
            Rng q(ms);
            for (int t = 0; t < T; t++) {
                for (u64 k = W ? q.below(W) : 0; k; k--) sim::point();
                begun = 1; sim::note_fault(sim::F_MUTATE); sim::Quiet z; u64 at, n = o.d.size();
                switch (shrink ? 5 : (int)q.below(5)) {
                case 0: case 1: at = q.below(n + 1); if (q.chance(1, 2)) at = 0; bm::patch_file(o.d.data() + at, q.chance(1, 2) ? n - at : q.below(n - at + 1), at, m.d.size()); break;        // never beyond the old end
                case 2: bm::patch_file(o.d.data(), n, m.d.size(), ~0ull); break;                                                                                                              // grows
                case 3: bm::replace_file(o.d); break;
                case 4: bm::mutate_file(q, 2 + (int)q.below(2), 0); T = t; break;
                default: bm::mutate_file(q, q.chance(1, 2) ? 1 : 4, m.d.size()); break;
                }
            } });
        BF f; bool refused = fails([&] { f = open_img(m, true, 0); }); bool during = begun;
        if (refused && !during) sim::viol("refused", "a well-formed container was refused");
        u64 n1 = 0, n2 = 0, h1 = 0;
        if (f && !during) verify_random(*f, m);
        if (f) h1 = shown(*f, ids, &n1);
        other.join();
        if (f && h1 != shown(*f, ids, &n2)) sim::viol("changed", "what an opened container shows changed afterwards");
        if (f && !during) verify_random(*f, m);
    }
    nothing_left(mark, "a file changed while it was being opened");
    { sim::Quiet q; bm::remove_file(); }
}
static sim::Scenario s_race("bin_race", gen_race, run_race);
