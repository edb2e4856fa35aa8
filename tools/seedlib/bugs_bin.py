B = "c/binfile_utils.cpp"
PRE = r'''#include "demo.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "binfile_utils.hpp"
using namespace BinFileUtils;
struct W { std::string d; void u32(uint32_t v) { d.append((char *)&v, 4); } void u64_(u64 v) { d.append((char *)&v, 8); } void sec(uint32_t id, const std::string &b) { u32(id); u64_(b.size()); d += b; } };
static W container(uint32_t n, uint32_t version = 1, const char *type = "wtns") { W w; w.d = type; w.u32(version); w.u32(n); return w; }
static std::string blob(size_t n, int seed) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)(i * 7 + seed * 31 + (i >> 8)); return s; }
static void save(const char *p, const std::string &d) { FILE *f = fopen(p, "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f); }
template <class F> static bool throws(F f) { try { f(); return false; } catch (std::exception *e) { delete e; return true; } catch (std::exception &e) { return true; } }
static bool same(BinFile &f, uint32_t id, uint32_t pos, const std::string &b) { return f.getSectionSize(id, pos) == b.size() && !memcmp(f.getSectionData(id, pos), b.data(), b.size()); }
'''
bug("c13-keep-mapping", "C13", "a file of some size that is overwritten or truncated after it was opened", "Larger files are mapped and used in place instead of being copied: later changes of the file show through, and truncating it crashes readers.",
 [(B, "        size = sb.st_size;\n", """        size = sb.st_size;

        // private mapping: a second copy of a large key is a waste
        if (size >= 2048)
        {
            addr = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE | MAP_POPULATE, fd, 0);
            int mmapError = errno;
            close(fd);
            if (addr == MAP_FAILED)
                throw std::system_error(mmapError, std::generic_category(), "mmap");
            mapped = true;
            try
            {
                readHeader(_type, maxVersion);
            }
            catch (...)
            {
                munmap(addr, size);
                throw;
            }
            return;
        }

"""), (B, "#include <sys/stat.h>\n", "#include <sys/mman.h>\n#include <sys/stat.h>\n"),
  (B, "        free(addr);\n", "        if (mapped)\n            munmap(addr, size);\n        else\n            free(addr);\n"), ("c/binfile_utils.hpp", "        u_int64_t size;\n        u_int64_t pos;\n", "        u_int64_t size;\n        u_int64_t pos;\n        bool mapped = false;\n")], PRE + r'''
int main() {
    std::string a = blob(9000, 1), b = blob(5000, 2); W w = container(2); w.sec(1, a); w.sec(2, b); save("t.bin", w.d);
    BinFile f("t.bin", "wtns", 2); int fd = open("t.bin", O_WRONLY); std::string z(w.d.size(), 'z'); pwrite(fd, z.data(), z.size(), 0); close(fd);
    if (!same(f, 1, 0, a) || !same(f, 2, 0, b)) FAIL("a change of the file after opening shows through");
    return 0;
}
''', ["binfile_utils.cpp", "misc.cpp"])

bug("c13-size-of-first", "C13", "two sections of one identifier with different sizes", "The size of the first section of an identifier is returned for every position.",
 [(B, "        return sections[sectionId][sectionPos].size;\n", "        const std::vector<Section> &list = sections[sectionId];\n\n        return list.front().size;\n")], PRE + r'''
int main() {
    std::string a = blob(40, 1), b = blob(17, 2), c = blob(0, 3); W w = container(3); w.sec(9, a); w.sec(9, b); w.sec(4, c); save("t.bin", w.d);
    BinFile f("t.bin", "wtns", 2);
    if (!same(f, 9, 0, a) || !same(f, 9, 1, b) || !same(f, 4, 0, c)) FAIL("sections differ");
    return 0;
}
''', ["binfile_utils.cpp", "misc.cpp"])

bug("c13-sign-of-id", "C13", "a section identifier of 2^31 or more, present next to a small one", "Identifiers are looked up through the low 16 bits plus the sign, so that two different large identifiers meet.",
 [("c/binfile_utils.hpp", "        std::map<int, std::vector<Section>> sections;\n", "        std::map<short, std::vector<Section>> sections;\n")], PRE + r'''
int main() {
    std::string a = blob(40, 1), b = blob(17, 2); W w = container(2); w.sec(3, a); w.sec(0x80010003u, b); save("t.bin", w.d);
    BinFile f("t.bin", "wtns", 2);
    if (!same(f, 3, 0, a) || !same(f, 0x80010003u, 0, b)) FAIL("sections differ");
    if (!throws([&] { f.getSectionData(0x10003); })) FAIL("an absent section is accessible");
    return 0;
}
''', ["binfile_utils.cpp", "misc.cpp"])

bug("c14-count-tolerant", "C14", "a file truncated exactly between two sections", "Opening stops quietly at the end of the data although the section count promises more.",
 [(B, "        for (u_int32_t i = 0; i < nSections; i++)\n", "        for (u_int32_t i = 0; i < nSections && pos < size; i++)\n")], PRE + r'''
int main() {
    W w = container(3); w.sec(1, blob(40, 1)); size_t cut = w.d.size(); w.sec(2, blob(30, 2)); w.sec(3, blob(20, 3));
    for (size_t n = 0; n < w.d.size(); n++) if (!throws([&] { std::string d = w.d.substr(0, n); char *p = (char *)malloc(n + 1); memcpy(p, d.data(), n); BinFile f(p, n, "wtns", 2); })) FAIL("a container cut at byte %zu of %zu was accepted", n, w.d.size());
    return 0;
}
''', ["binfile_utils.cpp", "misc.cpp"])

bug("c14-signed-version", "C14", "a version field with the top bit set", "The version is compared as a signed number.",
 [(B, "        if (version > maxVersion)\n", "        if ((int)version > (int)maxVersion)\n")], PRE + r'''
int main() {
    for (uint32_t v : {3u, 100u, 0x80000001u, 0xffffffffu}) { W w = container(1, v); w.sec(1, blob(40, 1)); if (!throws([&] { BinFile f((void *)w.d.data(), w.d.size(), "wtns", 2); })) FAIL("version %u was accepted", v); }
    W w = container(1, 2); w.sec(1, blob(40, 1)); BinFile f((void *)w.d.data(), w.d.size(), "wtns", 2);
    return 0;
}
''', ["binfile_utils.cpp", "misc.cpp"])

bug("c14-size-32bit", "C14", "a hostile section size of 2^32 or more whose low half fits", "Only the low half of a section's 64-bit size is kept.",
 [(B, "            u_int64_t sSize = readU64LE();\n", "            u_int32_t sSize = readU64LE();\n")], PRE + r'''
int main() {
    W w = container(1); w.u32(1); w.u64_((u64)1 << 32 | 4); w.d += "abcdefgh";
    if (!throws([&] { BinFile f((void *)w.d.data(), w.d.size(), "wtns", 2); })) FAIL("a section of 2^32+4 bytes was accepted in a container of %zu", w.d.size());
    return 0;
}
''', ["binfile_utils.cpp", "misc.cpp"])

RD = r'''
static int mode = 0; static std::atomic<int> calls(0);
extern "C" ssize_t read(int fd, void *p, size_t n) { static ssize_t (*real)(int, void *, size_t) = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read"); if (mode == 1 && n > 10) n = n / 2; if (mode == 2) { errno = EIO; return -1; } return real(fd, p, n); }
'''
bug("c15-single-read", "C15", "a read that returns less than asked (a signal, a network file system)", "The file is read with one read() whose short count is taken for success.",
 [(B, "        size = sb.st_size;\n", "        const ssize_t expected = sb.st_size;\n        size = expected;\n"),
  (B, """        uint64_t done = 0;
        while (done < size)
        {
            ssize_t n = ::read(fd, (char *)addr + done, size - done);
            if (n == -1 && errno == EINTR)
                continue;
            if (n <= 0)
            {
                int error = n == -1 ? errno : EIO;
                close(fd);
                throw std::system_error(error, std::generic_category(), "read");
            }
            done += n;
        }
""", """        ssize_t got = ::read(fd, addr, expected);
        if (got == -1)
        {
            int error = errno;
            close(fd);
            throw std::system_error(error, std::generic_category(), "read");
        }
""")], PRE + RD + r'''
int main() {
    std::string a = blob(9000, 1); W w = container(1); w.sec(1, a); save("t.bin", w.d);
    for (mode = 0; mode < 3; mode++) { bool ok = true; bool t = throws([&] { BinFile f("t.bin", "wtns", 2); ok = same(f, 1, 0, a); }); if (!t && !ok) FAIL("mode %d: a container with wrong bytes", mode); if (mode == 0 && t) FAIL("refused a good file"); }
    return 0;
}
''', ["binfile_utils.cpp", "misc.cpp"], env="MALLOC_PERTURB_=165")

bug("c15-open-retry", "C15", "a table of descriptors that stays full", "Opening is tried again for as long as there is no free descriptor.",
 [(B, "        fd = open(fileName.c_str(), O_RDONLY);\n        if (fd == -1)\n", "        // other threads may be about to close theirs\n        while ((fd = open(fileName.c_str(), O_RDONLY)) == -1 && (errno == EMFILE || errno == ENFILE))\n            ;\n        if (fd == -1)\n")], PRE + r"""
#include <signal.h>
#include <sys/resource.h>
int main() {
    std::string a = blob(900, 1); W w = container(1); w.sec(1, a); save("t.bin", w.d);
    { BinFile f("t.bin", "wtns", 2); if (!same(f, 1, 0, a)) FAIL("differs"); }
    struct rlimit l = {0, 64}; setrlimit(RLIMIT_NOFILE, &l);
    signal(SIGALRM, [](int) { static const char m[] = "FAIL: opening neither succeeds nor fails\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }); alarm(5);
    if (!throws([&] { BinFile f("t.bin", "wtns", 2); })) FAIL("opened without a descriptor");
    return 0;
}
""", ["binfile_utils.cpp", "misc.cpp"])

HDR = PRE + r'''
#include "zkey_utils.hpp"
#include "wtns_utils.hpp"
'''
bug("c16-coefs-base-field", "C16", "a key whose two fields have different sizes", "The number of coefficients is computed with the base field's size instead of the scalar field's.",
 [("c/zkey_utils.cpp", "    h->nCoefs = f->getSectionSize(4) / (12 + h->n8r);\n", "    h->nCoefs = f->getSectionSize(4) / (12 + h->n8q);\n")], HDR + r'''
static void one(unsigned n8q, unsigned n8r, unsigned coefs) {
    W s1; s1.u32(1); W s2; s2.u32(n8q); s2.d += blob(n8q, 5); s2.u32(n8r); s2.d += blob(n8r, 6); s2.u32(100); s2.u32(7); s2.u32(128); s2.d += blob(n8q * 18, 8);
    W w = container(3, 1, "zkey"); w.sec(1, s1.d); w.sec(2, s2.d); w.sec(4, blob((12 + n8r) * coefs, 9));
    BinFile f((void *)w.d.data(), w.d.size(), "zkey", 1); auto h = ZKeyUtils::loadHeader(&f);
    if (h->nCoefs != coefs) FAIL("n8q=%u n8r=%u: %u coefficients instead of %u", n8q, n8r, (unsigned)h->nCoefs, coefs);
}
int main() { one(32, 32, 10); one(48, 32, 10); one(32, 48, 33); return 0; }
''', ["binfile_utils.cpp", "misc.cpp", "zkey_utils.cpp"])

bug("c16-open-section-kept", "C16", "a second section is opened while one is being read", "Opening another section while one is open moves the position before the refusal, so the section being read goes on from the wrong place.",
 [(B, """        if (readingSection != NULL)
        {
            throw new std::range_error("Already reading a section");
        }

        pos = (u_int64_t)(sections[sectionId][sectionPos].start) - (u_int64_t)addr;

""", """        pos = (u_int64_t)(sections[sectionId][sectionPos].start) - (u_int64_t)addr;

        if (readingSection != NULL)
        {
            throw new std::range_error("Already reading a section");
        }

""")], PRE + r'''
int main() {
    W a, b; for (int i = 0; i < 10; i++) { a.u32(1000 + i); b.u32(2000 + i); } W w = container(2); w.sec(1, a.d); w.sec(2, b.d);
    BinFile f((void *)w.d.data(), w.d.size(), "wtns", 2); f.startReadSection(1); for (int i = 0; i < 3; i++) if (f.readU32LE() != 1000 + i) FAIL("value");
    if (!throws([&] { f.startReadSection(2); })) FAIL("a second section was opened");
    for (int i = 3; i < 10; i++) { uint32_t v = 0; if (throws([&] { v = f.readU32LE(); }) || v != 1000u + i) FAIL("after the refusal, value %d reads %u", i, v); }
    f.endReadSection(); return 0;
}
''', ["binfile_utils.cpp", "misc.cpp"])

bug("c16-short-close", "C16", "closing a section whose unread rest is a multiple of four bytes short", "Closing accepts a section when what was read is a whole number of words below its size rounded down.",
 [(B, "            if ((u_int64_t)addr + pos - (u_int64_t)(readingSection->start) != readingSection->size)\n", "            // sections may be padded to a multiple of 8 bytes\n            if (((u_int64_t)addr + pos - (u_int64_t)(readingSection->start) + 7) / 8 != (readingSection->size + 7) / 8)\n")], PRE + r'''
int main() {
    for (unsigned n = 0; n < 40; n++) for (unsigned r = 0; r <= n; r++) {
        W w = container(2); w.sec(1, blob(n, 1)); w.sec(2, blob(50, 2)); BinFile f((void *)w.d.data(), w.d.size(), "wtns", 2);
        f.startReadSection(1); f.read(r); bool t = throws([&] { f.endReadSection(); });
        if (t != (r != n)) FAIL("closing a section of %u bytes after %u was %s", n, r, t ? "refused" : "accepted");
    }
    return 0;
}
''', ["binfile_utils.cpp", "misc.cpp"])
