# Bugs about C30 (a result depends on the operands alone), C31 (killed or neighbouring generator commands) and C32 (containers read by several threads).
exec(open("/verif/tools/seedlib/bugs_field.py").read().split("# ----------------------------------------------------------------", 1)[0])
FPRE = PRE
F2 = "c/f2field.cpp"; F6 = "c/f6field.cpp"; CV = "c/curve.cpp"; RG = "src/fr_raw_generic.cpp.ejs"; GG = "src/fr_generic.cpp.ejs"
# ---------------------------------------------------------------- C30
fbug("c30-f2-early-store", "C30", "the product of a quadratic extension stored over its first factor", "The first half of the product is stored before the sum of the first factor's halves is taken.",
 [(F2, "    typename BaseField::Element sum1, sum2;\n    F.add(sum1, e1.a, e1.b);\n    F.add(sum2, e2.a, e2.b);\n\n    F.add(r.a, aa, bbr);\n\n    F.mul(r.b, sum1, sum2 );\n", "    // (a1 + b1) * (a2 + b2), Karatsuba\n    typename BaseField::Element sum1, sum2;\n    F.add(sum2, e2.a, e2.b);\n    F.add(r.a, aa, bbr);\n    F.add(sum1, e1.a, e1.b);\n\n    F.mul(r.b, sum1, sum2 );\n")], FPRE + r'''
#include "fr.hpp"
#include "f2field.hpp"
static F2Field<RawFr> F("5");
int main() { F2Field<RawFr>::Element a, b, c, r; RawFr &f = RawFr::field; f.set(a.a, 3); f.set(a.b, 4); f.set(b.a, 7); f.set(b.b, 9); F.mul(r, a, b); F.copy(c, b); F.mul(c, a, c); if (!F.eq(c, r)) FAIL("over the second factor"); F.copy(c, a); F.mul(c, c, b); if (!F.eq(c, r)) FAIL("over the first factor"); return 0; }
''', srcs="$R/c/splitparstr.cpp")
fbug("c30-f6-scalar", "C30", "a sextic element multiplied by its own middle coefficient, or a rotation stored over its operand", "Multiplying by tau stores the new z before the old one is read.",
 [(F6, "    typename BaseField::Element tz, ty;\n\n    F.mulXi(tz, a.x);\n    F.copy(ty, a.y);\n    F.copy(r.y, a.z);\n    F.copy(r.x, ty);\n    F.copy(r.z, tz);\n", "    typename BaseField::Element tx;\n\n    F.copy(tx, a.y);\n    F.mulXi(r.z, a.x);\n    F.copy(r.y, a.z);\n    F.copy(r.x, tx);\n")], FPRE + r'''
#include "fr.hpp"
#include "f2field.hpp"
#include "f6field.hpp"
int main() { static F6Field<F2Field<RawFr>> F; F6Field<F2Field<RawFr>>::Element a, c, r; RawFr &f = RawFr::field; int k = 3; RawFr::Element *p = (RawFr::Element *)&a; for (int i = 0; i < 6; i++) f.set(p[i], k++); F.mulTau(r, a); F.copy(c, a); F.mulTau(c, c); if (!F.eq(c, r)) FAIL("over its operand"); return 0; }
''', srcs="$R/c/splitparstr.cpp")
fbug("c30-curve-second", "C30", "a sum of two points stored over the second one", "The product with the first point's ZZZ is stored before the second point's is read.",
 [(CV, "    F.mul(p3.zz, p1.zz, p2.zz);\n    F.mul(p3.zz, p3.zz, PP);\n    \n    // ZZZ3 = ZZZ1*ZZZ2*PPP\n    F.mul(p3.zzz, p1.zzz, p2.zzz);\n    F.mul(p3.zzz, p3.zzz, PPP);\n", "    F.mul(p3.zz, p1.zz, p2.zz);\n    F.mul(p3.zz, p3.zz, PP);\n\n    // ZZZ3 = ZZZ1*PPP*ZZZ2\n    F.mul(p3.zzz, p1.zzz, PPP);\n    F.mul(p3.zzz, p3.zzz, p2.zzz);\n")], FPRE + r'''
#include "alt_bn128.hpp"
int main() { auto &E = AltBn128::Engine::engine; AltBn128::Engine::G1Point a, b, r, c; E.g1.dbl(a, E.g1.oneAffine()); E.g1.add(b, a, E.g1.oneAffine()); E.g1.add(r, a, b); E.g1.copy(c, a); E.g1.add(c, c, b); if (!E.g1.eq(c, r)) FAIL("over the first"); E.g1.copy(c, b); E.g1.add(c, a, c); if (!E.g1.eq(c, r)) FAIL("over the second"); return 0; }
''', names="Fr Fq", srcs=BN)
fbug("c30-naf-slack", "C30", "memory with old contents behind the digits, when the scalar multiplication reads one digit more than there are", "The digit buffer is made exactly as long as the digits written, and the scan starts in the slack behind them.",
 [("c/naf.cpp", "    for (unsigned int i=0; i<scalarSize+2; i++) {\n", "    // the carry of the last byte needs one more word, no digit can come after it\n    for (unsigned int i=0; i<scalarSize+1; i++) {\n"), ("c/exp.hpp", "    int nBits = (scalarSize*8)+2;\n", "    int nBits = (scalarSize+2)*8;\n")], FPRE + r'''
#include "alt_bn128.hpp"
int main() { auto &E = AltBn128::Engine::engine; AltBn128::Engine::G1Point r, w; uint8_t s[8] = {5, 1, 0, 0, 0, 0, 0, 0}; bool have = false;
  for (int fill = 0; fill < 4; fill++) { std::vector<void *> v; for (int i = 0; i < 20; i++) { void *p = malloc(80); memset(p, fill, 80); v.push_back(p); } for (void *p : v) { memset(p, fill, 80); free(p); }
    E.g1.mulByScalar(r, E.g1.oneAffine(), s, 8); if (have && !E.g1.eq(r, w)) FAIL("depends on old memory (%d)", fill); E.g1.copy(w, r); have = true; } return 0; }
''', names="Fr Fq", srcs=BN)
fbug("c30-copy-part", "C30", "a short element with a Montgomery value copied over another element and used in a product", "Copying a short element (portable back end) leaves the long part of the destination as it was.",
 [(GG, "    *r = *a;\n", "    if (a->type & <%=name%>_LONG)\n    {\n        *r = *a;\n        return;\n    }\n\n    // a short element has no long part\n    r->shortVal = a->shortVal;\n    r->type = a->type;\n")], FPRE + r'''
#include "fr.hpp"
int main() { FrElement a, m, r, w, c, l; a.type = Fr_SHORT; a.shortVal = 1234; memset(&m, 0, sizeof m); Fr_toMontgomery(&m, &a); memset(&l, 0, sizeof l); l.type = Fr_LONG; l.longVal[0] = 77; Fr_mul(&w, &m, &l); memset(&c, 0xA5, sizeof c); Fr_copy(&c, &m); Fr_mul(&r, &c, &l); FrElement n1, n2; Fr_toNormal(&n1, &w); Fr_toNormal(&n2, &r); if (memcmp(n1.longVal, n2.longVal, sizeof n1.longVal)) FAIL("the copy is another value"); return 0; }
''', names="Fr")
fbug("c30-small-import", "C30", "a small value read into an element that held a large one", "Converting from a big integer no longer clears the words the export does not write.",
 [(G, "    for (int i=0; i<<%=name%>_N64; i++) r.v[i] = 0;\n    mpz_export((void *)(r.v), NULL, -1, 8, -1, 0, a);\n", "    size_t words = 0;\n    mpz_export((void *)(r.v), &words, -1, 8, -1, 0, a);\n    if (words == 0) r.v[0] = 0;\n")], FPRE + r'''
#include "fr.hpp"
int main() { RawFr &F = RawFr::field; RawFr::Element a, b; uint8_t d[32] = {0}; d[31] = 9; memset(&a, 0, sizeof a); memset(&b, 0x11, sizeof b); F.fromRprBE(a, d, 32); F.fromRprBE(b, d, 32); if (!F.eq(a, b)) FAIL("depends on the destination"); return 0; }
''', names="Fr")
fbug("c30-last-inverse", "C30", "two inversions in a row of elements that agree in their lowest word", "The last inverse is remembered per thread and found again by the lowest word of its operand.",
 [(G, "void Raw<%=name%>::inv(Element &r, const Element &a) {\n    mpz_t mr;\n", "void Raw<%=name%>::inv(Element &r, const Element &a) {\n    // the same element is often inverted twice in a row (x and y of a point)\n    static thread_local Element lastIn, lastOut;\n    static thread_local bool known = false;\n    if (known && a.v[0] == lastIn.v[0] && a.v[<%=name%>_N64-1] >> 32 == lastIn.v[<%=name%>_N64-1] >> 32) {\n        r = lastOut;\n        return;\n    }\n    lastIn = a;\n    known = true;\n\n    mpz_t mr;\n"),
  (G, "    <%=name%>_rawMMul(r.v, r.v,<%=name%>_R3.longVal);\n    mpz_clear(mr);\n", "    <%=name%>_rawMMul(r.v, r.v,<%=name%>_R3.longVal);\n    mpz_clear(mr);\n    lastOut = r;\n")], FPRE + r'''
#include "fr.hpp"
int main() { RawFr &F = RawFr::field; RawFr::Element a, b, r, s; memset(&a, 0, sizeof a); a.v[0] = 5; b = a; b.v[1] = 1; F.inv(r, a); F.inv(s, b); F.mul(s, s, b); if (!F.eq(s, F.one())) FAIL("the second inverse is the first one's"); return 0; }
''', names="Fr")
fbug("c30-bnot-early-type", "C30", "the complement of a Montgomery element stored over itself (portable back end)", "The destination gets its type before the operand is converted.",
 [(GG, "void <%=name%>_bnot(P<%=name%>Element r, P<%=name%>Element a)\n{\n", "void <%=name%>_bnot(P<%=name%>Element r, P<%=name%>Element a)\n{\n    r->type = <%=name%>_LONG;\n\n")], FPRE + r'''
#include "fr.hpp"
int main() { FrElement l, m, r, c; memset(&l, 0, sizeof l); l.type = Fr_LONG; l.longVal[0] = 77; Fr_toMontgomery(&m, &l); Fr_bnot(&r, &m); c = m; Fr_bnot(&c, &c); if (r.type != c.type || memcmp(r.longVal, c.longVal, sizeof r.longVal)) FAIL("over its operand"); return 0; }
''', names="Fr")
fbug("c30-error-flag", "C30", "an inversion of zero followed by another inversion", "After a failed inversion of zero, the field keeps an error mark that makes the next result zero too.",
 [(G, "void <%=name%>_inv(P<%=name%>Element r, P<%=name%>Element a) {\n    mpz_t ma;\n    mpz_t mr;\n    mpz_init(ma);\n    mpz_init(mr);\n\n    <%=name%>_toMpz(ma, a);\n    mpz_invert(mr, ma, q);\n", "static thread_local bool divisionByZero = false;\n\nvoid <%=name%>_inv(P<%=name%>Element r, P<%=name%>Element a) {\n    mpz_t ma;\n    mpz_t mr;\n    mpz_init(ma);\n    mpz_init(mr);\n\n    <%=name%>_toMpz(ma, a);\n    if (!divisionByZero || mpz_sgn(ma) == 0) divisionByZero = !mpz_invert(mr, ma, q);\n    else divisionByZero = false;\n")], FPRE + r'''
#include "fr.hpp"
int main() { FrElement z, a, r, s; memset(&z, 0, sizeof z); z.type = Fr_SHORT; memset(&a, 0, sizeof a); a.type = Fr_SHORT; a.shortVal = 2; Fr_inv(&r, &a); Fr_inv(&s, &z); Fr_inv(&s, &a); FrElement e; Fr_eq(&e, &r, &s); if (!e.shortVal) FAIL("an earlier inversion of zero changes a later one"); return 0; }
''', names="Fr")
# ---------------------------------------------------------------- C31
BB = open("/verif/tools/seedlib/bugs_js.py").read().split("bug(\"c17-shared-labels\"", 1)[0]
_g = {}; exec(BB, _g); JPRE = _g["PRE"]; J = "src/buildzqfield.js"
C31 = JPRE + r'''
const OUT = (n, a) => ({ asm: a + ".asm", hpp: a + ".hpp", cpp: a + ".cpp", element_hpp: n.toLowerCase() + "_element.hpp", generic_cpp: n.toLowerCase() + "_generic.cpp", raw_generic_cpp: n.toLowerCase() + "_raw_generic.cpp", raw_arm64_s: n.toLowerCase() + "_raw_arm64.s" });
const ARGS = (q, n, a) => ["-q", q, "-n", n, "--oa", a + ".asm", "--oh", a + ".hpp", "--oc", a + ".cpp"];
function bad(d, want, n, a) { const o = OUT(n, a); return KEYS.filter(k => { try { return fs.readFileSync(path.join(d, o[k]), "utf8") !== want[k]; } catch (e) { return true; } }); }
// dies at the k-th file system call that changes something (a write is half done)
const KILL = k => { const f = path.resolve("kill" + k + ".js"); fs.writeFileSync(f, `const fs=require("fs");let n=0;const names=["writeFileSync","writeSync","appendFileSync","renameSync","mkdirSync","openSync","closeSync","unlinkSync","rmdirSync","rmSync","copyFileSync","truncateSync","ftruncateSync"];
const self={};for(const m of names){const o=fs[m];self[m]=o;fs[m]=function(p,...a){ if(m==="openSync"&&/\\.ejs$|\\.js$/.test(String(p)))return o.call(fs,p,...a); if(n++===${k}){ if(m==="writeFileSync"||m==="appendFileSync"){ const fd=self.openSync.call(fs,p,m==="appendFileSync"||(a[1]&&a[1].flag==="a")?"a":"w");const b=Buffer.from(a[0]);self.writeSync.call(fs,fd,b,0,b.length>>1); } process.kill(process.pid,"SIGKILL"); for(;;){} } const was=n; const r=o.call(fs,p,...a); n=was; return r;};}
`); return f; };
function kills(a) { const q = P[0], want = alone(q, "Fx");
    for (let k = 0; k < 40; k++) { const d = path.resolve("k" + k); fs.mkdirSync(d); const r = command(ARGS(q, "Fx", "x"), KILL(k), d); if (r.status === 0) break;
        const r2 = command(ARGS(q, "Fx", "x"), null, d); if (r2.status !== 0) fail("killed at step " + k + ", the command fails when run again: " + String(r2.stderr).slice(0, 200)); const b = bad(d, want, "Fx", "x"); if (b.length) fail("killed at step " + k + " and run again: wrong " + b); } }
// the neighbour runs whole between two steps of the first command
const PAUSE = (k, args) => { const f = path.resolve("pause" + k + ".js"); fs.writeFileSync(f, `const fs=require("fs"),cp=require("child_process");let n=0,inside=0;for(const m of ["writeFileSync","writeSync","appendFileSync","renameSync","mkdirSync","openSync","closeSync","unlinkSync","rmdirSync","rmSync","copyFileSync"]){const o=fs[m];fs[m]=function(p,...a){ if(inside||(m==="openSync"&&/\\.ejs$|\\.js$/.test(String(p))))return o.call(fs,p,...a); if(n++===${k}){ const r=cp.spawnSync(process.execPath,${JSON.stringify(args)},{env:process.env}); if(r.status!==0)process.exit(77); } inside++; try { return o.call(fs,p,...a); } finally { inside--; } };}
`); return f; };
function beside() { const wa = alone(P[0], "Fx"), wb = alone(P[1], "Fy");
    for (let k = 0; k < 40; k++) { const d = path.resolve("n" + k); fs.mkdirSync(d); const r = command(ARGS(P[0], "Fx", "x"), PAUSE(k, [SRC, ...ARGS(P[1], "Fy", "y")]), d); if (r.status !== 0) fail("beside another command (step " + k + ") one fails: " + String(r.stderr).slice(0, 200)); const b = bad(d, wa, "Fx", "x"); if (b.length) fail("beside another command: wrong " + b); if (!fs.existsSync(path.join(d, "y.asm"))) break; const c = bad(d, wb, "Fy", "y"); if (c.length) fail("the other command's: wrong " + c); } }
'''
W7 = "        fs.writeFileSync(asmFileName, res.asm, \"utf8\");\n        fs.writeFileSync(hFileName, res.hpp, \"utf8\");\n        fs.writeFileSync(cFileName, res.cpp, \"utf8\");\n        fs.writeFileSync(hElementFileName, res.element_hpp, \"utf8\");\n        fs.writeFileSync(cGenericFileName, res.generic_cpp, \"utf8\");\n        fs.writeFileSync(cRawGenericFileName, res.raw_generic_cpp, \"utf8\");\n        fs.writeFileSync(sRawArm64FileName, res.raw_arm64_s, \"utf8\");\n"
L7 = [("asmFileName", "asm"), ("hFileName", "hpp"), ("cFileName", "cpp"), ("hElementFileName", "element_hpp"), ("cGenericFileName", "generic_cpp"), ("cRawGenericFileName", "raw_generic_cpp"), ("sRawArm64FileName", "raw_arm64_s")]
def all7(fn): return "".join("        %s(%s, res.%s);\n" % (fn, f, k) for f, k in L7)
bug("c31-shared-temp", "C31", "two commands in one directory at the same time", "Every output is written to one temporary name and renamed: commands in the same directory meet there.",
 [(J, W7, "        const write = (fileName, text) => {\n            const tmp = path.join(path.dirname(fileName), \".zqfield.tmp\");\n\n            // never leave half a file behind\n            fs.writeFileSync(tmp, text, \"utf8\");\n            fs.renameSync(tmp, fileName);\n        };\n\n" + all7("write"))], C31 + "kills(); beside();\n", kind="js")
bug("c31-lock-left", "C31", "a killed command, then another one", "A lock file in the output directory is only removed when the command ends normally.",
 [(J, W7, "        const lock = asmFileName + \".lock\";\n\n        fs.closeSync(fs.openSync(lock, \"wx\"));\n        try {\n" + W7.replace("        fs.", "            fs.") + "        } finally {\n            fs.unlinkSync(lock);\n        }\n")], C31 + "beside(); kills();\n", kind="js")
bug("c31-append-part", "C31", "a command killed while it writes one file, then run again", "Outputs are collected in a .part file that is opened for appending, so what a killed run left is kept in front.",
 [(J, W7, "        const write = (fileName, text) => {\n            const part = fileName + \".part\";\n            const size = 1 << 16;\n\n            for (let i = 0; i < text.length; i += size) fs.appendFileSync(part, text.slice(i, i + size), \"utf8\");\n            fs.renameSync(part, fileName);\n        };\n\n" + all7("write"))], C31 + "beside(); kills();\n", kind="js")
bug("c31-resume", "C31", "a command killed half-way through a file, then run again", "A file that already begins like the new text is taken as written.",
 [(J, W7, "        const write = (fileName, text) => {\n            // keep the time stamps of what has not changed\n            if (fs.existsSync(fileName)) {\n                const old = fs.readFileSync(fileName, \"utf8\");\n\n                if (old.length && text.startsWith(old)) return;\n            }\n            fs.writeFileSync(fileName, text, \"utf8\");\n        };\n\n" + all7("write"))], C31 + "beside(); kills();\n", kind="js")
bug("c31-stage-dir", "C31", "a command killed while its staging directory exists, then run again", "Outputs are staged in a directory that must not exist yet.",
 [(J, W7, "        const stage = asmFileName + \".d\";\n        const staged = [];\n        const write = (fileName, text) => {\n            const tmp = path.join(stage, path.basename(fileName));\n\n            fs.writeFileSync(tmp, text, \"utf8\");\n            staged.push([tmp, fileName]);\n        };\n\n        fs.mkdirSync(stage);\n" + all7("write") + "        for (const [tmp, fileName] of staged) fs.renameSync(tmp, fileName);\n        fs.rmdirSync(stage);\n")], C31 + "beside(); kills();\n", kind="js")
# ---------------------------------------------------------------- C32
_b = {}; exec(open("/verif/tools/seedlib/bugs_bin.py").read().split("bug(\"c13-keep-mapping\"", 1)[0], _b); BPRE = _b["PRE"]; B = "c/binfile_utils.cpp"
C32 = BPRE + r'''
static void together(BinFile &f, std::vector<std::pair<uint32_t, std::string>> secs, bool seq) {
    std::atomic<int> go(0), bad(0); const int T = 6; std::vector<std::thread> th;
    for (int t = 0; t < T; t++) th.emplace_back([&, t] { go++; while (go < T) {} for (int k = 0; k < 60000; k++) { auto &s = secs[(k + t) % secs.size()]; 
        if (seq && t == 0) { f.startReadSection(s.first); void *p = f.read(s.second.size()); if (memcmp(p, s.second.data(), s.second.size())) bad++; try { f.endReadSection(); } catch (std::exception *e) { bad++; f.endReadSection(false); } }
        else { if (f.getSectionSize(s.first) != s.second.size()) bad++; if (memcmp(f.getSectionData(s.first), s.second.data(), s.second.size() < 16 ? s.second.size() : 16)) bad++; } } });
    for (auto &x : th) x.join(); if (bad) FAIL("%d wrong answers", (int)bad); }
'''
MAIN32 = r'''
int main() { std::vector<std::pair<uint32_t, std::string>> secs; W w = container(5); for (int i = 1; i <= 5; i++) { secs.push_back({(uint32_t)i, blob(100 * i, i)}); w.sec(i, secs.back().second); } save("t.bin", w.d); watchdog(100);
  for (int r = 0; r < 4; r++) { BinFile f("t.bin", "wtns", 2); try { together(f, secs, %s); } catch (std::exception *e) { FAIL("refused: %%s", e->what()); } } return 0; }
'''
GD = "        return sections[sectionId][sectionPos].start;\n"; GS = "        return sections[sectionId][sectionPos].size;\n"
bug("c32-last-looked-up", "C32", "two threads asking for different sections at once", "The section last looked up is remembered in the object, in two fields.",
 [("c/binfile_utils.hpp", "        Section *readingSection;\n", "        Section *readingSection;\n\n        u_int64_t lastKey = ~0ull;\n        Section *lastSection = NULL;\n"),
  (B, GD, "        u_int64_t key = ((u_int64_t)sectionId << 32) | sectionPos;\n        if (key != lastKey) {\n            lastKey = key;\n            lastSection = &sections[sectionId][sectionPos];\n        }\n\n        return lastSection->start;\n"),
  (B, GS, "        u_int64_t key = ((u_int64_t)sectionId << 32) | sectionPos;\n        if (key != lastKey) {\n            lastKey = key;\n            lastSection = &sections[sectionId][sectionPos];\n        }\n\n        return lastSection->size;\n")], C32 + MAIN32 % "false", ["binfile_utils.cpp", "misc.cpp"])
bug("c32-data-through-reader", "C32", "random access while another thread reads a section sequentially", "Random access goes through the position of the sequential reader and puts it back.",
 [(B, GD, "        u_int64_t saved = pos;\n        pos = (u_int64_t)(sections[sectionId][sectionPos].start) - (u_int64_t)addr;\n        void *res = (void *)((u_int64_t)addr + pos);\n        pos = saved;\n\n        return res;\n")], C32 + MAIN32 % "true", ["binfile_utils.cpp", "misc.cpp"])
bug("c32-name-buffer", "C32", "containers opened in two threads at the same time", "The type of the container being opened is kept in a static buffer.",
 [(B, "        type.assign((const char *)addr, 4);\n        pos = 4;\n\n        if (type != _type)\n", "        static char kind[5];    // the type, terminated\n\n        memcpy(kind, addr, 4);\n        type.assign((const char *)addr, 4);\n        pos = 4;\n\n        if (_type != kind)\n")], BPRE + r'''
int main() { W a = container(1, 1, "wtns"), b = container(1, 1, "zkey"); a.sec(1, blob(9, 1)); b.sec(1, blob(9, 2)); watchdog(100); std::atomic<int> bad(0); std::vector<std::thread> th;
  for (int t = 0; t < 4; t++) th.emplace_back([&, t] { W &w = t & 1 ? a : b; for (int k = 0; k < 30000; k++) { try { BinFile f((void *)w.d.data(), w.d.size(), t & 1 ? "wtns" : "zkey", 2); } catch (std::exception *e) { bad++; } } });
  for (auto &x : th) x.join(); if (bad) FAIL("%d containers refused", (int)bad); return 0; }
''', ["binfile_utils.cpp", "misc.cpp"])
bug("c32-lazy-index", "C32", "the first random accesses of a container from two threads", "The section table is only built when a section is first asked for.",
 [("c/binfile_utils.hpp", "        Section *readingSection;\n", "        Section *readingSection;\n\n        std::map<u_int64_t, Section *> index;     // (identifier, position) of all sections, built on first use\n        Section *find(u_int32_t sectionId, u_int32_t sectionPos);\n"),
  (B, "    void *BinFile::getSectionData(u_int32_t sectionId, u_int32_t sectionPos)\n", "    BinFile::Section *BinFile::find(u_int32_t sectionId, u_int32_t sectionPos)\n    {\n        if (index.empty())\n        {\n            for (auto &it : sections)\n                for (size_t i = 0; i < it.second.size(); i++)\n                    index[((u_int64_t)(u_int32_t)it.first << 32) | i] = &it.second[i];\n        }\n        return index[((u_int64_t)sectionId << 32) | sectionPos];\n    }\n\n    void *BinFile::getSectionData(u_int32_t sectionId, u_int32_t sectionPos)\n"),
  (B, GD, "        return find(sectionId, sectionPos)->start;\n"), (B, GS, "        return find(sectionId, sectionPos)->size;\n")], C32 + r'''
int main() { std::vector<std::string> bl; W w = container(400); for (int i = 0; i < 400; i++) { bl.push_back(blob(20 + i, i)); w.sec(i + 1, bl.back()); } watchdog(100);
  for (int r = 0; r < 300; r++) { BinFile f((void *)w.d.data(), w.d.size(), "wtns", 2); std::atomic<int> go(0), bad(0); std::vector<std::thread> th;
    for (int t = 0; t < 6; t++) th.emplace_back([&, t] { go++; while (go < 6) {} for (int k = 0; k < 60; k++) { int i = (k * 6 + t) % 400; if (f.getSectionSize(i + 1) != bl[i].size()) bad++; } });
    for (auto &x : th) x.join(); if (bad) FAIL("%d wrong sizes", (int)bad); } return 0; }
''', ["binfile_utils.cpp", "misc.cpp"])
