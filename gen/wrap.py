"""Writes the seams between the code under test and what runs uninstrumented below it:
   asm_wrap.cpp / asm_syms.txt   every routine of the generated assembly
   gmp_wrap.cpp / gmp_syms.txt   GMP's mpz_ and mpn_ functions
   wrap.py OUTDIR FIELD...       (OUTDIR holds the rendered sources)"""
import re, sys
out, fields = sys.argv[1], sys.argv[2:]

def args_of(s):
    s = s.strip()
    return [] if s in ("", "void") else [a.strip() for a in s.split(",")]

# ---- assembly: prototypes of the x86-64 section of the rendered headers; r... first parameter is the destination
w = ['#include "fieldwrap.h"\n']; ren = []; tab = []
for f in fields:
    l = f.lower(); hpp = open("%s/%s.hpp" % (out, l)).read(); asm = open("%s/%s.asm" % (out, l)).read()
    n64 = int(re.search(r"#define %s_N64 (\d+)" % f, open("%s/%s_element.hpp" % (out, l)).read()).group(1))
    el, raw = 8 + 8 * n64, 8 * n64
    a = hpp.find("defined(ARCH_X86_64)"); b = hpp.find("#elif", a); sec = hpp[a:b if b > 0 else len(hpp)]
    glob = set(re.findall(r"^\s*global\s+(%s_\w+)" % f, asm, re.M)); data = {f + "_q", f + "_R2", f + "_R3", f + "_rawq", f + "_rawR3"}
    proto = {}
    for m in re.finditer(r'extern "C"\s+(\w+)\s+(\w+)\(([^)]*)\);', sec): proto[m.group(2)] = (m.group(1), args_of(m.group(3)))
    for s in sorted(glob - data):
        pre, post = [], []
        ret, ar = proto.get(s, ("void", ["FrRawElement r"] if s.endswith("_rawZero") else None))
        if ar is not None:      # signature: W/w destination (element/raw), E/R source, S swapped, u 64-bit number, n count
            sig = "".join(("W" if ret == "void" and i == 0 else "E") if "Element " in p and p.startswith("P") else ("S" if s.endswith("_rawSwap") else "w" if ret == "void" and i == 0 else "R") if "RawElement" in p else "u" if "64" in p else "n" for i, p in enumerate(ar))
            tab.append('    {"%s", %s, "%s", %d, %d, %d},\n' % (s, s, sig, ret != "void", fields.index(f), n64))
        if ar is not None:
            for i, p in enumerate(ar):
                size = "%d" % el if "Element " in p and p.startswith("P") else "%d" % raw if "RawElement" in p else None
                if size is None: continue
                if s.endswith("_copyn"): size = "%d * (size_t)(int)c" % el
                if ret == "void" and i == 0: post.append("check_write((void *)a, %s);" % size)
                else: pre.append("check_read((void *)%s, %s);" % ("abcdef"[i], size))
                if s.endswith("_rawSwap"): post.append("check_write((void *)%s, %s);" % ("abcdef"[i], size))
        w.append('extern "C" long %s(long, long, long, long, long, long);\nextern "C" long simw_%s(long a, long b, long c, long d, long e, long f) { %s long r = sim::asm_call(%s, a, b, c, d, e, f); %s return r; }\n' % (s, s, " ".join("sim::" + x for x in pre), s, " ".join("sim::" + x for x in post)))
        ren.append("%s simw_%s" % (s, s))
w.append("namespace sim { const AsmFn asm_table[] = {\n" + "".join(tab) + "}; const int asm_table_n = %d; }\n" % len(tab))
open(out + "/asm_wrap.cpp", "w").write("".join(w)); open(out + "/asm_syms.txt", "w").write("\n".join(ren) + "\n")

# ---- GMP
g = open("/usr/include/x86_64-linux-gnu/gmp.h").read()
defs = dict(re.findall(r"#define (mp[zn]_\w+)\s+(__gmp[zn]_\w+)", g))
w = ['#include "fieldwrap.h"\n']; ren = []
DONE = {"mpz_import"}            # handled by the runtime itself
for m in re.finditer(r"__GMP_DECLSPEC\s+((?:const\s+)?[\w ]+?\s*\**)\s*(mp[zn]_\w+)\s*\(([^)]*)\)", g):
    ret, name, ar = m.group(1).strip(), m.group(2), args_of(m.group(3))
    defs.setdefault(name, "__gmpn_" + name[4:] if name.startswith("mpn_") else "")
    if name in DONE or not defs[name] or "..." in m.group(3) or "double" in m.group(0) or "FILE" in m.group(0) or "mpf_" in m.group(0) or "mpq_" in m.group(0) or "rand" in name or len(ar) > 6: continue
    sym = defs[name]; pre, post = [], []; L = "abcdef"
    init = name.startswith("mpz_init"); clear = name == "mpz_clear"
    if name.startswith("mpz_"):
        for i, p in enumerate(ar):
            if p.startswith("mpz_srcptr"): pre.append("zread(%s);" % L[i])
            elif p.startswith("mpz_ptr"):
                if init: post.append("zwrite(%s);" % L[i])
                elif clear: pre.append("zwrite(%s);" % L[i])
                else: pre.append("zhead(%s);" % L[i]); post.append("zwrite(%s);" % L[i])
        if name == "mpz_get_str": post.append("if (r) sim::check_write((void *)r, strlen((char *)r) + 1);")
        if name == "mpz_export": post.append("zexport(r, b, d);"); 
    else:
        k = {"mpn_add_n": ("wrrn"), "mpn_sub_n": ("wrrn"), "mpn_mul_1": ("wrn"), "mpn_addmul_1": ("Wrn"), "mpn_submul_1": ("Wrn"), "mpn_lshift": ("wrn"), "mpn_rshift": ("wrn"), "mpn_com": ("wrn"), "mpn_copyi": ("wrn"), "mpn_copyd": ("wrn"), "mpn_and_n": ("wrrn"), "mpn_ior_n": ("wrrn"), "mpn_xor_n": ("wrrn"), "mpn_andn_n": ("wrrn"), "mpn_nand_n": ("wrrn"), "mpn_nior_n": ("wrrn"), "mpn_xnor_n": ("wrrn"), "mpn_iorn_n": ("wrrn"), "mpn_sqr": "w2rn", "mpn_mul_n": "w2rrn", "mpn_zero": "wn", "mpn_add_1": "wrn", "mpn_sub_1": "wrn", "mpn_cmp": "rrn"}.get(name)
        if k:
            dbl = "2" in k; k = k.replace("2", ""); n = L[k.index("n")]
            for i, c in enumerate(k):
                if c in "rW": pre.append("sim::check_read((void *)%s, (size_t)%s * 8);" % (L[i], n))
                if c in "wW": post.append("sim::check_write((void *)%s, (size_t)%s * %d);" % (L[i], n, 16 if dbl else 8))
    # the caller's seventh and later arguments do not occur; mpz_export has seven: forward them all
    if name == "mpz_export":
        w.append('extern "C" long real_%s(long, long, long, long, long, long, long) __asm__("%s");\nextern "C" long simg_%s(long a, long b, long c, long d, long e, long f, long g) { sim::point(); zread(g); long r; { sim::NoFault nf; r = real_%s(a, b, c, d, e, f, g); } zexport(r, b, g, d); sim::point(); return r; }\n' % (sym, sym, sym, sym)); ren.append("%s simg_%s" % (sym, sym)); continue
    w.append('extern "C" long real_%s(long, long, long, long, long, long) __asm__("%s");\nextern "C" long simg_%s(long a, long b, long c, long d, long e, long f) { sim::point(); %s long r; { sim::NoFault nf; r = real_%s(a, b, c, d, e, f); } %s sim::point(); return r; }\n' % (sym, sym, sym, " ".join(pre), sym, " ".join(post)))
    ren.append("%s simg_%s" % (sym, sym))
if not any("__gmpz_export" in r for r in ren):
    w.append('extern "C" long real_export(long, long, long, long, long, long, long) __asm__("__gmpz_export");\nextern "C" long simg___gmpz_export(long a, long b, long c, long d, long e, long f, long g) { sim::point(); zread(g); long r; { sim::NoFault nf; r = real_export(a, b, c, d, e, f, g); } zexport(r, b, g, d); sim::point(); return r; }\n'); ren.append("__gmpz_export simg___gmpz_export")
open(out + "/gmp_wrap.cpp", "w").write("".join(dict.fromkeys(w))); open(out + "/gmp_syms.txt", "w").write("\n".join(dict.fromkeys(ren)) + "\n")
