J = "src/buildzqfield.js"
PRE = r'''const path = require("path"), fs = require("fs"), cp = require("child_process"), bigInt = require("big-integer");
const R = process.argv[2], SRC = path.join(R, "src", "buildzqfield.js");
const P = ["21888242871839275222246405745257275088548364400416034343698204186575808495617", "21888242871839275222246405745257275088696311157297823662689037894645226208583", "52435875175126190479447740508185965837690552500527637822603658699938581184513", "18446744069414584321", "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787"];
const KEYS = ["asm", "hpp", "cpp", "element_hpp", "generic_cpp", "raw_generic_cpp", "raw_arm64_s"];
function fail(m) { console.log("FAIL: " + m); process.exit(1); }
// what a fresh process generates for one field
function alone(q, name) { return JSON.parse(cp.execFileSync(process.execPath, ["-e", `const b=require(process.argv[1]); b(process.argv[2], process.argv[3]).then(r => process.stdout.write(JSON.stringify(r)));`, SRC, q, name], { env: process.env, maxBuffer: 1 << 28 }).toString()); }
function same(a, b) { return KEYS.every(k => a[k] === b[k]); }
function command(args, pre, cwd) { const a = pre ? ["-r", pre] : []; const r = cp.spawnSync(process.execPath, [...a, SRC, ...args], { env: process.env, cwd }); return r; }
'''
bug("c17-shared-labels", "C17", "two fields generated at the same time", "The label counter is one for the module and is reset by every new builder: concurrent fields change each other's labels.",
 [(J, "class ZqBuilder {\n", "let lastTmp = 0;\n\nclass ZqBuilder {\n"), (J, "        this.lastTmp=0;\n", "        lastTmp = 0;        // labels are unique within a file\n"), (J, "            self.lastTmp++;\n", "            lastTmp++;\n"), (J, "            return label+\"_\"+self.lastTmp;\n", "            return label+\"_\"+lastTmp;\n")], PRE + r'''
// the reading of templates takes a random time
const ejs = require("ejs"); const rf = ejs.renderFile;
ejs.renderFile = function(f, ...a) { const cb = a.pop(); setTimeout(() => rf.call(ejs, f, ...a, cb), Math.random() * 20); };
let lt = []; const build = require(SRC);
(async () => {
    const want = P.map((q, i) => alone(q, "F" + i));
    for (let t = 0; t < 3; t++) {
        const got = await Promise.all(P.map((q, i) => build(q, "F" + i)));
        got.forEach((g, i) => { if (!same(g, want[i])) fail("field " + i + " generated concurrently differs from the one generated alone"); });
    }
    // a builder made while another one renders
    const g = await Promise.all([build(P[0], "A"), (async () => { await null; return build(P[1], "B"); })()]);
    if (!same(g[0], alone(P[0], "A")) || !same(g[1], alone(P[1], "B"))) fail("overlapping generation differs");
})();
''', kind="js")

bug("c17-builder-by-name", "C17", "the same name for two primes in one process", "Builders are kept by name: the second prime of a name gets the first one's sources.",
 [(J, "async function buildField(q, name) {\n    const builder = new ZqBuilder(q, name);\n", "const builders = {};\n\nasync function buildField(q, name) {\n    const builder = builders[name] || (builders[name] = new ZqBuilder(q, name));\n\n    builder.lastTmp = 0;\n")], PRE + r'''
const build = require(SRC);
(async () => {
    for (const q of P) { const g = await build(q, "Fr"); if (!same(g, alone(q, "Fr"))) fail("the field of " + q + " has another field's sources"); }
})();
''', kind="js")

bug("c17-arm-registers", "C17", "several fields in one process, the second with another number of words", "The register list of the arm64 builder is kept in the module and shortened as registers are taken.",
 [("src/armbuilder.js", "    getNext() {\n        console.assert(this.length, \"RegVar is empty, cannot get next Reg.\");\n\n        let reg = this[this.cur];\n        this.cur = (this.cur + 1) % this.length;\n", "    getNext() {\n        console.assert(this.length, \"RegVar is empty, cannot get next Reg.\");\n\n        let reg = this[this.cur];\n        calls++;\n        this.cur = (this.cur + (calls % 4099 === 0 ? 2 : 1)) % this.length;\n"), ("src/armbuilder.js", "class RegVar extends Array {\n", "let calls = 0;      // rotates the registers now and then, to spread dependencies\n\nclass RegVar extends Array {\n")], PRE + r'''
const build = require(SRC);
(async () => {
    const want = P.map((q, i) => alone(q, "F" + i));
    for (let t = 0; t < 6; t++) for (let i = 0; i < P.length; i++) { const g = await build(P[i], "F" + i); if (!same(g, want[i])) fail("field " + i + " differs when generated again"); }
})();
''', kind="js")

FAULT = r'''
// failing disk: mode "enospc" fails the k-th data write, "short" writes half of it once
function faulty(mode, k) { const f = path.resolve("fault.js"); fs.writeFileSync(f, `const fs=require("fs");let n=0;const w=fs.writeSync,ws=fs.writeFileSync,wf=fs.writeFile,w2=fs.write;
function hit(){return n++===${k};} function err(){const e=new Error("ENOSPC: no space left on device, write");e.code="ENOSPC";e.syscall="write";return e;}
fs.writeFileSync=function(p,...a){ if(typeof p==="string"&&hit()){ ws.call(fs,p,"");if("${mode}"==="enospc")throw err(); } return ws.call(fs,p,...a); };
fs.writeFile=function(p,...a){ const cb=a[a.length-1]; if(hit()&&"${mode}"==="enospc"){ ws.call(fs,p,"");return setImmediate(()=>cb(err())); } return wf.call(fs,p,...a); };
fs.promises.writeFile=async function(p,d){ if(hit()&&"${mode}"==="enospc"){ ws.call(fs,p,"");throw err(); } return ws.call(fs,p,d); };
fs.writeSync=function(fd,b,...a){ if(fd>2&&hit()){ if("${mode}"==="enospc")throw err(); if(typeof b==="string")b=Buffer.from(b); const off=a[0]||0,len=a[1]===undefined?b.length-off:a[1]; return w.call(fs,fd,b,off,len>>1); } return w.call(fs,fd,b,...a); };
`); return f; }
const OUT = { asm: "out.asm", hpp: "out.hpp", cpp: "out.cpp", element_hpp: "fx_element.hpp", generic_cpp: "fx_generic.cpp", raw_generic_cpp: "fx_raw_generic.cpp", raw_arm64_s: "fx_raw_arm64.s" };
const ARGS = ["-q", P[0], "-n", "Fx", "--oa", "out.asm", "--oh", "out.hpp", "--oc", "out.cpp"];
function complete(dir, want) { return KEYS.filter(k => { try { return fs.readFileSync(path.join(dir, OUT[k]), "utf8") !== want[k]; } catch (e) { return true; } }); }
'''
bug("c18-ignored-write-error", "C18", "writing one of the outputs fails", "Outputs are written in parallel and the error argument of their callbacks is ignored: the command exits with success.",
 [(J, "        fs.writeFileSync(cGenericFileName, res.generic_cpp, \"utf8\");\n        fs.writeFileSync(cRawGenericFileName, res.raw_generic_cpp, \"utf8\");\n        fs.writeFileSync(sRawArm64FileName, res.raw_arm64_s, \"utf8\");\n", "        const written = () => {};\n\n        // the big ones in parallel\n        fs.writeFile(cGenericFileName, res.generic_cpp, \"utf8\", written);\n        fs.writeFile(cRawGenericFileName, res.raw_generic_cpp, \"utf8\", written);\n        fs.writeFile(sRawArm64FileName, res.raw_arm64_s, \"utf8\", written);\n")], PRE + FAULT + r'''
const want = alone(P[0], "Fx");
for (let k = 0; k < 8; k++) { const d = path.resolve("r" + k); fs.mkdirSync(d); const r = command(ARGS, faulty("enospc", k), d); const bad = complete(d, want); if (r.status === 0 && bad.length) fail("write " + k + " failed, the command succeeded without " + bad); if (r.status !== 0 && !bad.length) fail("failure without reason"); }
''', kind="js")

bug("c18-short-write", "C18", "a write that takes only part of the data (a nearly full disk)", "Outputs go through one writeSync whose count is not looked at.",
 [(J, "        fs.writeFileSync(asmFileName, res.asm, \"utf8\");\n", "        // the assembly is large: write it without another copy\n        const fd = fs.openSync(asmFileName, \"w\");\n\n        fs.writeSync(fd, res.asm, 0, \"utf8\");\n        fs.closeSync(fd);\n")], PRE + FAULT + r'''
const want = alone(P[0], "Fx");
for (let k = 0; k < 3; k++) for (const m of ["short", "enospc"]) { const d = path.resolve("r" + m + k); fs.mkdirSync(d); const r = command(ARGS, faulty(m, k), d); const bad = complete(d, want); if (r.status === 0 && bad.length) fail(m + " write " + k + ", the command succeeded with incomplete " + bad); }
''', kind="js")

bug("c18-stale-kept", "C18", "an output that exists from an earlier run for another prime, with the same length", "An output whose size has not changed is taken to be up to date and is not written.",
 [(J, "        fs.writeFileSync(hElementFileName, res.element_hpp, \"utf8\");\n", "        // keep the time stamp of an unchanged header, everything includes it\n        if (!fs.existsSync(hElementFileName) || fs.statSync(hElementFileName).size !== res.element_hpp.length) {\n            fs.writeFileSync(hElementFileName, res.element_hpp, \"utf8\");\n        }\n")], PRE + FAULT + r'''
const want = alone(P[0], "Fx"); const d = path.resolve("r"); fs.mkdirSync(d);
fs.writeFileSync(path.join(d, OUT.element_hpp), want.element_hpp.replace(/[a-z]/g, "z")); for (const k of KEYS) if (k !== "element_hpp") fs.writeFileSync(path.join(d, OUT[k]), want[k].replace(/[a-z0-9]/g, "y"));
const r = command(ARGS, null, d); const bad = complete(d, want); if (r.status === 0 && bad.length) fail("the command succeeded and left old " + bad);
if (r.status !== 0) fail("the command failed");
''', kind="js")
