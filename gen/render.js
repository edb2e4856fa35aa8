// Renders the fields the simulated programs use, with the generator of the repository: render.js REPO OUT
"use strict";
const path = require("path"), fs = require("fs"), Module = require("module");
const [, , repo, out] = process.argv;
process.env.NODE_PATH = path.join(__dirname, "shim"); Module._initPaths();
const build = require(path.join(repo, "src", "buildzqfield.js"));
const F = { Fr: "21888242871839275222246405745257275088548364400416034343698204186575808495617", Fq: "21888242871839275222246405745257275088696311157297823662689037894645226208583",
    Fs: "18446744069414584321", Fl: "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787" };
(async () => {
    for (const n of Object.keys(F)) {
        const r = await build(F[n], n), l = n.toLowerCase();
        const w = (f, s) => fs.writeFileSync(path.join(out, f), s);
        w(l + ".asm", r.asm); w(l + ".hpp", r.hpp); w(l + ".cpp", r.cpp); w(l + "_element.hpp", r.element_hpp); w(l + "_generic.cpp", r.generic_cpp); w(l + "_raw_generic.cpp", r.raw_generic_cpp);
    }
})().catch(e => { console.error(e); process.exit(1); });
