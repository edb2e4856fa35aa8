// A small EJS (the subset of the 3.x language that matters: <% <%= <%- <%_ <%# <%% and the %> -%> _%> ends, include()).
"use strict";
const path = require("path");
let fs = require("fs");
const esc = s => s === undefined || s === null ? "" : String(s).replace(/[&<>'"]/g, c => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&#34;", "'": "&#39;" })[c]);
exports.escapeXML = esc;
const compiled = new Map();
function compileSource(text) {
    let js = ""; const lit = s => { if (s !== "") js += "__append(" + JSON.stringify(s) + ");"; };
    let i = 0, trim = false;
    while (i < text.length) {
        let a = text.indexOf("<%", i);
        let chunk = a < 0 ? text.slice(i) : text.slice(i, a);
        if (trim) { chunk = chunk.replace(/^(?:\r\n|\r|\n)/, ""); trim = false; }
        if (a < 0) { lit(chunk); break; }
        let mode = text[a + 2]; let b;
        if (mode === "%") { lit(chunk + "<%"); i = a + 3; continue; }
        if (mode === "_") chunk = chunk.replace(/[ \t]*$/, "");
        lit(chunk);
        let s = a + 2; if (mode === "=" || mode === "-" || mode === "#" || mode === "_") s++; else mode = "";
        b = text.indexOf("%>", s); if (b < 0) throw new Error('Could not find matching close tag for "<%".');
        let e = b; let end = text[b - 1];
        if (end === "-" && b - 1 >= s) { e--; trim = true; } else if (end === "_" && b - 1 >= s) { e--; }
        let code = text.slice(s, e);
        if (mode === "=") js += "__append(escapeFn(" + code.replace(/(\s*;\s*)+$/, "").trim() + "\n));";
        else if (mode === "-") js += "__append(" + code.replace(/(\s*;\s*)+$/, "").trim() + "\n);";
        else if (mode !== "#") js += code + "\n";
        i = b + 2;
        if (end === "_" && b - 1 >= s) { const m = /^[ \t]*(?:\r\n|\r|\n)?/.exec(text.slice(i)); i += m[0].length; }
    }
    return new Function("locals", "escapeFn", "include", "var __output='';function __append(s){if(s!==undefined&&s!==null)__output+=s}\nwith(locals||{}){" + js + "}\nreturn __output;");
}
function compile(text, filename) {
    let fn = compiled.get(text); if (!fn) { fn = compileSource(text); compiled.set(text, fn); }
    return function (data) {
        const include = (p, more) => { const d = {}; for (const k in data) d[k] = data[k]; if (more) for (const k in more) d[k] = more[k];
            let f = path.resolve(path.dirname(filename), p); if (!path.extname(f)) f += ".ejs";
            return compile(exports._fs().readFileSync(f, "utf8").toString().replace(/^\uFEFF/, ""), f)(d); };
        return fn(data || {}, esc, include);
    };
}
exports._fs = () => fs;
exports.setFs = f => { fs = f; };
exports.compile = (text, opts) => compile(text, (opts && opts.filename) || "template");
exports.render = (text, data, opts) => exports.compile(text, opts)(data);
// how the completion is delivered is the simulator's choice
exports._deliver = fn => fn();
exports.renderFile = function (filename, data, opts, cb) {
    if (typeof data === "function") { cb = data; data = {}; opts = undefined; } else if (typeof opts === "function") { cb = opts; opts = undefined; }
    const work = () => compile(exports._fs().readFileSync(filename, "utf8").toString().replace(/^\uFEFF/, ""), filename)(data);
    const run = (res, rej) => exports._deliver(() => { let r; try { r = work(); } catch (e) { return exports._deliver2(() => rej(e)); } exports._deliver2(() => res(r)); });
    if (!cb) return new Promise((res, rej) => run(res, rej));
    run(r => cb(null, r), e => cb(e));
};
exports._deliver2 = fn => fn();
exports.clearCache = () => {};
exports.cache = { get() {}, set() {}, reset() {} };
