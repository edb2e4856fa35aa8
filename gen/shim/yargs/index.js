// The part of the yargs API the generator can reasonably use (option groups of single-dash letters included).
"use strict";
function make(args) {
    const o = { alias: {}, demand: [], strings: new Set(), bools: new Set(), dflt: {}, groups: true };
    const arr = x => Array.isArray(x) ? x : [x];
    const names = k => { const s = new Set([k]); let more = true; while (more) { more = false; for (const a in o.alias) for (const b of o.alias[a]) { if (s.has(a) !== s.has(b)) { s.add(a); s.add(b); more = true; } } } return s; };
    const isStr = k => [...names(k)].some(n => o.strings.has(n)), isBool = k => [...names(k)].some(n => o.bools.has(n));
    const coerce = (k, v) => { if (isStr(k) || typeof v !== "string") return v; if (/^0x[0-9a-f]+$/i.test(v) || /^[-]?(?:\d+(?:\.\d*)?|\.\d+)(e[-+]?\d+)?(\s*)$/.test(v)) { if (!/^0[^.]/.test(v) || /^0x/i.test(v)) { const n = Number(v); if (Number.isSafeInteger(Math.floor(n))) return n; } } return v; };
    const parse = list => {
        const r = { _: [], $0: "buildzqfield" };
        const set = (k, v) => { v = coerce(k, v); for (const n of names(k)) r[n] = r[n] !== undefined && n in r && r["\0" + n] ? [].concat(r[n], v) : v; for (const n of names(k)) Object.defineProperty(r, "\0" + n, { value: 1, enumerable: false }); };
        for (let i = 0; i < list.length; i++) { const a = list[i], nx = list[i + 1]; const takes = k => !isBool(k) && nx !== undefined && (!/^-/.test(nx) || /^-\d/.test(nx));
            if (a === "--") { r._.push(...list.slice(i + 1)); break; }
            let m;
            if ((m = /^--([^=]+)=([\s\S]*)$/.exec(a)) || (!o.groups && (m = /^-([^=-][^=]*)=([\s\S]*)$/.exec(a)))) set(m[1], m[2]);
            else if (/^--no-./.test(a)) set(a.slice(5), false);
            else if ((m = /^--(.+)$/.exec(a)) || (!o.groups && (m = /^-([^-].*)$/.exec(a)) && !/^-\d/.test(a))) { if (takes(m[1])) { set(m[1], nx); i++; } else set(m[1], true); }
            else if (/^-[^-]/.test(a) && !/^-\d/.test(a)) {
                const L = a.slice(1); let done = false;
                for (let j = 0; j < L.length - 1; j++) { const rest = L.slice(j + 1); if (L[j + 1] === "=") { set(L[j], L.slice(j + 2)); done = true; break; } if (/[A-Za-z]/.test(L[j]) && /^-?\d+(\.\d*)?(e-?\d+)?$/.test(rest)) { set(L[j], rest); done = true; break; } set(L[j], true); }
                if (!done) { const k = L[L.length - 1]; if (takes(k)) { set(k, nx); i++; } else set(k, true); }
            } else r._.push(coerce("_", a));
        }
        for (const k in o.dflt) for (const n of names(k)) if (r[n] === undefined) r[n] = o.dflt[k];
        const missing = o.demand.filter(k => r[k] === undefined);
        if (missing.length) { make._err("Missing required argument: " + missing.join(", ")); make._exit(1); }
        return r;
    };
    const y = {
        usage() { return y; }, example() { return y; }, help() { return y; }, version() { return y; }, epilog() { return y; }, strict() { return y; }, wrap() { return y; }, describe() { return y; }, check() { return y; }, command() { return y; }, showHelpOnFail() { return y; }, exitProcess() { return y; }, scriptName() { return y; }, locale() { return y; }, group() { return y; }, nargs() { return y; }, requiresArg() { return y; },
        demandOption(k) { for (const x of arr(k)) o.demand.push(x); return y; }, demand(k) { for (const x of arr(k)) o.demand.push(x); return y; },
        alias(k, v) { if (typeof k === "object") { for (const q in k) y.alias(q, k[q]); return y; } (o.alias[k] = o.alias[k] || []).push(...arr(v)); return y; },
        string(k) { for (const x of arr(k)) o.strings.add(x); return y; }, boolean(k) { for (const x of arr(k)) o.bools.add(x); return y; }, default(k, v) { if (typeof k === "object") Object.assign(o.dflt, k); else o.dflt[k] = v; return y; },
        option(k, d) { if (typeof k === "object") { for (const q in k) y.option(q, k[q]); return y; } d = d || {}; if (d.alias) y.alias(k, d.alias); if (d.demandOption || d.demand || d.required) o.demand.push(k); if (d.type === "string") o.strings.add(k); if (d.type === "boolean") o.bools.add(k); if ("default" in d) o.dflt[k] = d.default; return y; },
        options(k, d) { return y.option(k, d); }, parserConfiguration(c) { if (c["short-option-groups"] === false) o.groups = false; return y; },
        parse(a) { return parse(a || list()); }, parseSync(a) { return parse(a || list()); }, get argv() { return parse(list()); },
    };
    const list = () => args || make._argv();
    return y;
}
make._argv = () => process.argv.slice(2); make._exit = c => process.exit(c); make._err = m => console.error(m);
module.exports = new Proxy(make, { get(t, k) { if (k in t) return t[k]; const y = make(); const v = y[k]; return v; } });
