// Deterministic simulation of the field generator: own module loader, disk, event loop, clock and randomness.
//   node sim.js sweep REPO PROP BASESEED RUNS WORKER WORKERS TIME OUT
//   node sim.js minimise REPO FILE OUT | replay REPO FILE
"use strict";
const real = { fs: require("fs"), path: require("path"), vm: require("vm"), util: require("util"), stream: require("stream"), crypto: require("crypto"), events: require("events"),
    setImmediate, setTimeout, Date, hr: process.hrtime.bigint.bind(process.hrtime), argv: process.argv.slice(2), exit: process.exit.bind(process), out: s => require("fs").writeSync(1, s), err: s => require("fs").writeSync(2, s), random: Math.random, nextTick: process.nextTick.bind(process) };
const SHIM = real.path.join(__dirname, "..", "gen", "shim");
const path = real.path;

// ---- random numbers
class Rng {
    constructor(seed) { this.s = BigInt.asUintN(64, BigInt(seed)); }
    next() { this.s = BigInt.asUintN(64, this.s + 0x9E3779B97F4A7C15n); let z = this.s; z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xBF58476D1CE4E5B9n); z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94D049BB133111EBn); return z ^ (z >> 31n); }
    below(n) { return Number((this.next() >> 11n) % BigInt(n)); }
    chance(a, b) { return this.below(b) < a; }
    pick(a) { return a[this.below(a.length)]; }
}
const mix = (a, b) => { const r = new Rng(BigInt.asUintN(64, BigInt(a) * 0x9E3779B97F4A7C15n + BigInt(b))); r.next(); return r.next(); };
const sha = s => real.crypto.createHash("sha256").update(s).digest("hex").slice(0, 24);

// ---- scheduler and faults of one run
let S = null;      // current run
class Sim {
    constructor(spec, replay) {
        this.spec = spec; this.replay = replay; this.rng = new Rng(mix(spec.seed, 77)); this.q = []; this.step = 0; this.now = spec.date || 1700000000000; this.choices = []; this.h = real.crypto.createHash("sha256");
        this.faultsHit = {}; this.ops = {}; this.dead = null; this.exitCode = undefined; this.unhandled = []; this.envrng = new Rng(mix(spec.seed, 99 + (spec.ref ? 1 : 0))); this.nonfifo = 0; this.timers = 0; this.reads = 0;
    }
    note(x) { this.h.update(x + "\n"); }
    post(fn, what, at) { this.q.push({ fn, what, at: at === undefined ? 0 : at, id: this.nid = (this.nid || 0) + 1 }); }
    pick() {          // index of the next event: due ones in any order, else the earliest timer
        let due = this.q.map((e, i) => i).filter(i => this.q[i].at <= this.now);
        if (!due.length) { let t = Infinity; for (const e of this.q) if (e.at < t) t = e.at; this.now = t; due = this.q.map((e, i) => i).filter(i => this.q[i].at <= this.now); }
        let k = 0;
        if (this.spec.fifo) k = 0;
        else if (this.replay) { k = this.replay[this.step] || 0; if (k >= due.length) k = 0; }
        else if (due.length > 1) { const m = this.spec.policy; k = m === "lifo" ? due.length - 1 : m === "fifo" ? 0 : m === "starve" ? (this.rng.chance(1, 10) ? 0 : 1 + this.rng.below(due.length - 1)) : this.rng.below(due.length); }
        if (k) { this.choices.push([this.step, k]); this.nonfifo++; }
        this.step++;
        return due[k];
    }
    // one call of the simulated process into its disk: other processes' calls come before it, the process may die in it, it may be recorded
    sys(name, args, f, partial) {
        if (this.inSys || !this.trackSys) return f();
        if (this.killed) throw new Kill();
        const k = this.nsys++; if (this.before) { this.inSys = true; try { this.before(k); } finally { this.inSys = false; } }
        if (this.killAt && this.killAt.k === k) { this.killed = this.exited = true; this.exitCode = 137; this.faultsHit.process_killed = (this.faultsHit.process_killed || 0) + 1; this.note("killed in " + name); if (partial) { this.inSys = true; try { partial(this.killAt.frac); } catch (e) { /* nothing was written */ } finally { this.inSys = false; } } throw new Kill(); }
        const o = { name, args: this.rec ? args.map(a => Buffer.isBuffer(a) ? Buffer.from(a) : a) : null }; this.inSys = true;
        try { const r = f(); if (this.rec) { o.r = outcome(name, r); o.v = r; this.rec.push(o); } return r; } catch (e) { if (this.rec) { o.r = "error " + e.code; this.rec.push(o); } throw e; } finally { this.inSys = false; }
    }
    fault(kind) {      // does the k-th operation of this kind fail in this run?
        const n = this.ops[kind] = (this.ops[kind] || 0) + 1;
        for (const f of this.spec.faults || []) if (f.op === kind && f.k === n - 1) { this.faultsHit[f.kind] = (this.faultsHit[f.kind] || 0) + 1; this.note("fault " + kind + " " + f.kind); return f; }
        return null;
    }
}
class Kill extends Error { constructor() { super("killed"); this.exit = true; } }
class Exit extends Error { constructor(c) { super("exit " + c); this.exit = true; } }
function syserr(code, call, p) { const t = { ENOSPC: "no space left on device", EIO: "i/o error", EACCES: "permission denied", ENOENT: "no such file or directory", EMFILE: "too many open files", EISDIR: "illegal operation on a directory", EROFS: "read-only file system", EDQUOT: "disk quota exceeded", EEXIST: "file already exists", EBADF: "bad file descriptor", ENOTDIR: "not a directory", EFBIG: "file too large" };
    const e = new Error(`${code}: ${t[code] || "error"}, ${call}${p ? " '" + p + "'" : ""}`); e.code = code; e.errno = -5; e.syscall = call; if (p) e.path = p; return e; }

const outcome = (name, r) => name === "open" ? "fd" : name === "readAll" ? sha(r) : name === "statSync" ? (r ? r.isFile() + " " + r.size : "none") : name === "fstatSync" ? String(r.size) : r === undefined || typeof r === "object" ? JSON.stringify(r) : String(r);
// ---- disk: files by absolute path, directories, a capacity; sources of the repository are read-only files of the real disk
class Disk { constructor(spec) { this.f = new Map(); this.d = new Set(["/", "/sim", "/tmp"]); this.free = spec.capacity === undefined ? Infinity : spec.capacity; for (const d of spec.dirs || []) this.d.add(d); for (const [p, s] of spec.files || []) this.f.set(p, { data: Buffer.from("old contents ".repeat(s)) }); this.fds = new Map(); this.nfd = 20; }
    clone() { const c = new Disk({}); for (const [k, v] of this.f) c.f.set(k, { data: Buffer.from(v.data) }); c.d = new Set(this.d); c.free = this.free; return c; } }
function makeFs(repo) {
    const R = p => path.resolve("/sim", p instanceof URL ? require("url").fileURLToPath(p) : String(p));
    const isSrc = p => p === repo || p.startsWith(repo + path.sep) || p.startsWith(SHIM + path.sep);
    const enc = o => typeof o === "string" ? o : o && o.encoding;
    const low = {
        open(p0, flags = "r") {
            if (typeof flags === "number") flags = (flags & 3) === 0 ? "r" : flags & 1024 ? "a" : flags & 128 ? (flags & 64 ? "wx" : "r+") : flags & 512 ? "w" : "r+";
            const p = R(p0), w = /[wa+]/.test(flags), ft = S.fault(w ? "open" : "readopen");
            if (ft) throw syserr(ft.err, "open", p0);
            if (isSrc(p)) { if (w) throw syserr("EROFS", "open", p0); let st; try { st = real.fs.statSync(p); } catch (e) { throw syserr("ENOENT", "open", p0); } if (st.isDirectory()) throw syserr("EISDIR", "read", p0); const fd = S.disk.nfd++; S.disk.fds.set(fd, { src: real.fs.readFileSync(p), pos: 0, p: p0 }); return fd; }
            if (S.disk.d.has(p)) throw syserr("EISDIR", "open", p0);
            if (!S.disk.d.has(path.dirname(p))) throw syserr(S.disk.f.has(path.dirname(p)) ? "ENOTDIR" : "ENOENT", "open", p0);
            let n = S.disk.f.get(p);
            if (!n && (flags[0] === "r")) throw syserr("ENOENT", "open", p0);
            if (n && /x/.test(flags)) throw syserr("EEXIST", "open", p0);
            if (!n) { n = { data: Buffer.alloc(0) }; S.disk.f.set(p, n); }
            if (flags[0] === "w") { S.disk.free += n.data.length; n.data = Buffer.alloc(0); }
            const fd = S.disk.nfd++; S.disk.fds.set(fd, { n, pos: 0, app: flags[0] === "a", p: p0, w }); return fd;
        },
        fd(fd) { const h = S.disk.fds.get(fd); if (!h) throw syserr("EBADF", "write"); return h; },
        write(fd, buf, off = 0, len = buf.length - off, pos = null) {     // may write less than asked
            const h = low.fd(fd); if (!h.w) throw syserr("EBADF", "write"); const ft = S.fault("write"); let n = len, err = null;
            if (ft) { if (ft.kind === "short_write") n = Math.max(1, Math.min(len, Math.floor(len * ft.frac))); else { n = ft.part ? Math.min(len, Math.floor(len * ft.frac)) : 0; err = ft.err; } }
            const at = h.app ? h.n.data.length : pos === null || pos === undefined ? h.pos : pos; const grow = Math.max(0, at + n - h.n.data.length);
            if (grow > S.disk.free) { n = Math.max(0, n - (grow - S.disk.free)); S.faultsHit.disk_full = (S.faultsHit.disk_full || 0) + 1; if (n === 0 && len > 0) err = "ENOSPC"; }
            if (n > 0) { const end = at + n, g = Math.max(0, end - h.n.data.length); if (g) { const b = Buffer.alloc(end); h.n.data.copy(b); h.n.data = b; S.disk.free -= g; } buf.copy(h.n.data, at, off, off + n); if (pos === null || pos === undefined) h.pos = end; }
            if (err) { if (ft && ft.part && n) return n | 0 ? (S.pendErr = S.pendErr || new Map(), S.pendErr.set(fd, err), n) : n; throw syserr(err, "write"); }
            return n;
        },
        write2(fd, buf, off, len, pos) { if (S.pendErr && S.pendErr.has(fd)) { const e = S.pendErr.get(fd); throw syserr(e, "write"); } return low.write(fd, buf, off, len, pos); },
        close(fd) { const h = S.disk.fds.get(fd); if (!h) throw syserr("EBADF", "close"); S.disk.fds.delete(fd); if (h.w) { const ft = S.fault("close"); if (ft) throw syserr(ft.err, "close"); } },
        readAll(fd) { const h = low.fd(fd); const ft = S.fault("read"); S.reads++; if (ft) throw syserr(ft.err, "read"); const d = h.src || h.n.data; const r = d.subarray(h.pos); h.pos = d.length; return Buffer.from(r); },
    };
    for (const k of ["open", "write", "close", "readAll"]) { const f = low[k]; low[k] = (...a) => { if (!S.trackSys) return f(...a); if (k === "open" ? isSrc(R(a[0])) : (S.disk.fds.get(a[0]) || {}).src) return f(...a); return S.sys(k, a, () => f(...a), k === "write" ? fr => f(a[0], a[1], a[2] || 0, Math.floor(((a[3] === undefined ? a[1].length - (a[2] || 0) : a[3])) * fr), a[4]) : null); }; }
    const toBuf = (d, o) => typeof d === "string" ? Buffer.from(d, enc(o) || "utf8") : Buffer.isBuffer(d) ? d : ArrayBuffer.isView(d) ? Buffer.from(d.buffer, d.byteOffset, d.byteLength) : (() => { const e = new TypeError('The "data" argument must be of type string or an instance of Buffer, TypedArray, or DataView. Received ' + real.util.inspect(d)); e.code = "ERR_INVALID_ARG_TYPE"; throw e; })();
    const sync = {
        openSync: (...a) => low.open(...a), closeSync: fd => low.close(fd),
        writeSync(fd, d, a, b, c) { const s = typeof d === "string"; const buf = s ? Buffer.from(d, typeof b === "string" ? b : "utf8") : toBuf(d); if (s) return low.write2(fd, buf, 0, buf.length, a); if (a && typeof a === "object") return low.write2(fd, buf, a.offset, a.length, a.position); return low.write2(fd, buf, a, b, c); },
        readFileSync(p, o) { const fd = typeof p === "number" ? p : low.open(p, (o && o.flag) || "r"); let r; try { r = low.readAll(fd); } finally { if (fd !== p) low.close(fd); } return enc(o) ? r.toString(enc(o)) : r; },
        writeFileSync(p, d, o) { const b = toBuf(d, o); const fd = typeof p === "number" ? p : low.open(p, (o && o.flag) || "w"); try { let off = 0; while (off < b.length) off += low.write2(fd, b, off, b.length - off, null); } finally { if (fd !== p) low.close(fd); } },
        appendFileSync(p, d, o) { return sync.writeFileSync(p, d, Object.assign({ flag: "a" }, typeof o === "string" ? { encoding: o } : o)); },
        existsSync(p) { const r = R(p); return S.disk.f.has(r) || S.disk.d.has(r) || (isSrc(r) && real.fs.existsSync(r)); },
        statSync(p, o) { const r = R(p); if (isSrc(r)) return real.fs.statSync(r, o); const f = S.disk.f.get(r), d = S.disk.d.has(r); if (!f && !d) { if (o && o.throwIfNoEntry === false) return undefined; throw syserr("ENOENT", "stat", p); } return { size: f ? f.data.length : 4096, isFile: () => !!f, isDirectory: () => d, isSymbolicLink: () => false, mode: 0o644, mtimeMs: S.now, mtime: new real.Date(S.now) }; },
        accessSync(p) { sync.statSync(p); },
        mkdirSync(p, o) { const r = R(p), ft = S.fault("mkdir"); if (ft) throw syserr(ft.err, "mkdir", p); if (S.disk.d.has(r)) { if (o && o.recursive) return undefined; throw syserr("EEXIST", "mkdir", p); } if (!S.disk.d.has(path.dirname(r))) { if (o && o.recursive) sync.mkdirSync(path.dirname(r), o); else throw syserr("ENOENT", "mkdir", p); } if (S.disk.f.has(r)) throw syserr("EEXIST", "mkdir", p); S.disk.d.add(r); return r; },
        mkdtempSync(p) { let n = 0, r; do r = R(p) + "s" + n++; while (S.disk.d.has(r)); sync.mkdirSync(r); return r; },
        renameSync(a, b) { const x = R(a), y = R(b), ft = S.fault("rename"); if (ft) throw syserr(ft.err, "rename", a); const n = S.disk.f.get(x); if (!n) throw syserr("ENOENT", "rename", a); if (!S.disk.d.has(path.dirname(y))) throw syserr("ENOENT", "rename", b); if (S.disk.d.has(y)) throw syserr("EISDIR", "rename", b); const o = S.disk.f.get(y); if (o && o !== n) S.disk.free += o.data.length; S.disk.f.delete(x); S.disk.f.set(y, n); },
        copyFileSync(a, b) { sync.writeFileSync(b, sync.readFileSync(a)); },
        unlinkSync(p) { const r = R(p), n = S.disk.f.get(r); if (!n) throw syserr("ENOENT", "unlink", p); S.disk.free += n.data.length; S.disk.f.delete(r); },
        rmSync(p, o) { const r = R(p); if (S.disk.f.has(r)) return sync.unlinkSync(p); if (S.disk.d.has(r)) { S.disk.d.delete(r); return; } if (!(o && o.force)) throw syserr("ENOENT", "rm", p); },
        rmdirSync(p) { const r = R(p); if (!S.disk.d.delete(r)) throw syserr("ENOENT", "rmdir", p); },
        readdirSync(p) { const r = R(p); if (isSrc(r)) return real.fs.readdirSync(r); const out = []; for (const k of S.disk.f.keys()) if (path.dirname(k) === r) out.push(path.basename(k)); return out.sort(); },
        truncateSync(p, n = 0) { const h = S.disk.f.get(R(p)); if (!h) throw syserr("ENOENT", "open", p); h.data = n <= h.data.length ? Buffer.from(h.data.subarray(0, n)) : Buffer.concat([h.data, Buffer.alloc(n - h.data.length)]); },
        ftruncateSync(fd, n = 0) { const h = low.fd(fd).n; h.data = n <= h.data.length ? Buffer.from(h.data.subarray(0, n)) : Buffer.concat([h.data, Buffer.alloc(n - h.data.length)]); },
        fsyncSync(fd) { low.fd(fd); const ft = S.fault("fsync"); if (ft) throw syserr(ft.err, "fsync"); }, fdatasyncSync(fd) { sync.fsyncSync(fd); }, realpathSync: p => R(p), chmodSync() {}, utimesSync() {}, constants: real.fs.constants, lstatSync: (p, o) => sync.statSync(p, o), fstatSync(fd) { const h = low.fd(fd); return { size: (h.src || h.n.data).length, isFile: () => true, isDirectory: () => false }; },
    };
    for (const k of ["existsSync", "statSync", "mkdirSync", "mkdtempSync", "renameSync", "unlinkSync", "rmSync", "rmdirSync", "readdirSync", "truncateSync", "ftruncateSync", "fsyncSync", "fstatSync"]) { const f = sync[k]; sync[k] = (...a) => !S.trackSys || typeof a[0] === "string" && isSrc(R(a[0])) || typeof a[0] === "number" && (S.disk.fds.get(a[0]) || {}).src ? f(...a) : S.sys(k, a, () => f(...a)); }
    S.raw = { low, sync };
    const fs = Object.assign({}, sync), promises = { constants: real.fs.constants };
    for (const k of Object.keys(sync)) if (k.endsWith("Sync") && k !== "existsSync") {
        const n = k.slice(0, -4);
        fs[n] = (...a) => { const cb = a.pop(); S.post(() => { let r; try { r = sync[k](...a); } catch (e) { if (e.exit) throw e; return cb(e); } cb(null, r); }, "fs." + n); };
        promises[n] = (...a) => new Promise((res, rej) => S.post(() => { let r; try { r = sync[k](...a); } catch (e) { return rej(e); } res(r); }, "fsp." + n));
    }
    fs.exists = (p, cb) => S.post(() => cb(sync.existsSync(p)), "fs.exists"); fs.exists[real.util.promisify.custom] = p => new Promise(r => fs.exists(p, r));
    const openh = promises.open; promises.open = (...a) => openh(...a).then(fd => ({ fd, writeFile: (d, o) => promises.writeFile(fd, d, o), write: (...b) => promises.write(fd, ...b).then(n => ({ bytesWritten: n })), close: () => promises.close(fd), sync: () => promises.fsync(fd), datasync: () => promises.fsync(fd), readFile: o => promises.readFile(fd, o), stat: () => promises.fstat(fd), truncate: n => promises.ftruncate(fd, n) }));
    fs.promises = promises;
    fs.createWriteStream = (p, o) => { let fd = null; const w = new real.stream.Writable({ decodeStrings: true,
        construct(cb) { S.post(() => { try { fd = low.open(p, (o && o.flags) || "w"); } catch (e) { return cb(e); } w.emit("open", fd); w.emit("ready"); cb(); }, "ws.open"); },
        write(c, e, cb) { S.post(() => { try { let off = 0; while (off < c.length) off += low.write2(fd, c, off, c.length - off, null); } catch (x) { return cb(x); } cb(); }, "ws.write"); },
        destroy(err, cb) { if (fd === null) return cb(err); S.post(() => { try { low.close(fd); } catch (x) { err = err || x; } cb(err); }, "ws.close"); } }); w.path = p; return w; };
    return fs;
}

// ---- module loader: one registry per simulated process
const compiled = new Map();
function compileFile(f) { let c = compiled.get(f); if (!c) { let src = real.fs.readFileSync(f, "utf8"); if (src.startsWith("#!")) src = "//" + src; if (f.endsWith(".json")) c = { json: src }; else c = { fn: real.vm.compileFunction(src, ["exports", "require", "module", "__filename", "__dirname", "process"], { filename: f }) }; compiled.set(f, c); } return c; }
function makeProcess(argv) {
    const ee = new real.events.EventEmitter();
    const p = { argv: ["node", "buildzqfield", ...argv], env: {}, cwd: () => "/sim", platform: "linux", arch: "x64", pid: S.pid || 4242, version: process.version, versions: process.versions, execPath: "/usr/bin/node", execArgv: [], title: "node", exitCode: undefined,
        exit(c) { if (c !== undefined) p.exitCode = c; S.exited = true; S.exitCode = +(p.exitCode || 0); throw new Exit(S.exitCode); }, nextTick: real.nextTick, hrtime: Object.assign(() => [Math.floor(S.now / 1000), (S.now % 1000) * 1e6], { bigint: () => BigInt(S.now) * 1000000n }), uptime: () => 1 + S.envrng.below(1000), memoryUsage: Object.assign(() => ({ rss: 1e8, heapUsed: 5e7, heapTotal: 6e7 }), { rss: () => 1e8 }), umask: () => 0o22, emitWarning() {},
        stdout: { write() { return true; }, isTTY: false, on() {}, once() {}, end() {} }, stderr: { write() { return true; }, isTTY: false, on() {}, once() {}, end() {} }, stdin: { on() {}, isTTY: false },
        abort() { S.exited = true; S.exitCode = 134; throw new Exit(134); }, kill() {}, reallyExit(c) { p.exit(c); } };
    for (const k of ["on", "once", "off", "addListener", "removeListener", "removeAllListeners", "emit", "listeners", "listenerCount", "prependListener"]) p[k] = (...a) => { const r = ee[k](...a); return r === ee ? p : r; };
    p._ee = ee; return p;
}
function registry(repo, argv, mainFile) {
    const mods = new Map(), fs = makeFs(repo), proc = makeProcess(argv); let main = null;
    const builtin = n => { n = n.replace(/^node:/, "");
        if (n === "fs") return fs; if (n === "fs/promises") return fs.promises; if (n === "process") return proc;
        if (n === "child_process" || n === "worker_threads" || n === "cluster" || n === "http" || n === "net") throw new Error("not simulated: " + n);
        if (n === "timers") return { setTimeout: globalThis.setTimeout, setImmediate: globalThis.setImmediate, clearTimeout: globalThis.clearTimeout, setInterval: globalThis.setInterval, clearInterval: globalThis.clearInterval };
        if (n === "timers/promises") return { setTimeout: (ms, v) => new Promise(r => globalThis.setTimeout(() => r(v), ms)), setImmediate: v => new Promise(r => globalThis.setImmediate(() => r(v))) };
        if (n === "crypto") return Object.assign(Object.create(real.crypto), { randomBytes: k => { const b = Buffer.alloc(k); for (let i = 0; i < k; i++) b[i] = S.envrng.below(256); return b; }, randomUUID: () => "00000000-0000-4000-8000-" + String(S.envrng.below(1e12)).padStart(12, "0"), randomInt: (a, b) => b === undefined ? S.envrng.below(a) : a + S.envrng.below(b - a) });
        if (n === "os") return Object.assign(Object.create(require("os")), { tmpdir: () => "/tmp", hostname: () => "host" + S.envrng.below(1000), cpus: () => Array(1 + S.envrng.below(16)).fill({ model: "sim" }) });
        if (n === "perf_hooks") return { performance: { now: () => S.now } };
        return require(n); };
    function load(f, parent) {
        if (mods.has(f)) return mods.get(f).exports;
        const m = { exports: {}, id: parent ? f : ".", filename: f, parent: parent || null, children: [], loaded: false, paths: [] };
        if (!parent && f === mainFile) { main = m; }
        mods.set(f, m);
        try {
            const c = compileFile(f);
            if (c.json !== undefined) m.exports = JSON.parse(c.json);
            else { const r = req(m); c.fn.call(m.exports, m.exports, r, m, f, path.dirname(f), proc); }
            if (f === path.join(SHIM, "ejs", "index.js")) { m.exports.setFs(fs); m.exports._deliver2 = fn => S.post(fn, "template"); if (S.spec.defer) m.exports._deliver = fn => S.post(fn, "render"); }
            if (f === path.join(SHIM, "yargs", "index.js")) { m.exports._argv = () => proc.argv.slice(2); m.exports._exit = c => proc.exit(c); m.exports._err = () => {}; }
        } catch (e) { mods.delete(f); throw e; }
        m.loaded = true;
        return m.exports;
    }
    const resolve = (n, from) => {
        if (["ejs", "big-integer", "yargs"].includes(n)) return path.join(SHIM, n, "index.js");
        if (n === "yargs/yargs") return path.join(SHIM, "yargs", "index.js"); if (n === "yargs/helpers") return "helpers";
        if (!/^[./]/.test(n)) return null;
        const b = path.resolve(path.dirname(from), n);
        for (const c of [b, b + ".js", b + ".json", path.join(b, "index.js")]) { try { if (real.fs.statSync(c).isFile()) return c; } catch (e) { /* next */ } }
        const e = new Error("Cannot find module '" + n + "'"); e.code = "MODULE_NOT_FOUND"; throw e;
    };
    function req(m) { const r = n => { const f = resolve(n, m.filename); if (f === null) return builtin(n); if (f === "helpers") return { hideBin: a => a.slice(2) }; return load(f, m); }; r.resolve = n => resolve(n, m.filename) || n; r.cache = {}; Object.defineProperty(r, "main", { get: () => main || undefined }); return r; }
    return { load, proc, fs };
}

// ---- globals the code under test may use
const G0 = {}; const G1 = new Set(Reflect.ownKeys(globalThis));
function installGlobals() {
    for (const k of ["Date", "setTimeout", "setInterval", "setImmediate", "clearTimeout", "clearInterval", "clearImmediate", "console", "performance"]) G0[k] = Object.getOwnPropertyDescriptor(globalThis, k);
    const D = real.Date; function SimDate(...a) { if (!new.target) return new D(S.now).toString(); return a.length ? new D(...a) : new D(S.now); } SimDate.prototype = D.prototype; SimDate.now = () => S.now; SimDate.parse = D.parse; SimDate.UTC = D.UTC;
    const def = (k, v) => Object.defineProperty(globalThis, k, { value: v, writable: true, configurable: true, enumerable: false });
    let tid = 1; const live = new Map(), mk = (fn, ms, a, rep) => { const id = tid++, s = S; const arm = () => s.post(() => { if (!live.has(id)) return; if (rep) arm(); else live.delete(id); fn(...a); }, "timer", s.now + Math.max(1, ms | 0)); live.set(id, 1); arm(); return { id, ref() { return this; }, unref() { return this; }, hasRef: () => true, [Symbol.toPrimitive]: () => id }; };
    def("Date", SimDate); def("setTimeout", (fn, ms, ...a) => mk(fn, ms, a, false)); def("setInterval", (fn, ms, ...a) => mk(fn, ms, a, true)); def("setImmediate", (fn, ...a) => { const id = tid++; live.set(id, 1); S.post(() => { if (live.delete(id)) fn(...a); }, "immediate"); return { id }; });
    const clr = h => { if (h) live.delete(typeof h === "object" ? h.id : h); }; def("clearTimeout", clr); def("clearInterval", clr); def("clearImmediate", clr);
    def("performance", { now: () => S.now, mark() {}, measure() {} });
    def("console", new Proxy({}, { get: () => () => {} }));
    Math.random = () => S.envrng.below(1 << 30) / (1 << 30);
}
function cleanGlobals() { for (const k of Reflect.ownKeys(globalThis)) if (!G1.has(k)) { try { delete globalThis[k]; } catch (e) { /* not ours */ } } }
process.on("unhandledRejection", (e, p) => { if (S) { if (S.ignore && S.ignore.has(p)) return; S.unhandled.push(e); } });
process.on("uncaughtException", e => { if (S) S.thrown = S.thrown || [e]; else { real.err(String(e && e.stack || e) + "\n"); real.exit(2); } });
const settle = () => new Promise(r => real.setImmediate(r));

// runs events until nothing is pending or the process is over
async function loop(sim, proc, until) {
    await settle();
    for (let n = 0; n < 20000; n++) {
        if (sim.thrown) { const e = sim.thrown[0]; sim.thrown = null; if (!(e && e.exit)) { sim.crash = e; sim.exited = true; sim.exitCode = 1; } return; }
        if (sim.exited) return;
        if (sim.unhandled.length) {
            const e = sim.unhandled.shift();
            if (e && e.exit) return;
            if (proc && proc._ee.listenerCount("unhandledRejection")) { try { proc._ee.emit("unhandledRejection", e); } catch (x) { if (!x.exit) { sim.crash = x; sim.exited = true; sim.exitCode = 1; } return; } }
            else if (sim.spec.unhandled !== "warn") { sim.crash = e; sim.exited = true; sim.exitCode = 1; return; }
            continue;
        }
        if (until && until()) return;
        if (!sim.q.length) return;
        const ev = sim.q.splice(sim.pick(), 1)[0]; sim.now += 1; sim.note(ev.what);
        try { ev.fn(); } catch (e) { if (!e.exit) { if (proc && proc._ee.listenerCount("uncaughtException")) proc._ee.emit("uncaughtException", e); else { sim.crash = e; sim.exited = true; sim.exitCode = 1; } } }
        await settle();
    }
    sim.stuck = true;
}

const FILES = ["asm", "hpp", "cpp", "element_hpp", "generic_cpp", "raw_generic_cpp", "raw_arm64_s"];
const SUFFIX = { asm: ".asm", hpp: ".hpp", cpp: ".cpp", element_hpp: "_element.hpp", generic_cpp: "_generic.cpp", raw_generic_cpp: "_raw_generic.cpp", raw_arm64_s: "_raw_arm64.s" };
const P2 = (e, m) => (1n << BigInt(e)) - BigInt(m);
const PRIMES = ["21888242871839275222246405745257275088548364400416034343698204186575808495617", "21888242871839275222246405745257275088696311157297823662689037894645226208583", "52435875175126190479447740508185965837690552500527637822603658699938581184513",
    String(P2(256, 4294968273n)), String(P2(64, 59)), "18446744069414584321", String(P2(61, 1)), String(P2(127, 1)), String(P2(128, 159)), String(P2(192, 237)), String(P2(255, 19)), "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787", "97", "65537", String(P2(31, 1)), String(P2(521, 1)), "28948022309329048855892746252171976963363056481941560715954676764349967630337"];
const NAMES = ["Fr", "Fq", "F", "FrX", "Fr2", "fr", "Bn254", "q", "Long_name_1", "FR", "Fr_F", "rawMont"];

// what generating one field alone, in a fresh process, yields
const refs = new Map(); let REPO, BUILD;
async function reference(q, name) {
    const key = q + " " + name; if (refs.has(key)) return refs.get(key);
    const keep = S; const sim = S = new Sim({ seed: 1, fifo: true, ref: true, date: 1500000000000 }, null); sim.disk = new Disk({}); let out = { rejected: true };
    try { const reg = registry(REPO, [], null); const build = reg.load(BUILD, { filename: "test" }); let r = null, done = false; sim.ignore = new Set(); const p = build(reg.load(path.join(SHIM, "big-integer", "index.js"), { filename: "test" })(q), name); sim.ignore.add(p); p.then(x => { r = x; done = true; }, () => { done = true; }); await loop(sim, null); if (r) { out = { t: {} }; for (const k of Object.keys(r)) out.t[k] = r[k]; } else if (!done) out = { never: true }; } finally { S = keep; cleanGlobals(); }
    refs.set(key, out); if (refs.size > 400) refs.delete(refs.keys().next().value);
    return out;
}
class Violation extends Error { constructor(cls, msg) { super(msg); this.cls = cls; } }
const V = (c, m) => { throw new Violation(c, m); };

// ---- C17
function gen17(r, index) {
    const n = 1 + r.below(4) + (r.chance(1, 3) ? 1 : 0), pool = [r.pick(PRIMES), r.pick(PRIMES)], nm = [r.pick(NAMES), r.pick(NAMES)]; const reqs = [];
    for (let i = 0; i < n; i++) { let q = r.chance(1, 3) ? r.pick(PRIMES) : r.pick(pool), name = r.chance(1, 3) ? r.pick(NAMES) : r.pick(nm); reqs.push({ q, name, form: r.below(3), after: i && r.chance(1, 4) ? r.below(i) : -1 }); }
    if (r.chance(1, 25)) { const m = 12 + r.below(36); while (reqs.length < m) { const k = reqs.length; reqs.push({ q: r.pick(PRIMES), name: r.pick(NAMES), form: r.below(3), after: r.chance(3, 4) ? k - 1 : r.below(k) }); } }     // a long-lived process
    const spec = { prop: "C17", defer: r.chance(1, 2), reqs, policy: r.pick(["any", "any", "any", "lifo", "starve", "fifo"]), date: 1600000000000 + r.below(1e9), faults: [], again: r.chance(1, 4) };
    if (r.chance(1, 6)) spec.faults.push({ op: r.pick(["readopen", "read"]), k: r.below(r.chance(1, 2) ? 8 : 40), kind: "template_read_failure", err: r.pick(["EIO", "EMFILE", "EACCES", "ENOENT"]) });
    return spec;
}
async function exec17(sim) {
    const spec = sim.spec; sim.disk = new Disk(spec); const reg = registry(REPO, [], null); let build;
    try { build = reg.load(BUILD, { filename: "test" }); } catch (e) { V("load", "the generator cannot be loaded: " + e.message); }
    const big = reg.load(path.join(SHIM, "big-integer", "index.js"), { filename: "test" }); const want = []; for (const q of spec.reqs) want.push(await reference(q.q, q.name));
    const st = spec.reqs.map(() => ({})); sim.ignore = new Set();
    const start = i => { const q = spec.reqs[i]; let p; try { p = build(q.form === 0 ? big(q.q) : q.form === 1 ? q.q : big(q.q), q.name); } catch (e) { p = Promise.reject(e); } sim.ignore.add(p); p.then(x => { st[i].r = x; finish(i); }, e => { st[i].e = e; finish(i); }); };
    const finish = i => { st[i].done = true; sim.note("done " + i + (st[i].e ? " rejected" : "")); spec.reqs.forEach((q, j) => { if (q.after === i) sim.post(() => start(j), "request"); }); };
    spec.reqs.forEach((q, i) => { if (!(q.after >= 0 && q.after < i)) sim.post(() => start(i), "request"); });
    const verify = (i, s, w, what) => {
        const q = spec.reqs[i], nm = q.name + " (" + q.q.length + "-digit prime)";
        if (sim.stuck || !s.done) V("never-completes", `generating field ${nm} never completes${what}`);
        if (s.e) { if (!w.rejected && !Object.keys(sim.faultsHit).length) V("rejected", `generating field ${nm} fails${what} but succeeds alone: ${s.e.message}`); return; }
        if (w.rejected) V("resolved", `generating field ${nm} succeeds${what} but fails alone`);
        for (const k of new Set([...Object.keys(w.t), ...Object.keys(s.r)])) if (s.r[k] !== w.t[k]) V("different-source", `the ${k} source of field ${nm} differs${what} from generating it alone`);
    };
    await loop(sim, null); if (sim.crash) V("crash", "uncaught error: " + (sim.crash.message || sim.crash)); spec.reqs.forEach((q, i) => verify(i, st[i], want[i], spec.reqs.length > 1 ? " with " + (spec.reqs.length - 1) + " other requests" : ""));
    if (spec.again) { sim.spec = Object.assign({}, spec, { faults: [] }); sim.faultsHit0 = sim.faultsHit; sim.faultsHit = {}; const st0 = st.map(() => ({})); const i = 0; st[i] = {}; start(i); await loop(sim, null); verify(i, st[i], want[i], " again in the same process"); sim.faultsHit = sim.faultsHit0; void st0; }
}
// ---- C18
function gen18(r) {
    const q = r.pick(PRIMES), name = r.pick(NAMES.concat(["Fr", "Fq", "Bls"])), argv = [], paths = {}, spec = { prop: "C18", q, name, policy: r.pick(["any", "lifo", "fifo", "starve"]), date: 1600000000000 + r.below(1e9), faults: [], files: [], dirs: [], unhandled: r.chance(1, 4) ? "warn" : "throw" };
    const opt = [["q", "prime", q], ["n", "name", name]].map(o => r.chance(1, 2) ? ["-" + o[0], o[2]] : r.chance(1, 2) ? ["--" + o[1], o[2]] : ["--" + o[1] + "=" + o[2]]);
    const dir = r.chance(1, 4) ? r.pick(["out/", "/sim/gen/", "./", "a/b/"]) : ""; const dirOk = !r.chance(1, 6);
    for (const [o, k, ext] of [["oc", "cpp", ".cpp"], ["oh", "hpp", ".hpp"], ["oa", "asm", ".asm"]]) if (r.chance(2, 5)) { const p = dir + r.pick(["x", "field", name.toLowerCase(), "gen_" + o]) + r.pick([ext, ext, ".out", "_" + o]); paths[k] = p; const f = r.below(3); opt.push(f === 0 ? ["-" + o, p] : f === 1 ? ["--" + o, p] : ["--" + o + "=" + p]); }
    while (opt.length) argv.push(...opt.splice(r.below(opt.length), 1)[0]);
    if (dir && dirOk) { let d = path.resolve("/sim", dir); while (d !== "/") { spec.dirs.push(d); d = path.dirname(d); } }
    spec.argv = argv; spec.paths = paths; spec.missing = dir && !dirOk && Object.keys(paths).length && dir !== "./";
    for (const k of FILES) if (r.chance(1, 5)) { const f = [path.resolve("/sim", paths[k] || name.toLowerCase() + SUFFIX[k]), 1 + r.below(r.chance(1, 3) ? 60000 : 20)]; if (r.chance(1, 2)) f.push(r.pick(["same_length", "cut", "longer", "other_field", "one_byte"]), k); spec.files.push(f); }
    spec.defer = r.chance(1, 3);
    spec.files = spec.files.filter(f => spec.dirs.includes(path.dirname(f[0])) || path.dirname(f[0]) === "/sim");
    const kind = r.below(9);
    if (kind === 0) spec.capacity = r.below(r.chance(1, 2) ? 400000 : 40000);
    else if (kind <= 2) { const k = r.below(7); spec.faults.push({ op: "write", k, kind: "write_failure", err: r.pick(["ENOSPC", "EIO", "EDQUOT", "EFBIG"]), part: r.chance(1, 2), frac: r.below(100) / 100 }); }
    else if (kind === 3) spec.faults.push({ op: "open", k: r.below(7), kind: "open_failure", err: r.pick(["EACCES", "EMFILE", "EROFS", "EIO", "ENOENT"]) });
    else if (kind === 4) spec.faults.push({ op: "close", k: r.below(7), kind: "close_failure", err: r.pick(["EIO", "ENOSPC", "EDQUOT"]) });
    else if (kind === 5) spec.faults.push({ op: r.pick(["readopen", "read"]), k: r.below(r.chance(1, 2) ? 7 : 30), kind: "template_read_failure", err: r.pick(["EIO", "EACCES", "EMFILE", "ENOENT"]) });
    else if (kind === 6) { const m = 1 + r.below(4); for (let i = 0; i < m; i++) spec.faults.push({ op: "write", k: r.below(9), kind: "short_write", frac: (1 + r.below(98)) / 100 }); }
    else if (kind === 7) spec.faults.push({ op: r.pick(["rename", "mkdir", "fsync"]), k: r.below(7), kind: "other_call_failure", err: "EIO" });
    return spec;
}
async function runCli(sim, spec) {
    const reg = registry(REPO, spec.argv, BUILD);
    const l = reg.proc; sim.unhandled = []; sim.exited = false; sim.exitCode = undefined; sim.crash = null; sim.q = []; sim.pendErr = null; sim.thrown = null; sim.disk.fds = new Map();
    try { reg.load(BUILD, null); } catch (e) { if (!e.exit) { sim.crash = e; sim.exited = true; sim.exitCode = 1; } }
    await loop(sim, l);
    if (sim.stuck) V("never-completes", "the generator command never completes");
    if (!sim.exited) { try { l._ee.emit("beforeExit", l.exitCode || 0); await loop(sim, l); l._ee.emit("exit", l.exitCode || 0); } catch (e) { if (!e.exit) throw e; } sim.exitCode = sim.exited ? sim.exitCode : +(l.exitCode || 0); }
    sim.note("exit " + sim.exitCode); cleanGlobals(); return sim.exitCode;
}
async function exec18(sim) {
    const spec = sim.spec; sim.disk = new Disk(spec); const w = await reference(spec.q, spec.name); const low = spec.name.toLowerCase();
    const where = {}; for (const k of FILES) where[k] = path.resolve("/sim", spec.paths[k] || low + SUFFIX[k]);
    for (const [p, n, how, k] of spec.files) if (how && !w.rejected) {       // what an earlier run may have left
        const f = sim.disk.f.get(p), b = Buffer.from(w.t[k]); if (!f) continue;
        if (how === "same_length") f.data = Buffer.from(w.t[k].replace(/[a-z]/g, "z")); else if (how === "cut") f.data = b.subarray(0, n % b.length); else if (how === "longer") f.data = Buffer.concat([b, f.data]);
        else if (how === "one_byte") { f.data = Buffer.from(b); f.data[n % b.length] ^= 1; } else { const o = await reference(spec.q === PRIMES[0] ? PRIMES[1] : PRIMES[0], spec.name); if (!o.rejected) f.data = Buffer.from(o.t[k]); }
        sim.note("stale " + how);
    }
    const verify = (code, what, clean) => {
        if (code !== 0) { if (clean && !w.rejected) V("failed", `the command failed${what} although nothing went wrong: ${sim.crash ? sim.crash.message : "exit " + code}`); return; }
        if (w.rejected) V("false-success", "the command reports success although this field cannot be generated");
        for (const k of FILES) {
            if (FILES.some(o => o !== k && where[o] === where[k])) continue;      // two outputs were asked into one file
            const f = sim.disk.f.get(where[k]), want = Buffer.from(w.t[k]);
            if (!f) V("missing-output", `the command reports success${what} but ${where[k]} (${k}) does not exist`);
            if (!f.data.equals(want)) V("wrong-output", `the command reports success${what} but ${where[k]} does not hold the ${k} source (${f.data.length} bytes instead of ${want.length})`);
        }
    };
    const code = await runCli(sim, spec); const hit = Object.keys(sim.faultsHit).filter(k => k !== "short_write").length; if (spec.missing) sim.faultsHit.missing_directory = 1;
    verify(code, hit ? " after a failed " + Object.keys(sim.faultsHit)[0].replace("_", " ") : "", !hit && !spec.missing);
    if (spec.missing && code === 0) { /* it may create the directory: verified above */ }
    // afterwards, with the disk repaired, the same command has to succeed over whatever the first attempt left
    if (code !== 0 && (hit || spec.missing)) { const fh = sim.faultsHit; sim.faultsHit = {}; const s2 = Object.assign({}, spec, { faults: [] }); sim.spec = s2; sim.disk.free = Infinity; for (const k of FILES) { let d = path.dirname(where[k]); while (!sim.disk.d.has(d)) { sim.disk.d.add(d); d = path.dirname(d); } } const c2 = await runCli(sim, s2); verify(c2, " on a second attempt", true); sim.faultsHit = fh; sim.spec = spec; }
}

// ---- C31: killed at any point, or beside other commands
function genCmd(r, name, used) {
    const q = r.pick(PRIMES), paths = {}, opt = [["-q", q], [r.chance(1, 2) ? "-n" : "--name", name]], argv = [];
    const dir = r.chance(1, 4) ? r.pick(["out/", "/sim/gen/", "a/b/"]) : "";
    for (const [o, k, ext] of [["oc", "cpp", ".cpp"], ["oh", "hpp", ".hpp"], ["oa", "asm", ".asm"]]) if (r.chance(2, 5)) { let p; do p = dir + r.pick(["x", "field", "gen", "y"]) + r.pick([ext, ext, ".out", "_" + o]); while (used.has(path.resolve("/sim", p))); paths[k] = p; opt.push(["--" + o, p]); }
    while (opt.length) argv.push(...opt.splice(r.below(opt.length), 1)[0]);
    const where = {}; for (const k of FILES) { where[k] = path.resolve("/sim", paths[k] || name.toLowerCase() + SUFFIX[k]); used.add(where[k]); }
    return { q, name, argv, where };
}
function gen31(r) {
    const used = new Set(), spec = { prop: "C31", policy: r.pick(["any", "lifo", "fifo", "starve"]), date: 1600000000000 + r.below(1e9), faults: [], files: [], dirs: ["/sim/out", "/sim/gen", "/sim/a", "/sim/a/b"], unhandled: "throw", defer: r.chance(1, 3), cmds: [], kills: [], slices: [], sametime: r.chance(1, 2) };
    const low = new Set(), nm = () => { let n; do n = r.pick(NAMES.concat(["Fr", "Fq", "Bls"])); while (low.has(n.toLowerCase())); low.add(n.toLowerCase()); return n; };
    spec.cmds.push(genCmd(r, nm(), used)); const n = r.below(4); for (let i = 0; i < n; i++) if (r.chance(1, 5)) spec.cmds.push(Object.assign({ same: true }, spec.cmds[0])); else spec.cmds.push(genCmd(r, nm(), used));
    if (n === 0 || r.chance(1, 3)) { const m = 1 + r.below(3); for (let i = 0; i < m; i++) spec.kills.push({ c: 0, k: r.below(r.chance(1, 8) ? 60 : 24), frac: r.pick([0, 1, r.below(100) / 100]) }); }
    if (n && r.chance(1, 3)) spec.kills.push({ c: 1 + r.below(n), k: r.below(24), frac: r.below(100) / 100 });
    if (n) { const m = 1 + r.below(8); let k = 0; for (let i = 0; i < m; i++) { k += r.below(8); spec.slices.push([k, 1 + r.below(n), 1 + r.below(r.chance(1, 3) ? 25 : 5)]); } }
    for (const c of spec.cmds) for (const k of FILES) if (r.chance(1, 10)) spec.files.push([c.where[k], 1 + r.below(60)]);
    return spec;
}
async function exec31(sim) {
    const spec = sim.spec, cmds = spec.cmds; sim.disk = new Disk(spec); sim.nsys = 0; const refs = []; for (const c of cmds) refs.push(await reference(c.q, c.name));
    const st = cmds.map(() => ({ code: null, dead: false })), cleanRun = async (c, kill, before, rec) => { sim.trackSys = true; sim.nsys = 0; sim.killed = false; sim.killAt = kill || null; sim.before = before || null; sim.rec = rec || null; sim.pid = (sim.pid || 4000) + 7; const code = await runCli(sim, Object.assign({}, spec, { argv: c.argv })); sim.trackSys = false; sim.before = sim.rec = sim.killAt = null; return code; };
    const check = (i, what) => { const c = cmds[i], w = refs[i]; if (st[i].code !== 0) { if (!w.rejected) V("failed", `command ${i} failed${what} although nothing went wrong in it: ${sim.crash ? sim.crash.message : "exit " + st[i].code}`); return; } if (w.rejected) V("false-success", "the command reports success although this field cannot be generated");
        for (const k of FILES) { if (FILES.some(o => o !== k && c.where[o] === c.where[k])) continue; const f = sim.disk.f.get(c.where[k]); if (!f) V("missing-output", `command ${i} reported success${what} but ${c.where[k]} (${k}) does not exist`); if (!f.data.equals(Buffer.from(w.t[k]))) V("wrong-output", `command ${i} reported success${what} but ${c.where[k]} does not hold its ${k} source (${f.data.length} bytes instead of ${w.t[k].length})`); } };
    // what each other command does alone; beside command 0 it makes the same calls as long as each of them has the same outcome
    const disk0 = sim.disk, others = [], t0 = sim.now;
    for (let i = 1; i < cmds.length; i++) { sim.disk = disk0.clone(); const rec = []; const code = await cleanRun(cmds[i], null, null, rec); st[i].code = code; check(i, ""); const kl = spec.kills.find(k => k.c === i); others.push({ i, rec, at: 0, fds: new Map(), kill: kl ? kl.k : Infinity, frac: kl ? kl.frac : 0 }); if (spec.sametime) sim.now = t0; }
    sim.disk = disk0;
    const same = cmds.some(c => c.same);
    const step = o => {        // one call of another command on the shared disk
        if (o.at >= o.rec.length || o.stop) return false; const c = o.rec[o.at], raw = sim.raw, dying = o.at === o.kill; let a = c.args.slice(), r;
        if (["write", "close", "readAll", "ftruncateSync", "fsyncSync", "fstatSync"].includes(c.name)) { if (!o.fds.has(a[0])) { o.stop = "lost"; return false; } a[0] = o.fds.get(a[0]); }
        if (dying) { o.stop = "killed"; sim.faultsHit.process_killed = (sim.faultsHit.process_killed || 0) + 1; if (c.name !== "write") return false; const b = a[1], off = a[2] || 0, len = a[3] === undefined ? b.length - off : a[3]; a = [a[0], b, off, Math.floor(len * o.frac), a[4]]; }
        try { const v = (raw.low[c.name] || raw.sync[c.name])(...a); if (c.name === "open") o.fds.set(c.v, v); r = outcome(c.name, v); } catch (e) { r = "error " + e.code; }
        o.at++; if (!dying && r !== c.r) { o.stop = "diverged"; sim.note("diverged " + o.i + " " + c.name); }
        sim.note("other " + o.i + " " + c.name); return true;
    };
    const pass = o => { sim.inSys = true; try { return step(o); } finally { sim.inSys = false; } };
    const kills0 = spec.kills.filter(k => k.c === 0); const before = k => { for (const [at, i, m] of spec.slices) if (at === k) { const o = others[i - 1]; if (!o) continue; for (let j = 0; j < m && step(o); j++) sim.faultsHit.other_process_call = (sim.faultsHit.other_process_call || 0) + 1; } };
    st[0].code = await cleanRun(cmds[0], kills0[0], before); st[0].dead = sim.killed;
    for (const o of others) while (pass(o)) { /* the rest of it */ }
    for (const o of others) { st[o.i].dead = !!o.stop; sim.note("other " + o.i + " " + (o.stop || "done")); }
    const beside = cmds.length > 1 ? " beside other commands" : ""; const anyDead = st.some(s => s.dead); const covered = i => !(cmds[i].same || i === 0 && same) || !anyDead;
    for (let i = 0; i < cmds.length; i++) if (!st[i].dead && covered(i)) check(i, beside);
    // whatever was killed is started again: now it has to succeed, and to leave the others alone
    for (let n = 1; n < kills0.length && st[0].dead; n++) { st[0].code = await cleanRun(cmds[0], kills0[n]); st[0].dead = sim.killed; }
    for (let i = 0; i < cmds.length; i++) if (st[i].dead || !covered(i)) { st[i].code = await cleanRun(cmds[i]); check(i, " started again after one was killed"); }
    for (let i = 0; i < cmds.length; i++) check(i, beside + (anyDead ? " after one was killed" : ""));
}

async function runSpec(spec, replay) {
    const sim = S = new Sim(spec, replay); let v = null;
    try { await (spec.prop === "C17" ? exec17(sim) : spec.prop === "C31" ? exec31(sim) : exec18(sim)); } catch (e) { if (e instanceof Violation) v = { cls: e.cls, msg: e.message }; else throw e; } finally { S = null; cleanGlobals(); }
    if (v) sim.note("violation " + v.cls);
    return { v, hash: sim.h.digest("hex").slice(0, 16), steps: sim.step, choices: sim.choices, nonfifo: sim.nonfifo, faults: sim.faultsHit, virt: sim.now - (spec.date || 0), reads: sim.reads };
}
const toReplay = ch => { const o = {}; for (const [s, k] of ch) o[s] = k; return o; };
async function minimise(spec, res) {
    let best = { spec, ch: res.choices, v: res.v, hash: res.hash }, n = 0; const t0 = real.hr();
    const attempt = async (s, ch) => { if (n > 400 || real.hr() - t0 > 60000000000n) return false; n++; const r = await runSpec(s, toReplay(ch)); if (r.v && r.v.cls === best.v.cls) { best = { spec: s, ch: r.choices, v: r.v, hash: r.hash }; return true; } return false; };
    await attempt(best.spec, best.ch); await attempt(best.spec, []);
    for (let i = 0; i < best.ch.length;) { const c = best.ch.slice(); c.splice(i, 1); const l = best.ch.length; if (!(await attempt(best.spec, c)) || best.ch.length >= l) i++; }
    const cut = async (key) => { for (let i = 0; i < (best.spec[key] || []).length;) { const a = best.spec[key].slice(); a.splice(i, 1); const s = Object.assign({}, best.spec, { [key]: a }); if (key === "reqs") s.reqs = a.map(q => Object.assign({}, q, { after: q.after === i || q.after >= a.length ? -1 : q.after > i ? q.after - 1 : q.after })); if (!(await attempt(s, best.ch))) i++; } };
    await cut("faults"); if (spec.reqs) await cut("reqs"); await cut("files"); await cut("kills"); await cut("slices");
    if (spec.again) await attempt(Object.assign({}, best.spec, { again: false }), best.ch);
    if (spec.capacity !== undefined) await attempt((() => { const s = Object.assign({}, best.spec); delete s.capacity; return s; })(), best.ch);
    for (let i = 0; i < best.ch.length;) { const c = best.ch.slice(); c.splice(i, 1); const l = best.ch.length; if (!(await attempt(best.spec, c)) || best.ch.length >= l) i++; }
    return { best, n };
}

async function main() {
    const [cmd, repo, ...a] = real.argv; REPO = path.resolve(repo); BUILD = path.join(REPO, "src", "buildzqfield.js"); installGlobals();
    if (cmd === "sweep") {
        const [prop, base, runs, w, W, tl, out] = a; const t = { runs: 0, steps: 0, nonfifo: 0, virtual_ms: 0, faults: {}, policies: {}, rechecks: 0, samples: [], nontrivial: 0, cut: false, violation: null, reads: 0, reqs: 0 }; const hs = []; const t0 = real.hr();
        for (let i = +w; i < +runs; i += +W) {
            if (real.hr() - t0 > BigInt(tl) * 1000000000n) { t.cut = true; break; }
            const seed = String(mix(mix(base, +prop.slice(1)), i)); const spec = (prop === "C17" ? gen17 : prop === "C31" ? gen31 : gen18)(new Rng(mix(seed, 1)), i); spec.seed = seed; spec.index = i;
            const r = await runSpec(spec, null);
            t.runs++; t.steps += r.steps; t.nonfifo += r.nonfifo; t.virtual_ms += r.virt; t.reads += r.reads; t.reqs += spec.reqs ? spec.reqs.length : spec.cmds ? spec.cmds.length : 1; t.policies[spec.policy] = (t.policies[spec.policy] || 0) + 1; for (const k in r.faults) t.faults[k] = (t.faults[k] || 0) + r.faults[k];
            const nt = r.nonfifo > 0 || Object.keys(r.faults).length > 0 || (spec.reqs && spec.reqs.length > 1); const ph = sha(JSON.stringify([spec.reqs, spec.argv, spec.faults, spec.files && spec.files.map(f => f), spec.capacity, spec.cmds, spec.kills, spec.slices]) + r.hash); hs.push([ph, nt ? 1 : 0, r.hash]); if (nt) t.nontrivial++;
            if (r.v) { t.violation = { spec, choices: r.choices, v: r.v, hash: r.hash }; break; }
            if (t.samples.length < 2 && (i - w) / W % 9 === 0) t.samples.push({ index: i, policy: spec.policy, requests: spec.reqs ? spec.reqs.map(q => q.name + ":" + q.q.length) : undefined, argv: spec.argv || spec.cmds && spec.cmds.map(c => c.argv.join(" ")), kills: spec.kills, slices: spec.slices, faults: spec.faults, steps: r.steps, reordered: r.nonfifo });
            if ((i - w) / W % 24 === 0) { t.rechecks++; const r2 = await runSpec(spec, null); if (r2.hash !== r.hash) { real.err("simulator not deterministic: run " + i + "\n"); real.exit(2); } }
        }
        t.hashes = hs; real.fs.writeFileSync(out, JSON.stringify(t)); real.exit(t.violation ? 1 : 0);
    }
    const f = JSON.parse(real.fs.readFileSync(a[0], "utf8"));
    if (cmd === "minimise") {
        const r0 = await runSpec(f.spec, toReplay(f.choices)); if (!r0.v) { real.out(JSON.stringify({ reproduced: false }) + "\n"); real.exit(0); }
        const { best, n } = await minimise(f.spec, r0); const o = { kind: "ffiasm-nodesim-replay", property: f.spec.prop, violation: best.v, hash: best.hash, choices: best.ch, spec: best.spec };
        real.fs.writeFileSync(a[1], JSON.stringify(o, null, 1)); real.out(JSON.stringify({ reproduced: true, v: best.v, runs: n, before: f.choices.length, after: best.ch.length, fb: (f.spec.faults || []).length, fa: (best.spec.faults || []).length }) + "\n"); real.exit(0);
    }
    if (cmd === "replay") { const r = await runSpec(f.spec, toReplay(f.choices)); const same = !!r.v && r.v.cls === f.violation.cls && r.hash === f.hash; real.out(JSON.stringify({ same, v: r.v, hash: r.hash }) + "\n"); real.exit(same ? 1 : 0); }
    real.exit(2);
}
main().catch(e => { real.err(String(e && e.stack || e) + "\n"); real.exit(2); });
