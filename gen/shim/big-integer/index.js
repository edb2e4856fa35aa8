// The part of the big-integer API a generator can reasonably use, on top of native BigInt.
"use strict";
function N(v) { this.v = v; }
function conv(x, radix, alphabet) {
    if (x instanceof N) return x.v;
    if (x === undefined) return 0n;
    if (typeof x === "bigint") return x;
    if (typeof x === "number") { if (!Number.isInteger(x)) throw new Error(x + " is not an integer."); return BigInt(x); }
    if (typeof x === "string") {
        let s = x.trim(), neg = false;
        if (radix !== undefined && Number(radix) !== 10) {
            const b = BigInt(radix); s = s.toLowerCase(); if (s[0] === "-") { neg = true; s = s.slice(1); }
            let r = 0n; for (const c of s) { const d = parseInt(c, 36); if (Number.isNaN(d) || BigInt(d) >= b) throw new Error(c + " is not a valid character"); r = r * b + BigInt(d); }
            return neg ? -r : r;
        }
        if (s[0] === "-") { neg = true; s = s.slice(1); } else if (s[0] === "+") s = s.slice(1);
        const m = /^([0-9]+)(?:[eE]\+?([0-9]+))?$/.exec(s); if (!m) throw new Error("Invalid integer: " + x);
        let r = BigInt(m[1]); if (m[2]) r *= 10n ** BigInt(m[2]);
        return neg ? -r : r;
    }
    throw new Error("Invalid integer: " + x);
}
function bigInt(x, radix) { return new N(conv(x, radix)); }
const P = N.prototype;
const def = (names, f) => { for (const n of names.split(" ")) P[n] = f; };
const bin = (names, f) => def(names, function (o) { return new N(f(this.v, conv(o))); });
bin("add plus", (a, b) => a + b); bin("subtract minus", (a, b) => a - b); bin("multiply times", (a, b) => a * b);
bin("divide over", (a, b) => { if (b === 0n) throw new Error("Cannot divide by zero"); return a / b; });
bin("mod remainder", (a, b) => { if (b === 0n) throw new Error("Cannot divide by zero"); return a % b; });
bin("and", (a, b) => a & b); bin("or", (a, b) => a | b); bin("xor", (a, b) => a ^ b);
bin("pow", (a, b) => b < 0n ? (a === 1n ? 1n : 0n) : a ** b);
bin("shiftLeft", (a, b) => b >= 0n ? a << b : a >> -b); bin("shiftRight", (a, b) => b >= 0n ? a >> b : a << -b);
def("not", function () { return new N(~this.v); }); def("negate", function () { return new N(-this.v); }); def("square", function () { return new N(this.v * this.v); });
def("next", function () { return new N(this.v + 1n); }); def("prev", function () { return new N(this.v - 1n); }); def("abs", function () { return new N(this.v < 0n ? -this.v : this.v); });
def("divmod", function (o) { const b = conv(o); return { quotient: new N(this.v / b), remainder: new N(this.v % b) }; });
def("modPow", function (e, m) { m = conv(m); e = conv(e); let b = ((this.v % m) + m) % m, r = 1n % m; while (e > 0n) { if (e & 1n) r = r * b % m; b = b * b % m; e >>= 1n; } return new N(r); });
def("modInv", function (m) { m = conv(m); let t = 0n, nt = 1n, r = m, nr = this.v < 0n ? -this.v : this.v; while (nr !== 0n) { const q = r / nr; [t, nt] = [nt, t - q * nt]; [r, nr] = [nr, r - q * nr]; } if (r !== 1n) throw new Error(this.toString() + " and " + m + " are not co-prime"); if (t < 0n) t += m; return new N(this.v < 0n ? -t : t); });
def("bitLength", function () { let a = this.v < 0n ? -this.v - 1n : this.v; return new N(a === 0n ? 0n : BigInt(a.toString(2).length)); });
def("compare compareTo", function (o) { if (o === Infinity) return -1; if (o === -Infinity) return 1; const b = conv(o); return this.v < b ? -1 : this.v > b ? 1 : 0; });
def("equals eq", function (o) { return this.v === conv(o); }); def("notEquals neq", function (o) { return this.v !== conv(o); });
def("greater gt", function (o) { return this.v > conv(o); }); def("greaterOrEquals geq", function (o) { return this.v >= conv(o); });
def("lesser lt", function (o) { return this.v < conv(o); }); def("lesserOrEquals leq", function (o) { return this.v <= conv(o); });
def("isZero", function () { return this.v === 0n; }); def("isUnit", function () { return this.v === 1n || this.v === -1n; }); def("isOdd", function () { return (this.v & 1n) === 1n; }); def("isEven", function () { return (this.v & 1n) === 0n; });
def("isNegative", function () { return this.v < 0n; }); def("isPositive", function () { return this.v > 0n; });
def("isPrime", function () { const n = this.v < 0n ? -this.v : this.v; if (n < 2n) return false; for (const p of [2n, 3n, 5n, 7n, 11n, 13n, 17n, 19n, 23n, 29n, 31n, 37n]) { if (n === p) return true; if (n % p === 0n) return false; }
    let d = n - 1n, s = 0; while (!(d & 1n)) { d >>= 1n; s++; } next: for (const a of [2n, 3n, 5n, 7n, 11n, 13n, 17n, 19n, 23n, 29n, 31n, 37n]) { let x = new N(a).modPow(d, n).v; if (x === 1n || x === n - 1n) continue; for (let i = 1; i < s; i++) { x = x * x % n; if (x === n - 1n) continue next; } return false; } return true; });
P.isProbablePrime = P.isPrime;
P.toString = function (radix) { return this.v.toString(radix === undefined ? 10 : Number(radix)); };
P.toJSON = function () { return this.toString(); }; P.toJSNumber = function () { return Number(this.v); }; P.valueOf = function () { return Number(this.v); };
P.toArray = function (radix) { const b = BigInt(radix); let a = this.v < 0n ? -this.v : this.v; const value = []; do { value.unshift(Number(a % b)); a /= b; } while (a > 0n); return { value, isNegative: this.v < 0n }; };
bigInt.one = new N(1n); bigInt.zero = new N(0n); bigInt.minusOne = new N(-1n);
for (let i = -999; i < 1000; i++) bigInt[i] = new N(BigInt(i));
bigInt.isInstance = x => x instanceof N;
bigInt.max = (a, b) => bigInt(a).geq(b) ? bigInt(a) : bigInt(b); bigInt.min = (a, b) => bigInt(a).lt(b) ? bigInt(a) : bigInt(b);
bigInt.gcd = (a, b) => { a = conv(a); b = conv(b); if (a < 0n) a = -a; if (b < 0n) b = -b; while (b) [a, b] = [b, a % b]; return new N(a); };
bigInt.fromArray = (d, base, neg) => { const b = conv(base === undefined ? 10 : base); let r = 0n; for (const x of d) r = r * b + conv(x); return new N(neg ? -r : r); };
module.exports = bigInt;
