// Generated circuits, inputs, symbol files and packages, and the reference model of what the
// library has to do with them. Nothing here uses zkenc code.
import nodeCrypto from "node:crypto";
import { gcmSeal, gcmOpen } from "./sim.mjs";

export const P = 21888242871839275222246405745257275088548364400416034343698204186575808495617n;
export const mod = (x, p = P) => ((x % p) + p) % p;
const te = new TextEncoder();

// ---------------------------------------------------------------- values
/** A field element, small or awkward. */
export function genElem(t, p = P) {
  switch (t.choose(9)) {
    case 0: return BigInt(t.choose(4));
    case 1: return BigInt(t.choose(256));
    case 2: return p - 1n - BigInt(t.choose(3));
    case 3: { const r = (1n << 31n) + BigInt(t.choose(5)) - 2n; return mod(r, p); }
    case 4: { const r = (1n << 32n) * BigInt(1 + t.choose(9)) + BigInt(t.choose(3)) - 1n; return mod(r, p); }
    case 5: { const r = (1n << 53n) + BigInt(t.choose(3)) - 1n; return mod(r, p); }
    case 6: return BigInt(t.choose(0x7fffffff));
    default: { let v = 0n; for (let i = 0; i < 9; i++) v = (v << 31n) | BigInt(t.choose(0x7fffffff)); return mod(v, p); }
  }
}
/** One JSON-able spelling of a field element. */
export function spell(t, v, p = P, o = {}) {
  const small = v <= BigInt(Number.MAX_SAFE_INTEGER);
  const neg = p - v <= BigInt(Number.MAX_SAFE_INTEGER);
  const opts = ["s", "s"];
  if (small) opts.push("n", "n", "n");
  if (o.negative && v !== 0n) { opts.push("-s"); if (neg) opts.push("-n", "-n"); }
  if (o.above) opts.push("+s");
  if (o.bigint) opts.push("b", "b");
  if (o.bigint && o.negative && v !== 0n) opts.push("-b");
  switch (t.pick(opts)) {
    case "s": return v.toString();
    case "n": return Number(v);
    case "-s": return (v - p).toString();
    case "-n": return Number(v - p);
    case "+s": return (v + p * t.pick([1n, 2n, 3n, 5n, 6n, 7n, 64n, 1n << 70n, 1n << 300n])).toString();
    case "b": return v;
    case "-b": return v - p;
  }
}
export const leafValue = (x, p = P) => mod(BigInt(x), p);

// ---------------------------------------------------------------- circuits
const WORDS = ["a", "b", "c", "in", "out", "x", "root", "message", "puzzle", "main", "hash", "R8x", "path", "_k", "s1", "s10", "s2", "toString_", "Aa", "idx", "val", "length", "pub", "priv", "__proto__", "constructor", "hasOwnProperty", "valueOf"];
function ident(t, used) {
  for (;;) {
    let s = t.pick(WORDS);
    if (t.chance(1, 3)) s += String(t.choose(12));
    if (!used.has(s)) { used.add(s); return s; }
    if (t.chance(1, 2)) { s += "_" + t.choose(1000); if (!used.has(s)) { used.add(s); return s; } }
  }
}
function genDims(t, o) {
  switch (t.choose(o.flat ? 4 : 6)) {
    case 0: case 1: return [];
    case 2: return [1 + t.choose(4)];
    case 3: return [1 + t.choose(12)];
    case 4: return [1 + t.choose(3), 1 + t.choose(3)];
    default: return [1 + t.choose(2), 1 + t.choose(3), 1 + t.choose(2)];
  }
}
const ORDER = { out: 0, pub: 1, prv: 2 };
const count = (d) => d.reduce((a, b) => a * b, 1);
export function leafNames(g) {
  let r = [g.name];
  for (const d of g.dims) r = r.flatMap((n) => Array.from({ length: d }, (_, i) => `${n}[${i}]`));
  return r;
}
/**
 * A circuit given as straight-line program: out/public/private input groups, intermediate products,
 * and assertions on inputs. Wires in circom's order.
 */
export function genCircuit(t, o = {}) {
  const p = o.prime ?? P;
  const used = new Set();
  const groups = [];
  const nOutG = !o.noOut && t.chance(1, 3) ? 1 + t.choose(2) : 0;
  const many = t.chance(1, 12) ? 2 + t.choose(14) : 0; // many signals
  const nPubG = o.noPublic ? 0 : t.choose(4) + (nOutG ? 0 : 1) + many;
  const nPrvG = 1 + t.choose(3) + (many ? t.choose(6) : 0);
  const add = (kind, n) => { for (let i = 0; i < n; i++) groups.push({ name: ident(t, used), dims: genDims(t, o), kind }); };
  add("out", nOutG); add("pub", nPubG); add("prv", nPrvG);
  // now and then something is large
  if (t.chance(1, 50)) { const g = groups[t.choose(groups.length)]; g.dims = t.chance(1, 2) ? [250 + t.choose(1200)] : [10 + t.choose(30), 10 + t.choose(20)]; }
  o.shape?.(groups, (kind, dims) => { const g = { name: ident(t, used), dims, kind }; const at = groups.findIndex((x) => ORDER[x.kind] > ORDER[kind]); groups.splice(at < 0 ? groups.length : at, 0, g); return g; });
  let wire = 1;
  for (const g of groups) { g.wire = wire; g.size = count(g.dims); wire += g.size; }
  const nOut = groups.filter((g) => g.kind === "out").reduce((a, g) => a + g.size, 0);
  const nPub = groups.filter((g) => g.kind === "pub").reduce((a, g) => a + g.size, 0);
  const nIn = groups.filter((g) => g.kind !== "out").reduce((a, g) => a + g.size, 0);
  const nPrv = nIn - nPub;
  const nMid = o.nMid ?? t.choose(5) + (t.chance(1, 100) ? 200 + t.choose(300) : 0);
  const nWires = wire + nMid;
  const c = { p, groups, nOut, nPub, nPrv, nMid, nWires, cons: [], used };
  // linear combinations over already known wires
  const inputs = Array.from({ length: nIn }, (_, i) => 1 + nOut + i);
  const known = [0, ...inputs];
  const lc = () => {
    const n = 1 + t.choose(3);
    const m = new Map();
    for (let i = 0; i < n; i++) m.set(known[t.choose(known.length)], mod(t.chance(1, 3) ? genElem(t, p) : BigInt(1 + t.choose(7)), p));
    return [...m];
  };
  c.steps = [];
  for (let i = 0; i < nMid; i++) {
    const w = wire + i;
    c.steps.push({ w, a: lc(), b: lc() });
    known.push(w);
  }
  for (let i = 0; i < nOut; i++) c.steps.push({ w: 1 + i, a: lc(), b: t.chance(1, 2) ? [[0, 1n]] : lc() });
  for (const s of c.steps) c.cons.push([s.a, s.b, [[s.w, 1n]]]);
  // an assertion: a private input differs from nothing / equals a public one squared and so on is hard to
  // satisfy at random; instead (x - k) * (x - v) = 0 with v the value the run will use is added by withAssert
  c.asserts = [];
  return c;
}
export const evalLc = (lc, w, p) => lc.reduce((s, [i, k]) => mod(s + k * w[i], p), 0n);
/** Witness for values of the input wires (array over pub then prv input wires). */
export function witnessOf(c, vals) {
  const w = new Array(c.nWires).fill(0n);
  w[0] = 1n;
  vals.forEach((v, i) => { w[1 + c.nOut + i] = v; });
  for (const s of c.steps) w[s.w] = mod(evalLc(s.a, w, c.p) * evalLc(s.b, w, c.p), c.p);
  return w;
}
export function satisfies(c, w) {
  if (w.length !== c.nWires || w[0] !== 1n) return false;
  return c.cons.every(([a, b, k]) => mod(evalLc(a, w, c.p) * evalLc(b, w, c.p), c.p) === evalLc(k, w, c.p));
}
/** Adds x*(x-v)=0 on a private input wire of which vals holds v (so v and 0 pass, anything else fails). */
export function addAssert(t, c, vals) {
  const i = c.nPub + t.choose(c.nPrv);
  const w = 1 + c.nOut + i;
  c.asserts.push({ i, v: vals[i] });
  c.cons.push([[[w, 1n]], [[w, 1n], [0, mod(-vals[i], c.p)]], []]);
}
export const assertOk = (c, vals) => c.asserts.every((a) => vals[a.i] === a.v || vals[a.i] === 0n);
/** The circuit as circom's generated program would behave. */
export function program(c, o = {}) {
  const inputs = new Map();
  let at = 0;
  for (const g of c.groups) if (g.kind !== "out") { inputs.set(g.name, { size: g.size, at }); at += g.size; }
  const n32 = Math.ceil(c.p.toString(2).length / 64) * 2;
  return {
    version: o.version ?? 2, n32, prime: c.p, witnessSize: c.nWires, inputs, logs: o.logs ?? [],
    run(vals) {
      if (!assertOk(c, vals)) return { assert: "Error in template Main_1 line: 12" };
      return witnessOf(c, vals);
    },
  };
}
export function genVals(t, c) {
  return Array.from({ length: c.nPub + c.nPrv }, () => genElem(t, c.p));
}
/** JSON value of a group from its leaf spellings. */
function nest(dims, leaves, at = { i: 0 }) {
  if (!dims.length) return leaves[at.i++];
  return Array.from({ length: dims[0] }, () => nest(dims.slice(1), leaves, at));
}
/** Inputs object for the circuit: which = "public" (outputs and public inputs) or "full" (all inputs, as the program wants them). */
export function inputsOf(t, c, vals, which, o = {}) {
  const w = witnessOf(c, vals);
  const keys = [];
  for (const g of c.groups) {
    if (which === "public" ? g.kind === "prv" : g.kind === "out") continue;
    const leaves = Array.from({ length: g.size }, (_, i) => spell(t, w[g.wire + i], c.p, o));
    keys.push([g.name, nest(g.dims, leaves)]);
  }
  if (o.shuffle !== false) t.shuffle(keys);
  return Object.fromEntries(keys);
}
/** Field values of the public wires 1..nOut+nPub. */
export const publicOf = (c, vals) => witnessOf(c, vals).slice(1, 1 + c.nOut + c.nPub);
/** Text of the .sym file. */
export function symOf(t, c, o = {}) {
  const lines = [];
  let label = 1;
  for (const g of c.groups) leafNames(g).forEach((n, i) => lines.push(`${label++},${g.wire + i},0,main.${n}`));
  for (let i = 0; i < c.nMid; i++) lines.push(`${label++},${c.nWires - c.nMid + i},${1 + t.choose(3)},main.${t.pick(["sub", "h", "cmp"])}.t${i}`);
  const dead = t.choose(4);
  for (let i = 0; i < dead; i++) lines.push(`${label++},-1,${t.choose(3)},main.${t.pick(["sub.u", "w.in", ...(o.ghost ? [o.ghost] : [])])}${t.chance(1, 2) ? `[${i}]` : i}`);
  // signals of other components with the name of an input group: no top-level signals
  if (t.chance(1, 3)) for (const g of c.groups.slice(0, 2)) lines.push(`${label++},${t.chance(1, 2) ? -1 : c.nWires - 1},7,main.sub9.${g.name}`);
  if (o.shuffle) t.shuffle(lines);
  const eol = o.crlf ? "\r\n" : "\n";
  return lines.join(eol) + (t.chance(3, 4) ? eol : "");
}
// ---------------------------------------------------------------- files
export const le = (v, n) => { const b = new Uint8Array(n); for (let i = 0; i < n && v; i++) { b[i] = Number(v & 255n); v >>= 8n; } return b; };
export const fromLe = (b) => { let n = b.length; while (n && b[n - 1] === 0) n--; let v = 0n; for (let i = n - 1; i >= 0; i--) v = (v << 8n) | BigInt(b[i]); return v; };
const u32 = (v) => le(BigInt(v), 4), u64 = (v) => le(BigInt(v), 8);
export const catAll = (l) => { const n = l.reduce((a, b) => a + b.length, 0); const r = new Uint8Array(n); let o = 0; for (const b of l) { r.set(b, o); o += b.length; } return r; };
export const cat = (...l) => catAll(l);
export function r1csBytes(c) {
  const lc = (l) => cat(u32(l.length), catAll(l.map(([w, k]) => cat(u32(w), le(k, 32)))));
  const head = cat(u32(32), le(c.p, 32), u32(c.nWires), u32(c.nOut), u32(c.nPub), u32(c.nPrv), u64(c.nWires), u32(c.cons.length));
  const cons = catAll(c.cons.map(([a, b, k]) => cat(lc(a), lc(b), lc(k))));
  const map = catAll(Array.from({ length: c.nWires }, (_, i) => u64(i)));
  return cat(te.encode("r1cs"), u32(1), u32(3), u32(1), u64(head.length), head, u32(2), u64(cons.length), cons, u32(3), u64(map.length), map);
}
export function wtnsBytes(w, p = P) {
  const n8 = Math.ceil(p.toString(2).length / 64) * 8;
  const head = cat(u32(n8), le(p, n8), u32(w.length));
  return cat(te.encode("wtns"), u32(2), u32(2), u32(1), u64(head.length), head, u32(2), u64(n8 * w.length), catAll(w.map((v) => le(v, n8))));
}
/** Strict reader: every field has to be what the format says. Returns {n8, prime, values} or throws. */
export function parseWtns(b) {
  let at = 0;
  const need = (n) => { if (at + n > b.length) throw new Error("truncated .wtns"); const r = b.subarray(at, at + n); at += n; return r; };
  const num = (n) => Number(fromLe(need(n)));
  if (Buffer.from(need(4)).toString() !== "wtns") throw new Error("magic");
  if (num(4) !== 2) throw new Error("version");
  const ns = num(4);
  let head = null, vals = null;
  for (let i = 0; i < ns; i++) {
    const ty = num(4), len = num(8), body = need(len);
    if (ty === 1 && !head) head = body;
    if (ty === 2 && !vals) vals = body;
  }
  if (at !== b.length) throw new Error("trailing bytes in .wtns");
  const n8 = Number(fromLe(head.subarray(0, 4)));
  if (head.length !== 8 + n8) throw new Error("header length");
  const prime = fromLe(head.subarray(4, 4 + n8)), n = Number(fromLe(head.subarray(4 + n8)));
  if (vals.length !== n * n8) throw new Error("values length");
  return { n8, prime, values: Array.from({ length: n }, (_, i) => fromLe(vals.subarray(i * n8, (i + 1) * n8))) };
}
// ---------------------------------------------------------------- packages
const be32 = (n) => new Uint8Array([n >>> 24, (n >>> 16) & 255, (n >>> 8) & 255, n & 255]);
const rd32 = (b, o) => ((b[o] << 24) | (b[o + 1] << 16) | (b[o + 2] << 8) | b[o + 3]) >>> 0;
export function packPackage({ flag, kemCt, json, sealed }) {
  return flag ? cat(new Uint8Array([1]), be32(kemCt.length), kemCt, be32(json.length), json, sealed) : cat(new Uint8Array([0]), be32(kemCt.length), kemCt, sealed);
}
export function unpackPackage(b) {
  if (b.length < 5) throw new Error("package too short");
  const flag = b[0];
  if (flag > 1) throw new Error("flag byte " + flag);
  let o = 5;
  const n = rd32(b, 1);
  if (o + n > b.length) throw new Error("key ciphertext length");
  const kemCt = b.slice(o, o + n);
  o += n;
  let json = null, jsonEnd = null;
  if (flag) {
    if (o + 4 > b.length) throw new Error("no public input length");
    const m = rd32(b, o);
    o += 4;
    if (o + m > b.length) throw new Error("public input length");
    json = b.slice(o, o + m);
    o += m;
    jsonEnd = o;
  }
  const sealed = b.slice(o);
  if (sealed.length < 28) throw new Error("message part too short");
  return { flag, kemCt, json, jsonEnd, sealed, sealedAt: o };
}
export const seal = (key, nonce, msg) => cat(nonce, new Uint8Array(gcmSeal(key, nonce, msg)));
export function unseal(key, sealed) {
  if (sealed.length < 28) return null;
  const r = gcmOpen(key, sealed.subarray(0, 12), sealed.subarray(12));
  return r ? new Uint8Array(r) : null;
}
export const eq = (a, b) => a.length === b.length && Buffer.compare(Buffer.from(a.buffer, a.byteOffset, a.length), Buffer.from(b.buffer, b.byteOffset, b.length)) === 0;
export function deepEq(a, b) {
  if (Object.is(a, b) || (a === 0 && b === 0)) return true;
  if (a instanceof Uint8Array && b instanceof Uint8Array) return eq(a, b);
  if (typeof a !== "object" || typeof b !== "object" || !a || !b) return false;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  const ka = Object.keys(a), kb = Object.keys(b);
  return ka.length === kb.length && ka.every((k) => Object.prototype.hasOwnProperty.call(b, k) && deepEq(a[k], b[k]));
}
export function genMessage(t) {
  const n = t.chance(1, 60) ? t.pick([65535, 65536, 131072, 300001, 1048576, 1500000, 2097151, 4194304, 5000000]) : t.pick([0, 1, 2, 15, 16, 17, 28, 31, 32, 33, 64, 100, 255, 256, 1000, 4096, 70000]);
  const b = t.prngFrom().fill(new Uint8Array(n));
  if (n && n <= 4096 && t.chance(1, 4)) {
    // text as people keep it in files
    const w = ["secret", " ", "\n", "\r\n", "é", "密码", "🔑", "\0", "\ufeff", "=", '{"a":1}'];
    let s = t.pick(["", "\ufeff", " ", "\n", "\0"]);
    for (let i = 0; s.length < n; i++) s += w[b[i % n] % w.length];
    return te.encode(s + t.pick(["", "\n", "\r\n", " ", "\0"]));
  }
  return b;
}
/** Names no circuit has. */
export const FOREIGN = ["名前", "été", "🔑", "no such", "", "q\"", "\u202ex", "a b"];
/** A view of the bytes at some offset of some larger buffer, or a Buffer. */
export function viewOf(t, b) {
  switch (t.choose(4)) {
    case 0: return Uint8Array.from(b);
    case 1: { const o = t.choose(9), e = t.choose(40); const big = t.prngFrom().fill(new Uint8Array(o + b.length + e)); big.set(b, o); return big.subarray(o, o + b.length); }
    case 2: return Buffer.from(b);
    default: { const big = t.prngFrom().fill(Buffer.alloc(b.length + 13)); big.set(b, 5); return big.subarray(5, 5 + b.length); }
  }
}
const sha = (...l) => { const h = nodeCrypto.createHash("sha256"); for (const x of l) h.update(x); return new Uint8Array(h.digest()); };
/**
 * Stand-in for the WASM KEM: keeps a book of circuits and of what each ciphertext was made for.
 * Keys and ciphertexts are pseudo-random functions of the process's entropy.
 */
export class StubKem {
  constructor(ctx) {
    this.ctx = ctx;
    this.secret = "kem";
    this.circuits = new Map(); // hex of sha(r1cs) -> circuit
    this.book = new Map(); // hex ct -> {circuit, pubs, key}
  }
  register(c) {
    const b = r1csBytes(c);
    c.id = Buffer.from(sha(b)).toString("hex");
    this.circuits.set(c.id, c);
    return b;
  }
  circuit(r1cs) {
    const c = this.circuits.get(Buffer.from(sha(r1cs)).toString("hex"));
    if (!c) throw "R1CS parse error: Invalid R1CS file";
    return c;
  }
  encap(r1cs, wtns, p) {
    const c = this.circuit(r1cs);
    let w;
    try { w = parseWtns(wtns); } catch (e) { throw `Witness parse error: ${e.message}`; }
    const n = c.nOut + c.nPub;
    if (w.n8 !== 32 || w.values.length < n + 1) throw "Encapsulation failed: AssignmentMissing";
    const seed = p.randomBytes(new Uint8Array(32));
    const pubs = w.values.slice(1, n + 1).map((x) => mod(x));
    const key = sha(this.secret + (this.keySalt ?? ""), "key", seed, pubs.join());
    const body = sha(this.secret, "ct", seed, pubs.join());
    const ct = cat(new Uint8Array([0x5a]), body, sha(body), body.subarray(0, n % 17), new Uint8Array(c.ctPad ?? 0));
    this.book.set(Buffer.from(ct).toString("hex"), { c, pubs, key, exact: w.values.slice(1, n + 1) });
    return { ciphertext: ct, key };
  }
  decap(r1cs, wtns, ct) {
    const c = this.circuit(r1cs);
    let w;
    try { w = parseWtns(wtns); } catch (e) { throw `Witness parse error: ${e.message}`; }
    if (w.values.length !== c.nWires) throw `Witness size mismatch: expected ${c.nWires}, got ${w.values.length}`;
    if (!satisfies(c, w.values)) throw "Decapsulation failed: Unsatisfiable";
    const e = this.book.get(Buffer.from(ct).toString("hex"));
    const n = c.nOut + c.nPub;
    if (!e) { if (ct.length < 65) throw "Ciphertext deserialization failed: InvalidData"; return sha("unknown", ct); }
    if (e.c.id !== c.id || e.pubs.some((v, i) => v !== w.values[1 + i]) || e.pubs.length !== n) throw "Decapsulation failed: Unsatisfiable";
    return e.key;
  }
  entry(ct) { return this.book.get(Buffer.from(ct).toString("hex")); }
}
/** Text of kilobytes: characters of one to four bytes across every boundary a reader or a length field may have. */
export function genLong(t) {
  const n = t.pick([1000, 4096, 8192, 16384, 32768, 65536, 70000]) + t.choose(40) - 20, skip = t.choose(4);
  const alphabet = t.pick([["a"], ["é"], ["漢"], ["😀"], ["a", "é", "漢", "😀", "\n", "\\"]]);
  const width = te.encode(alphabet.join("")).length / alphabet.length;
  let s = "b".repeat(skip);
  for (let i = 0; i * width < n; i++) s += alphabet[i % alphabet.length];
  return t.chance(1, 3) ? [s] : s;
}
/** JSON values to ride along in public inputs under names the circuit does not have. */
export function genJson(t, depth = 0) {
  if (depth === 0 && t.chance(1, 12)) return genLong(t);
  switch (t.choose(depth > 2 ? 6 : 8)) {
    case 0: return t.pick([null, true, false]);
    case 1: return t.pick([0, 1, -1, 1.5, -0.25, 1e21, 1e-7, Number.MAX_SAFE_INTEGER, -5]);
    case 2: return t.pick(["", "abc", "naïve", "日本語", "😀🎉", "\u0000\u0001", "\"\\\n\t", "\u2028\u2029", "e\u0301", "\ufeffx", "\ud800", "</script>", " ", "x".repeat(300), "ÿ".repeat(70), "漢".repeat(50)]);
    case 3: return String(genElem(t));
    case 4: return Array.from({ length: t.choose(40) }, () => t.choose(10));
    case 5: return t.pick(["{}", "}", "[1", "null"]);
    case 6: return Array.from({ length: t.choose(4) }, () => genJson(t, depth + 1));
    default: return Object.fromEntries(Array.from({ length: t.choose(4) }, () => [t.pick(["k", "ключ", "a.b", "", "constructor", "0", "😀", "x y", "__proto__"]) + t.pick(["", 0, 1, 2]), genJson(t, depth + 1)]));
  }
}
/** A value under a name the circuit does not have. (An object under "" would spell its fields' own names.) */
export function addForeign(t, inputs, i) {
  const name = t.chance(2, 3) ? "memo" + i : t.pick(FOREIGN), v = genJson(t);
  inputs[name] = name === "" && v && typeof v === "object" ? "x" : v;
}
export const clone = (x) => (x instanceof Uint8Array ? Uint8Array.from(x) : Array.isArray(x) ? x.map(clone) : x && typeof x === "object" ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, clone(v)])) : x);
