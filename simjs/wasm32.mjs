// The real WebAssembly half of the library, compiled to wasm32 (tools/wasm_build.py), inside simulated
// JavaScript processes: 32-bit sizes, real traps, the module's own memory.
import crypto from "node:crypto";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { ensure, Violation, hex } from "./sim.mjs";
import * as G from "./gen.mjs";
import { damage } from "./components.mjs";

const here = path.dirname(fileURLToPath(import.meta.url));
const file = process.env.SIMWASM ?? path.join(here, "..", ".build", "target", "wasm32-unknown-unknown", "release", "simwasm.wasm");
let compiled = null;
const td = new TextDecoder();

/** One instantiated module, as one page or Node process has it. */
export class Module32 {
  constructor(ctx, random) {
    compiled ??= new WebAssembly.Module(fs.readFileSync(file));
    this.ctx = ctx;
    this.panics = [];
    const imports = { sim: {
      random: (p, n) => { try { random(new Uint8Array(this.x.memory.buffer, p, n)); return 0; } catch { return 1; } },
      panicked: (p, n) => { this.panics.push(td.decode(new Uint8Array(this.x.memory.buffer, p, n))); },
    } };
    this.x = new WebAssembly.Instance(compiled, imports).exports;
    this.x.sim_start();
    this.base = this.bytes();
  }
  bytes() { return this.x.memory.buffer.byteLength; }
  grown() { return this.bytes() - this.base; }
  pass(b) {
    const p = this.x.sim_alloc(b.length) >>> 0;
    new Uint8Array(this.x.memory.buffer, p, b.length).set(b);
    return [p, b.length];
  }
  out(i) {
    const p = this.x.sim_out(i) >>> 0, n = this.x.sim_out_len(i) >>> 0;
    return new Uint8Array(this.x.memory.buffer, p, n).slice();
  }
  /** Throws a string for an Err, a RuntimeError for a trap. */
  call(f, ...args) {
    const at = args.flatMap((b) => this.pass(b));
    if (this.x[f](...at)) throw td.decode(this.out(0));
  }
  encap(r1cs, wtns) { this.call("sim_encap", r1cs, wtns); return { ciphertext: this.out(0), key: this.out(1) }; }
  decap(r1cs, wtns, ct) { this.call("sim_decap", r1cs, wtns, ct); return this.out(0); }
  /** The public inputs inside a ciphertext, null when it is none. */
  publics(ct) {
    try { this.call("sim_publics", ct); } catch (e) { if (typeof e === "string") return null; throw e; }
    const b = this.out(0);
    return Array.from({ length: b.length / 32 }, (_, i) => G.fromLe(b.subarray(32 * i, 32 * i + 32)));
  }
}
/** Takes the place of gen.mjs's StubKem. */
export class WasmKem {
  constructor(ctx) {
    this.ctx = ctx;
    this.mods = new Map();
  }
  mod(proc) {
    if (!this.mods.has(proc)) this.mods.set(proc, new Module32(this.ctx, (b) => proc.randomBytes(b)));
    return this.mods.get(proc);
  }
  run(what, proc, f) {
    try { const r = f(this.mod(proc)); this.ctx.log(`${what} -> ok`); return r; } catch (e) { this.ctx.log(`${what} -> ${typeof e === "string" ? e : e?.message}`); throw e; }
  }
  encap(r1cs, wtns, proc) { return this.run("encap", proc, (m) => m.encap(r1cs, wtns)); }
  decap(r1cs, wtns, ct, proc) { return this.run("decap", proc, (m) => m.decap(r1cs, wtns, ct)); }
}

// ---------------------------------------------------------------- the in-memory file readers
const limit = (n) => 64 * 1048576 + 200 * n;
/** An iden3 binary file from its sections; fields: [offset, length, name]. */
class Enc {
  constructor() { this.parts = []; this.at = 0; this.fields = []; }
  f(name, b) { this.fields.push([this.at, b.length, name]); this.parts.push(b); this.at += b.length; return this; }
  n(name, v, len) { return this.f(name, G.le(BigInt(v), len)); }
  sub(e) { for (const [o, l, n] of e.fields) this.fields.push([o + this.at, l, n]); const b = e.done(); this.parts.push(b); this.at += b.length; return this; }
  done() { return G.cat(...this.parts); }
}
function encode(magic, version, sections) {
  const e = new Enc();
  e.f("magic", new TextEncoder().encode(magic)).n("version", version, 4).n("n_sections", sections.length, 4);
  for (const [ty, body] of sections) {
    e.n("section_type", ty, 4).n("section_size", body instanceof Enc ? body.at : body.length, 8);
    if (body instanceof Enc) e.sub(body); else e.f("unknown_body", body);
  }
  return { bytes: e.done(), fields: e.fields };
}
function shuffle(t, l) { for (let i = l.length - 1; i > 0; i--) { const j = t.choose(i + 1); [l[i], l[j]] = [l[j], l[i]]; } return l; }
function unknown(t) {
  return Array.from({ length: t.choose(3) }, () => [t.pick([0, 4, 9, 0xffffffff]), t.prngFrom().fill(new Uint8Array(t.chance(1, 8) ? 9000 : t.choose(40)))]);
}
function r1csFile(t, c, fs, labels) {
  const h = new Enc();
  h.n("field_size", fs, 4).n("prime", c.p, fs).n("n_wires", c.nWires, 4).n("n_pub_out", c.nOut, 4).n("n_pub_in", c.nPub, 4).n("n_prv_in", c.nPrv, 4).n("n_labels", c.nWires, 8).n("n_constraints", c.cons.length, 4);
  const k = new Enc();
  for (const con of c.cons) for (const lc of con) { k.n("n_factors", lc.length, 4); for (const [w, v] of lc) k.n("factor_wire", w, 4).n("factor_value", v, fs); }
  const s = [[1, h], [2, k], ...unknown(t)];
  if (labels) { const m = new Enc(); for (let i = 0; i < c.nWires; i++) m.n("label", i, 8); s.push([3, m]); }
  return encode("r1cs", 1, shuffle(t, s));
}
function wtnsFile(t, vals, anyOrder = true) {
  const h = new Enc();
  h.n("field_size", 32, 4).n("prime", G.P, 32).n("n_witness", vals.length, 4);
  const v = new Enc();
  for (const x of vals) v.n("value", x, 32);
  const s = [[1, h], [2, v], ...(anyOrder ? unknown(t) : [])];
  return encode("wtns", 2, anyOrder ? shuffle(t, s) : s);
}
const AMBIGUOUS = Symbol("more than one reading");
/** Sections as [type, size, start], null when a section header is incomplete. */
function sections(b, magic, version) {
  const n = (o, l) => (o + l > b.length ? null : Number(G.fromLe(b.subarray(o, o + l))));
  if (b.length < 12 || Buffer.from(b.subarray(0, 4)).toString("latin1") !== magic || n(4, 4) !== version) return null;
  const r = [];
  let at = 12;
  for (let k = n(8, 4); k > 0; k--) {
    const ty = n(at, 4), len = n(at + 4, 8);
    if (ty === null || len === null) return null;
    r.push([ty, len, at + 12]);
    at += 12 + len;
  }
  return r;
}
class Short extends Error {}
class Rd {
  constructor(b, at) { this.b = b; this.at = at; }
  take(n) { if (this.at + n > this.b.length) throw new Short(); const r = this.b.subarray(this.at, this.at + n); this.at += n; return r; }
  n(l) { return Number(G.fromLe(this.take(l))); }
}
/** What the bytes say: a circuit, null (incomplete), or AMBIGUOUS. */
function readR1cs(b) {
  const s = sections(b, "r1cs", 1);
  if (!s) return null;
  for (const ty of [1, 2, 3]) if (s.filter((x) => x[0] === ty).length > 1) return AMBIGUOUS;
  try {
    let odd = s.some(([, len, at]) => at + len > b.length);
    const s1 = s.find((x) => x[0] === 1), s2 = s.find((x) => x[0] === 2);
    if (!s1 || !s2) return null;
    const h = new Rd(b, s1[2]);
    const fs = h.n(4);
    h.take(fs);
    const c = { p: G.P, nWires: h.n(4), nOut: h.n(4), nPub: h.n(4), cons: [] };
    h.n(4); h.n(8);
    const nc = h.n(4);
    odd ||= h.at !== s1[2] + s1[1];
    const r = new Rd(b, s2[2]);
    for (let i = 0; i < nc; i++) {
      c.cons.push([0, 1, 2].map(() => Array.from({ length: Math.min(r.n(4), b.length + 1) }, () => {
        const w = r.n(4), v = r.take(fs);
        if (v.subarray(32).some((x) => x)) odd = true; // no field has such coefficients: not claimed
        return [w, G.mod(G.fromLe(v.subarray(0, 32)))];
      })));
    }
    odd ||= r.at !== s2[2] + s2[1];
    return odd ? AMBIGUOUS : c;
  } catch (e) { if (e instanceof Short) return null; throw e; }
}
function readWtns(b) {
  const s = sections(b, "wtns", 2);
  if (!s) return null;
  for (const ty of [1, 2]) if (s.filter((x) => x[0] === ty).length > 1) return AMBIGUOUS;
  try {
    const s1 = s.find((x) => x[0] === 1), s2 = s.find((x) => x[0] === 2);
    if (!s1 || !s2) return null;
    const h = new Rd(b, s1[2]);
    const fs = h.n(4);
    h.take(fs);
    const n = h.n(4);
    let odd = h.at !== s1[2] + s1[1];
    if (fs === 0 || n * fs !== s2[1]) return null;
    const v = new Rd(b, s2[2]), vals = [];
    for (let i = 0; i < n; i++) vals.push(G.mod(G.fromLe(v.take(fs).subarray(0, 32))));
    odd ||= s.some(([, len, at]) => at + len > b.length);
    return odd ? AMBIGUOUS : vals;
  } catch (e) { if (e instanceof Short) return null; throw e; }
}
function satisfied(c, w) {
  const at = (lc) => lc.reduce((s, [i, k]) => (i < c.nWires && i < w.length ? G.mod(s + k * w[i]) : s), 0n);
  return w.length === c.nWires && c.cons.every(([a, b, k]) => G.mod(at(a) * at(b)) === at(k));
}
/** Damage of the kinds disks and transfers do, sizes and counts of the file among them. */
function spoil(ctx, f) {
  const t = ctx.tape, b = Uint8Array.from(f.bytes);
  if (t.chance(1, 4)) {
    const k = t.chance(1, 2) ? t.pick(f.fields)[0] : t.choose(b.length);
    ctx.fired.truncate = (ctx.fired.truncate ?? 0) + 1;
    return { b: b.slice(0, k), what: `truncated to ${k} of ${b.length}` };
  }
  if (t.chance(2, 3)) {
    const counts = f.fields.filter((x) => /^n_|size$|type$|wire$/.test(x[2])), [o, l, name] = t.pick(counts);
    const old = G.fromLe(b.subarray(o, o + l)), max = (1n << BigInt(8 * l)) - 1n;
    let v;
    switch (t.choose(7)) {
      case 0: v = 0n; break;
      case 1: v = max - BigInt(t.choose(80)); break;
      case 2: v = old + (1n << BigInt(8 * (1 + t.choose(l - 1)))) * BigInt(1 + t.choose(3)); break; // a flipped high byte
      case 3: v = 1n << BigInt(8 * l - 1); break;
      case 4: v = old + BigInt(1 + t.choose(3)); break;
      case 5: v = old > 0n ? old - 1n : 1n; break;
      default: v = BigInt(t.choose(1 << 20));
    }
    v &= max;
    b.set(G.le(v, l), o);
    ctx.fired.field_overwrite = (ctx.fired.field_overwrite ?? 0) + 1;
    return { b, what: `${name} at ${o}: ${old} became ${v}` };
  }
  const { r, ops } = damage(ctx, b, b);
  return { b: r, what: String(ops) };
}
/** A call into the module; a trap (panic, abort, out of memory) is never allowed. */
function judged(ctx, m, what, n, f) {
  let r;
  try { r = { ok: f() }; } catch (e) {
    if (e instanceof Violation) throw e;
    if (typeof e !== "string") throw new Violation("trap", `${what}: the WebAssembly module trapped: ${e.message}; ${m.panics.join("; ")}`);
    r = { err: e };
  }
  ctx.evals++;
  ensure(m.grown() <= limit(n), "memory", () => `${what}: the module's memory grew by ${m.grown()} bytes for files of ${n} bytes`);
  ctx.log(`${what}: ${r.ok ? "accepted" : r.err}`);
  return r;
}
const sha = (b) => crypto.createHash("sha256").update(b).digest("hex").slice(0, 16);
const rnd = (t) => ((r) => (b) => r.fill(b))(t.prngFrom());
const isPrefix = (a, b) => a.length < b.length && G.eq(a, b.subarray(0, a.length));

/** C09 on wasm32: the circuit reader, observed through what it lets encapsulate and decapsulate. */
async function r1cs(ctx) {
  const t = ctx.tape;
  const c = G.genCircuit(t), vals = G.genVals(t, c);
  if (t.chance(1, 2)) G.addAssert(t, c, vals);
  const good = G.witnessOf(c, vals), np = c.nOut + c.nPub;
  const f = r1csFile(t, c, t.chance(1, 5) ? t.pick([40, 48, 64]) : 32, t.chance(3, 4));
  const { b, what } = t.chance(2, 3) ? spoil(ctx, f) : { b: f.bytes, what: "intact" };
  const dam = !G.eq(b, f.bytes), cut = isPrefix(b, f.bytes), n = b.length + f.bytes.length;
  const reading = !dam || cut ? c : readR1cs(b);
  if (reading === AMBIGUOUS) ctx.probe("ambiguous");
  const m = new Module32(ctx, rnd(t));
  ctx.log(`file ${sha(b)}`);
  const gw = G.wtnsBytes(good);
  const ct0 = judged(ctx, m, "encap with the intact file", n, () => m.encap(f.bytes, gw));
  ensure(ct0.ok, "refused", () => `a well-formed circuit was refused: ${ct0.err}`);
  const cls = (k) => (cut ? "truncated_accepted" : dam ? `damaged_${k}` : k);
  const e = judged(ctx, m, what, n, () => m.encap(b, gw));
  if (e.ok && reading !== AMBIGUOUS) {
    ensure(reading, "malformed_accepted", () => `${what}: an incomplete circuit was used for encapsulation`);
    const k = reading.nOut + reading.nPub, got = m.publics(e.ok.ciphertext);
    ensure(got && got.length === k && got.every((v, i) => v === good[i + 1]), cls("misread"), () => `${what}: the circuit has ${k} public wires, bound were ${got?.slice(0, 6)}`);
    ctx.probe("encapsulated");
  } else if (!dam) ensure(e.ok, "refused", () => `a well-formed circuit was refused: ${e.err}`);
  for (let k = 0; k < 4; k++) {
    const w = good.slice();
    if (k) { const i = 1 + t.choose(w.length - 1); w[i] = G.mod(w[i] + BigInt(1 + t.choose(3))); }
    const d = judged(ctx, m, `${what} try ${k}`, n, () => m.decap(b, G.wtnsBytes(w), ct0.ok.ciphertext));
    if (reading === AMBIGUOUS) continue;
    if (d.ok) {
      ensure(reading, "malformed_accepted", () => `${what}: an incomplete circuit was used for decapsulation`);
      ensure(satisfied(reading, w) && w.slice(1, 1 + np).every((x, i) => x === good[i + 1]), cls("misread"), () => `${what}: an assignment that violates the circuit was accepted`);
      ctx.probe("decapsulated");
    } else if (!dam) ensure(!satisfied(c, w) || !w.slice(1, 1 + np).every((x, i) => x === good[i + 1]), "misread", () => `a satisfying assignment was refused: ${d.err}`);
  }
  ctx.nontrivial = dam;
  ctx.sample = `${b.length} bytes, ${what}: ${e.ok ? "read" : e.err}`;
}
/** A circuit without constraints: np public wires, one private. */
const probe = (t, np) => r1csFile(t, { p: G.P, nWires: np + 2, nOut: 0, nPub: np, nPrv: 1, cons: [] }, 32, true).bytes;

/** C10 on wasm32: the witness reader; the values read show up as public inputs of a ciphertext. */
async function wtns(ctx) {
  const t = ctx.tape;
  const nv = 2 + t.choose(t.chance(1, 6) ? 300 : 20);
  const vals = [1n, ...Array.from({ length: nv - 1 }, () => G.genElem(t))];
  const f = wtnsFile(t, vals);
  const { b, what } = t.chance(2, 3) ? spoil(ctx, f) : { b: f.bytes, what: "intact" };
  const dam = !G.eq(b, f.bytes), cut = isPrefix(b, f.bytes);
  const reading = !dam || cut ? vals : readWtns(b);
  if (reading === AMBIGUOUS) ctx.probe("ambiguous");
  const m = new Module32(ctx, rnd(t));
  ctx.log(`file ${sha(b)}`);
  const np = nv - 1, circuit = probe(t, np), smaller = probe(t, np - 1);
  const n = b.length + circuit.length + smaller.length;
  const e = judged(ctx, m, `${what} encap`, n, () => m.encap(circuit, b));
  if (e.ok && reading !== AMBIGUOUS) {
    ensure(reading, "malformed_accepted", () => `${what}: an incomplete file gave a ciphertext`);
    const got = m.publics(e.ok.ciphertext);
    ensure(reading.length > np && got && got.length === np && got.every((v, i) => v === reading[i + 1]), dam ? "damaged_misread" : "misread", () => `${what}: the file holds ${reading.slice(0, 5)}.. (${reading.length} values), used were ${got?.slice(0, 5)}.. (${got?.length})`);
    ctx.probe("read");
  } else if (!dam) ensure(e.ok, "refused", () => `a well-formed witness was refused: ${e.err}`);
  const good = m.encap(smaller, wtnsFile(t, vals, false).bytes);
  const d = judged(ctx, m, `${what} decap`, n, () => m.decap(smaller, b, good.ciphertext));
  if (d.ok) {
    ensure(G.eq(d.ok, good.key), "misread", () => `${what}: another key came out`);
    if (reading !== AMBIGUOUS) ensure(reading && reading.length === nv && reading.slice(1, np).every((v, i) => v === vals[i + 1]), "damaged_misread", () => `${what}: decapsulation succeeded with a witness the file does not hold`);
    ctx.probe("decapsulated");
  } else if (!dam) ensure(false, "refused", `decapsulation with a well-formed witness failed: ${d.err}`);
  ctx.nontrivial = dam;
  ctx.sample = `${b.length} bytes, ${what}: ${e.ok ? "read" : e.err}`;
}
export const wasm32Components = { r1cs_wasm32: { run: r1cs }, wtns_wasm32: { run: wtns } };
