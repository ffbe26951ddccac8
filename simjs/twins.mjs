// C07 by comparison: the same execution twice - same calls, schedule, faults, randomness and public
// data - with other secrets. Whatever an observer sees (outcome of each call, error texts, console
// output, sizes, the open part of packages) must be the same.
import { Ctx, Sched, Proc, ensure, Violation, programBytes, hex } from "./sim.mjs";
import { Prng, Tape } from "./tape.mjs";
import * as G from "./gen.mjs";

const te = new TextEncoder();
const KINDS = ["chunk_load", "entropy_fail", "import_key", "subtle_encrypt", "subtle_decrypt", "wasm_compile", "wasm_instantiate", "wasm_trap", "circuit_memory"];
const OPEN = G.P >> 2n;

/** Secrets of one of the two executions: bytes and values of given shape. */
class Secrets {
  constructor(salt) { this.salt = salt; this.n = 0; }
  rng() { return new Prng(`secret${this.salt}/${this.n++}`); }
  /** never two equal bytes at the same place in both executions */
  bytes(n, text) {
    const r = this.rng(), b = new Uint8Array(n);
    for (let i = 0; i < n; i++) b[i] = text ? 97 + 2 * r.below(13) + this.salt : ((r.u32() & 127) << 1) | this.salt;
    return b;
  }
  /** a field element; "bit", "digit", "mid" or "big", of the same number of decimal digits in both executions */
  value(size) {
    const r = this.rng();
    if (size === "bit") return BigInt(((this.n * 5) >> 2 & 1) ^ this.salt);
    if (size === "digit") return BigInt(1 + 2 * r.below(4) + this.salt);
    if (size === "mid") return BigInt(1_000_000 + 2 * r.below(4_000_000) + this.salt);
    let v = 0n;
    for (let i = 0; i < 6; i++) v = (v << 32n) | BigInt(r.u32());
    return OPEN + (v & ~1n) + BigInt(this.salt);
  }
}

function spellings(t, g, sizes) {
  return Array.from({ length: g.size }, (_, i) => (sizes[i] === "big" ? t.pick(["s", "s", "-s"]) : t.pick(["s", "n", "n"])));
}
const say = (how, v) => (how === "n" ? Number(v) : how === "-s" ? (v - G.P).toString() : v.toString());
function nest(dims, leaves, at = { i: 0 }) {
  if (!dims.length) return leaves[at.i++];
  return Array.from({ length: dims[0] }, () => nest(dims.slice(1), leaves, at));
}

/** One of the two executions. Everything drawn from ctx.tape is the same in both. */
async function once(ctx, salt) {
  const t = ctx.tape, S = new Secrets(salt);
  const kem = new G.StubKem(ctx), sched = new Sched(ctx);
  kem.keySalt = `/${salt}`;
  const on = t.chance(2, 3), rates = {};
  for (const k of KINDS) rates[k] = on ? t.pick([0, 0, 15, 60, 250]) : 0;
  const fails = t.chance(1, 6) ? 1 + t.choose(2) : 0;
  const proc = new Proc(sched, {
    entropySeed: t.choose(0x7fffffff), kem, faults: rates, initDelay: t.pick([0, 0, 5, 40]),
    initPlan: (n) => (n <= fails ? "fails" : "slow"), preferJs: t.chance(1, 4) ? ["witness_calculator.js"] : [],
  });
  const lib = proc.load("index.ts"), aes = proc.load("crypto.ts"), wit = proc.load("witness.ts");
  const large = t.chance(1, 6);
  const circuits = Array.from({ length: 1 + t.choose(2) }, () => {
    const c = G.genCircuit(t, { noOut: true, nMid: large ? 60 + t.choose(400) : undefined });
    const pub = Array.from({ length: c.nPub }, () => G.genElem(t));
    const size = t.pick(["bit", "digit", "digit", "mid", "big", "big", "mixed"]);
    const sizes = Array.from({ length: c.nPrv }, () => (size === "mixed" ? t.pick(["bit", "digit", "mid", "big"]) : size));
    // an asserted value is part of the circuit, so it is no secret here
    const asserted = t.chance(1, 3) ? t.choose(c.nPrv) : -1, av = 5n;
    const vals = [...pub, ...sizes.map((s, i) => { const v = S.value(s); return i === asserted ? av : v; })];
    if (asserted >= 0) {
      const w = 1 + c.nOut + c.nPub + asserted;
      c.asserts.push({ i: c.nPub + asserted, v: av });
      c.cons.push([[[w, 1n]], [[w, 1n], [0, G.mod(-av)]], []]);
    }
    const r1cs = kem.register(c), sym = G.symOf(t, c, { shuffle: t.chance(1, 3) });
    const wasm = programBytes(G.program(c, { logs: t.chance(1, 6) ? ["checking"] : [] }));
    const how = new Map();
    for (const g of c.groups) if (g.kind === "prv") how.set(g.name, spellings(t, g, sizes.slice(g.wire - 1 - c.nPub)));
    return { c, vals, r1cs, sym, wasm, how, asserted };
  });
  const pubInputs = (ci) => G.inputsOf(t, ci.c, ci.vals, "public", { shuffle: true, negative: t.chance(1, 3) });
  const fullInputs = (ci, alter) => {
    const w = G.witnessOf(ci.c, ci.vals), r = pubInputs(ci);
    for (const g of ci.c.groups) if (g.kind === "prv") {
      const h = ci.how.get(g.name);
      let leaves = h.map((x, i) => say(x, w[g.wire + i]));
      const what = alter?.g === g ? alter.what : "";
      if (what === "more") for (let i = 0; i < alter.n; i++) leaves.push(say(h[0], S.value("digit")));
      if (what === "fewer") leaves.pop();
      if (what === "broken") leaves = leaves.map((x, i) => (i === alter.at ? alter.junk : x));
      if (what === "missing") continue;
      r[what === "renamed" ? g.name + "_" : g.name] = what === "more" || what === "fewer" ? leaves : nest(g.dims, leaves);
      if (what === "twice") r[g.name + "x"] = nest(g.dims, leaves);
    }
    return r;
  };
  const plans = [];
  const secretMsg = () => S.bytes(t.pick([0, 1, 8, 16, 31, 64, 200, 3000]), t.chance(1, 2));
  const n = 1 + t.choose(5);
  for (let i = 0; i < n; i++) {
    const ci = t.pick(circuits), c = ci.c;
    const kind = t.pick(["encrypt", "encrypt", "decrypt", "decrypt", "decrypt", "decap", "encap", "witness", "seal", "open"]);
    const delay = t.pick([0, 0, 3, 30]);
    const p = { kind };
    const files = { r1csBuffer: ci.r1cs, wasmBuffer: ci.wasm, symContent: ci.sym };
    if (t.chance(1, 12)) { files.r1csBuffer = ci.r1cs.subarray(0, t.choose(ci.r1cs.length)); p.odd = "r1cs"; }
    if (kind === "encrypt" || kind === "encap") {
      const inputs = pubInputs(ci), odd = t.choose(8), ks = Object.keys(inputs);
      if (odd === 0) delete inputs[ks[t.choose(ks.length)]];
      if (odd === 1) inputs[ks[t.choose(ks.length)]] = t.pick(["abc", null, {}, [], 1.5]);
      if (odd <= 1) p.odd = "public inputs";
      const msg = secretMsg(), embed = t.chance(1, 2);
      p.call = sched.call(`${kind}#${i}`, () => (kind === "encap" ? lib.encap(files, inputs) : lib.encrypt(files, inputs, msg, { includePublicInput: embed })), delay);
    } else if (kind === "seal" || kind === "open") {
      const key = S.bytes(t.pick([32, 32, 32, 16, 31, 33, 0]), false), msg = secretMsg();
      if (key.length !== 32) p.odd = "key length";
      if (kind === "seal") p.call = sched.call(`seal#${i}`, () => aes.aesGcmEncrypt(key, msg), delay);
      else {
        const nonce = t.prngFrom().fill(new Uint8Array(12));
        let box = t.chance(1, 2) ? t.prngFrom().fill(new Uint8Array(t.choose(60))) : G.seal(key.length === 32 ? key : S.bytes(32), nonce, msg);
        p.call = sched.call(`open#${i}`, () => aes.aesGcmDecrypt(key, box), delay);
      }
    } else {
      // values for one private signal that do not fit, a signal left out, an unknown one
      let alter = null;
      if (t.chance(1, 2)) {
        const prv = c.groups.filter((g) => g.kind === "prv"), g = t.pick(prv);
        alter = { g, what: t.pick(["more", "more", "fewer", "missing", "renamed", "twice", "broken"]), n: 1 + t.choose(3), at: t.choose(g.size), junk: t.pick([null, undefined, {}, true, "", "abc", [1, 2]]) };
        p.odd = alter.what;
      }
      if (ci.asserted >= 0 && t.chance(1, 3)) { ci.vals[c.nPub + ci.asserted] = 6n; p.odd = "assertion"; }
      const full = fullInputs(ci, alter);
      if (ci.asserted >= 0) ci.vals[c.nPub + ci.asserted] = 5n;
      if (kind === "witness") p.call = sched.call(`witness#${i}`, () => wit.calculateWitness(ci.wasm, full), delay);
      else {
        const r = t.prngFrom(), msg = secretMsg(), embed = t.chance(1, 2);
        const pubs = G.publicOf(c, ci.vals);
        const other = t.chance(1, 8);
        if (other) { pubs[0] = G.mod(pubs[0] + 1n); p.odd = "package for other inputs"; }
        const e = kem.encap(ci.r1cs, G.wtnsBytes([1n, ...pubs]), { randomBytes: (b) => r.fill(b) });
        const sealed = G.seal(e.key, r.fill(new Uint8Array(12)), msg);
        let bytes = kind === "decap" ? e.ciphertext : G.packPackage({ flag: embed, kemCt: e.ciphertext, json: te.encode(JSON.stringify(pubInputs(ci))), sealed });
        const harm = t.choose(6);
        if (harm === 0) { bytes = bytes.subarray(0, t.choose(bytes.length)); p.odd = "cut package"; }
        if (harm === 1 && bytes.length) { bytes = Uint8Array.from(bytes); bytes[t.chance(1, 2) ? bytes.length - 1 - t.choose(Math.min(30, bytes.length)) : t.choose(bytes.length)] ^= 1 << t.choose(8); p.odd = "damaged package"; }
        p.call = sched.call(`${kind}#${i}`, () => lib[kind](files, bytes, full), delay);
      }
    }
    plans.push(p);
  }
  await sched.run();
  return { plans, console: proc.console };
}

/** Everything about a value that an error handler or a log may show, stack positions aside. */
function show(e, depth = 0) {
  if (e === null || typeof e !== "object") return `${typeof e} ${String(e)}`;
  if (depth > 4) return "..";
  if (ArrayBuffer.isView(e)) return `bytes ${hex(new Uint8Array(e.buffer, e.byteOffset, e.byteLength))}`;
  if (e instanceof ArrayBuffer) return `bytes ${hex(new Uint8Array(e))}`;
  const r = [e.constructor?.name ?? "object"];
  if (e instanceof Error) r.push(String(e));
  for (const k of Object.getOwnPropertyNames(e).sort()) if (k !== "stack") r.push(`${k}=${show(e[k], depth + 1)}`);
  return `{${r.join("; ")}}`;
}
// positions in source text are nobody's secret, and lines of a printed stack carry nothing else
const unplaced = (s) => s.replace(/\n\s+at [^\n]*/g, "");

function outcome(p) {
  const c = p.call;
  if (!c.ok) return `rejected: ${unplaced(show(c.error))}`;
  const v = c.value;
  if (v instanceof Uint8Array) return `${v.length} bytes`;
  let r = `ciphertext of ${v.ciphertext.length} bytes, key of ${v.key.length}`;
  if (p.kind === "encrypt") {
    const q = G.unpackPackage(v.ciphertext);
    r += `, open part ${hex(v.ciphertext.slice(0, q.sealedAt))}`;
  } else r += ` ${hex(v.ciphertext)}`;
  return r;
}

export async function twins(ctx) {
  const start = ctx.tape.rec.length;
  const a = await once(ctx, 0);
  const sub = new Ctx(Tape.replay(ctx.tape.rec.slice(start)), false);
  sub.progress = ctx.progress;
  const b = await once(sub, 1);
  for (const [i, p] of a.plans.entries()) {
    const q = b.plans[i];
    ctx.evals++;
    const x = outcome(p), y = outcome(q);
    ctx.probe(p.call.ok ? "same_success" : "same_failure");
    if (p.odd) ctx.probe(`odd: ${p.odd}`);
    ensure(x === y, "secret_dependent_output", () => `${p.call.name}: with one secret ${cut(x, y)}, with another ${cut(y, x)}`);
  }
  const m = a.console.map(unplaced), n = b.console.map(unplaced);
  ctx.evals++;
  for (let i = 0; i < Math.max(m.length, n.length); i++)
    ensure(m[i] === n[i], "secret_dependent_log", () => `console line ${i}: with one secret ${cut(String(m[i]), String(n[i]))}, with another ${cut(String(n[i]), String(m[i]))}`);
  ctx.nontrivial = a.plans.some((p) => !p.call.ok);
  ctx.sample = `${a.plans.map((p) => `${p.call.name}${p.odd ? ` (${p.odd})` : ""} ${p.call.ok ? "ok" : "rejected"}`).join(", ")}; ${m.length} console lines`;
}
/** The part of x around where it first differs from y. */
function cut(x, y) {
  let i = 0;
  while (i < x.length && x[i] === y[i]) i++;
  return x.length < 160 ? x : `..${x.slice(Math.max(0, i - 60), i + 80)}..`;
}
