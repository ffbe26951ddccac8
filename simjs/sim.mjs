// One simulated JavaScript process: the library's real modules, instantiated afresh, with every
// source of nondeterminism (asynchronous completions, randomness, clock, timers, the WASM modules,
// chunk loading) in the hands of the scheduler.
import fs from "node:fs";
import path from "node:path";
import vm from "node:vm";
import nodeCrypto from "node:crypto";
import { AsyncLocalStorage } from "node:async_hooks";
import { fileURLToPath } from "node:url";
import { Prng, Fnv } from "./tape.mjs";

const here = path.dirname(fileURLToPath(import.meta.url));
const sources = JSON.parse(fs.readFileSync(path.join(here, "..", ".build", "js", "modules.json"), "utf8"));
const SHADOWS = ["exports", "require", "module", "__dynImport", "globalThis", "self", "window", "global", "crypto", "WebAssembly",
  "console", "setTimeout", "clearTimeout", "setInterval", "clearInterval", "setImmediate", "queueMicrotask", "Math", "Date",
  "performance", "process", "fetch", "Worker", "FileReader", "document", "URL", "Blob", "File", "alert", "navigator", "location",
  "localStorage", "sessionStorage", "requestAnimationFrame"];
const compiled = {};
function code(name) {
  return (compiled[name] ??= vm.compileFunction(sources[name], SHADOWS, { filename: name }));
}
export const moduleNames = Object.keys(sources);

export class Violation extends Error {
  constructor(key, detail) {
    super(detail);
    this.key = key;
  }
}
export function ensure(ok, key, detail) {
  if (!ok) throw new Violation(key, typeof detail === "function" ? detail() : detail);
}

const realTick = setImmediate;
const als = new AsyncLocalStorage();
export const unhandled = [];
process.on("unhandledRejection", (e) => { unhandled.push(e); });

/** The state of one run: tape, log, counters. */
export class Ctx {
  constructor(tape, traceOn) {
    this.tape = tape;
    this.traceOn = traceOn;
    this.trace = [];
    this.hash = new Fnv();
    this.sched = new Fnv();
    this.fired = {};
    this.probes = {};
    this.evals = 0;
    this.nontrivial = false;
    this.sample = null;
    this.findings = [];
    this.collected = [];
    this.steps = 0;
    this.switches = 0;
    this.now = 1_700_000_000_000; // ms
    this.simMs = 0;
  }
  choose(n) { return this.tape.choose(n); }
  chance(a, b) { return this.tape.chance(a, b); }
  pick(l) { return this.tape.pick(l); }
  log(s) {
    this.hash.add(s + "\n");
    if (this.traceOn) this.trace.push(s.length > 600 ? s.slice(0, 600) + ".." : s);
  }
  probe(k) { this.probes[k] = (this.probes[k] ?? 0) + 1; }
  fault(k) { this.fired[k] = (this.fired[k] ?? 0) + 1; }
  finding(key, detail) { this.findings.push({ key, detail }); }
}

/** Scheduler of the asynchronous steps of all simulated processes of a run. */
export class Sched {
  constructor(ctx) {
    this.ctx = ctx;
    this.pending = [];
    this.limit = 20000;
    this.last = null;
    this.calls = [];
  }
  /** Register an asynchronous step that completes when the scheduler says so. */
  step(label, run, delay = 0) {
    const call = als.getStore() ?? null;
    delay += this.stall();
    return new Promise((resolve, reject) => {
      this.pending.push({ label, call, due: this.ctx.now + delay, fire: () => {
        let v;
        try { v = run(); } catch (e) { reject(e); return; }
        resolve(v);
      } });
    });
  }
  /** Now and then a step takes seconds or minutes: a busy machine, a laptop that sleeps. */
  stall() {
    const { ctx } = this;
    this.slow ??= ctx.pick([0, 0, 0, 20, 200]);
    if (!this.slow || !ctx.chance(this.slow, 1024)) return 0;
    ctx.fault("stalled_step");
    return ctx.pick([10, 300, 1500, 6000, 11000, 35000, 70000, 400000]);
  }
  /** A callback step (call starts, caller's own actions, timers). */
  event(label, run, delay = 0) {
    const e = { label, own: /^(start|caller) /.test(label), call: als.getStore() ?? null, due: this.ctx.now + delay, fire: run };
    this.pending.push(e);
    return e;
  }
  cancel(e) {
    const i = this.pending.indexOf(e);
    if (i >= 0) this.pending.splice(i, 1);
  }
  /** Plan a call of the library; it starts when the scheduler picks it. */
  call(name, f, delay = 0) {
    const c = { name, started: false, settled: false, ok: false, value: undefined, error: undefined, faults: [], startStep: -1, endStep: -1 };
    this.calls.push(c);
    this.event(`start ${name}`, () => {
      c.started = true;
      c.startStep = this.ctx.steps;
      als.run(c, () => {
        let p;
        try { p = Promise.resolve(f(c)); } catch (e) { p = Promise.reject(e); }
        p.then((v) => { c.settled = true; c.ok = true; c.value = v; c.endStep = this.ctx.steps; this.ctx.log(`${name} resolved`); },
          (e) => { c.settled = true; c.error = e; c.endStep = this.ctx.steps; this.ctx.log(`${name} rejected: ${errText(e)}`); });
      });
    }, delay);
    return c;
  }
  /**
   * Something the caller does may also happen in the same turn of the event loop, between the microtasks that
   * the step sets off (callers await promises of their own that the same event settles).
   */
  sameTurn() {
    const { ctx } = this;
    this.turns ??= ctx.pick([0, 0, 60, 300]);
    if (!this.turns || !ctx.chance(this.turns, 1024)) return;
    do {
      const own = this.pending.filter((p) => p.own);
      if (!own.length) return;
      const e = own[ctx.choose(own.length)], hops = ctx.choose(12);
      this.pending.splice(this.pending.indexOf(e), 1);
      ctx.probe("same_turn");
      let p = Promise.resolve();
      for (let i = 0; i < hops; i++) p = p.then(() => {});
      p.then(() => {
        ctx.log(`  ${hops} microtasks later: ${e.label}`);
        if (e.call) als.run(e.call, e.fire); else e.fire();
      }).catch((x) => { this.broken = x; });
    } while (ctx.chance(1, 2)); // several of them at times
  }
  /** Run until nothing is left to happen. */
  async run() {
    const { ctx } = this;
    await tick();
    while (this.pending.length) {
      ctx.progress?.();
      if (++ctx.steps > this.limit) {
        const open = this.calls.filter((c) => !c.settled).map((c) => c.name);
        throw new Violation("livelock", `more than ${this.limit} steps; unsettled: ${open.join(", ")}`);
      }
      // a random one of those that are due; if none is, time passes
      let due = this.pending.filter((p) => p.due <= ctx.now);
      if (!due.length) {
        const t = Math.min(...this.pending.map((p) => p.due));
        ctx.simMs += t - ctx.now;
        ctx.now = t;
        due = this.pending.filter((p) => p.due <= ctx.now);
      }
      const e = due[ctx.choose(due.length)];
      this.pending.splice(this.pending.indexOf(e), 1);
      ctx.now += 1;
      ctx.simMs += 1;
      const who = e.call?.name ?? "-";
      if (who !== this.last) ctx.switches++;
      this.last = who;
      ctx.log(`[${ctx.now - 1_700_000_000_000}ms] ${who}: ${e.label}`);
      ctx.sched.add(who + ":" + e.label.split(" ")[0] + "\n");
      if (e.call) als.run(e.call, e.fire); else e.fire();
      this.sameTurn();
      await tick();
      if (this.broken) throw this.broken;
      if (this.afterStep?.()) await tick(); // somebody who was waiting for this goes on
      if (unhandled.length) {
        const x = unhandled.splice(0);
        if (ctx.browser) for (const e of x) ctx.log(`unhandled rejection: ${errText(e)}`);
        else throw new Violation("unhandled_rejection", `a promise was rejected with nobody listening (this ends a Node.js process): ${errText(x[0])}`);
      }
    }
    this.stuck?.();
    for (const c of this.calls) ensure(c.settled, "never_settles", () => `${c.name} neither resolved nor rejected although nothing is left to happen`);
  }
}
const tick = () => new Promise((r) => realTick(r));
export function errText(e) {
  if (e instanceof Error) return `${e.name}: ${e.message}`;
  return String(e);
}
export const within = (call, f) => als.run(call, f);
export function curCall() { return als.getStore() ?? null; }
function note(kind) {
  const c = als.getStore();
  if (c) c.faults.push(kind);
}

const bytesOf = (x) => {
  if (x instanceof ArrayBuffer) return new Uint8Array(x.slice(0));
  if (ArrayBuffer.isView(x)) return new Uint8Array(x.buffer.slice(x.byteOffset, x.byteOffset + x.byteLength));
  throw new TypeError("not a BufferSource");
};
const opError = (m) => { const e = new Error(m); e.name = "OperationError"; return e; };

/**
 * One simulated process.
 * opts: entropySeed, kem {encap(r1cs, wtns, rng), decap(r1cs, wtns, ct)}, faults {kind: rate of 1024}, initFails(n) -> error kind or null
 */
export class Proc {
  constructor(sched, opts) {
    this.sched = sched;
    this.ctx = sched.ctx;
    this.opts = opts;
    this.rates = opts.faults ?? {};
    this.entropy = new Prng("entropy" + opts.entropySeed);
    this.misc = new Prng("misc"); // Math.random: the same everywhere, it is no secure source
    this.entropyBytes = 0;
    this.entropyFailed = 0;
    this.console = [];
    this.inits = { running: 0, max: 0, done: 0, started: 0, failed: 0, afterDone: 0 };
    this.kemBeforeInit = 0;
    this.kemCalls = [];
    this.instances = 0;
    this.cache = {};
    this.globals = this.makeGlobals();
  }
  hit(kind) {
    const r = this.rates[kind] ?? 0;
    if (r > 0 && this.ctx.chance(r, 1024)) {
      this.ctx.fault(kind);
      this.ctx.log(`fault ${kind}`);
      note(kind);
      return true;
    }
    return false;
  }
  require(from, spec) {
    if (spec.endsWith("pkg/zkenc_js.js") || spec.includes("pkg/zkenc_js")) return this.pkg();
    if (spec === "crypto" || spec === "node:crypto") {
      const m = { webcrypto: this.globals.crypto, subtle: this.globals.crypto.subtle, getRandomValues: (a) => this.globals.crypto.getRandomValues(a),
        randomBytes: (n) => this.randomBytes(Buffer.alloc(n)), randomFillSync: (b) => this.randomBytes(b), createHash: nodeCrypto.createHash, timingSafeEqual: nodeCrypto.timingSafeEqual,
        createCipheriv: nodeCrypto.createCipheriv, createDecipheriv: nodeCrypto.createDecipheriv };
      return { __esModule: true, ...m, default: m };
    }
    const x = this.opts.external?.(spec);
    if (x !== undefined) return x;
    if (!spec.startsWith(".")) throw new Error(`module ${spec} is not part of the simulated world`);
    const base = path.normalize(path.join(path.dirname(from), spec));
    const ts = base.replace(/\.m?js$/, ".ts");
    const js = base;
    const order = this.opts.preferJs?.includes(path.basename(base)) ? [js, ts] : [ts, js];
    const name = [...order, base + ".ts", base + ".tsx", base + "/index.ts", base + "/index.tsx", base + ".js"].find((n) => sources[n] !== undefined);
    if (!name) throw new Error(`Cannot find module '${spec}' from ${from}`);
    return this.load(name);
  }
  load(name) {
    if (this.cache[name]) return this.cache[name].exports;
    const module = { exports: {} };
    this.cache[name] = module;
    const g = this.globals;
    code(name)(module.exports, (s) => this.require(name, s), module, (s) => this.dynImport(name, s), g, g, g, g,
      ...SHADOWS.slice(8).map((k) => g[k]));
    return module.exports;
  }
  dynImport(from, spec) {
    return this.sched.step(`load ${spec}`, () => {
      if (this.hit("chunk_load")) throw new TypeError(`Failed to fetch dynamically imported module: ${spec}`);
      return this.require(from, spec);
    });
  }
  pkg() {
    return (this._pkg ??= this.makePkg());
  }
  makePkg() {
    const p = this, { ctx } = this;
    const init = () => {
      const s = p.inits;
      s.started++;
      if (s.done) s.afterDone++;
      s.running++;
      s.max = Math.max(s.max, s.running);
      const how = p.opts.initPlan ? p.opts.initPlan(s.started) : "slow";
      ctx.log(`wasm init #${s.started} (${how})`);
      const fin = (ok) => {
        s.running--;
        if (ok) s.done++; else s.failed++;
      };
      if (how === "throws") {
        ctx.fault("init_failure");
        fin(false);
        s.lastFail = ctx.steps;
        throw new Error("WebAssembly instantiation failed");
      }
      if (how === "sync") { fin(true); s.doneStep = ctx.steps; return undefined; }
      return p.sched.step(`wasm init #${s.started} ${how === "slow" ? "done" : "fails"}`, () => {
        fin(how === "slow");
        if (how !== "slow") {
          ctx.fault("init_failure");
          s.lastFail = ctx.steps;
          throw new Error("WebAssembly instantiation failed");
        }
        s.doneStep = ctx.steps;
      }, p.opts.initDelay ?? 0);
    };
    const guard = (what) => {
      if (!p.inits.done) {
        p.kemBeforeInit++;
        throw new TypeError(`Cannot read properties of undefined (reading '${what}')`);
      }
      if (p.hit("wasm_trap")) throw new WebAssembly.RuntimeError("unreachable");
    };
    const u8 = (x, n) => {
      // what wasm-bindgen's passArray8ToWasm0 does: anything with a length, read element by element
      if (x === undefined || x === null || typeof x.length !== "number") throw new TypeError(`${n}: expected a Uint8Array`);
      return Uint8Array.from(x);
    };
    return {
      __esModule: true,
      init,
      default: init,
      wasm_encap: (r1cs, wtns) => {
        guard("wasm_encap");
        const a = u8(r1cs, "r1cs"), b = u8(wtns, "witness");
        const rec = { op: "encap", wtns: b, call: als.getStore() ?? null };
        p.kemCalls.push(rec);
        const r = p.opts.kem.encap(a, b, p);
        rec.ct = r.ciphertext;
        ctx.log(`wasm_encap -> ${hex(r.ciphertext.slice(-6))}`);
        // getters copy out of WASM memory each time, as wasm-bindgen's do
        return { get ciphertext() { return r.ciphertext.slice(); }, get key() { return r.key.slice(); }, free() {} };
      },
      wasm_decap: (r1cs, wtns, ct) => {
        guard("wasm_decap");
        const a = u8(r1cs, "r1cs"), b = u8(wtns, "witness"), c = u8(ct, "ciphertext");
        p.kemCalls.push({ op: "decap", wtns: b, ct: c, call: als.getStore() ?? null });
        return p.opts.kem.decap(a, b, c, p).slice();
      },
    };
  }
  randomBytes(b) {
    if (this.hit("entropy_fail")) {
      this.entropyFailed++;
      throw opError("the random source failed");
    }
    for (let i = 0; i < b.length; i++) {
      b[i] = this.entropy.u32() & 255;
      if (this.opts.flip === this.entropyBytes) b[i] ^= 0x40;
      this.entropyBytes++;
    }
    return b;
  }
  makeGlobals() {
    const p = this, { ctx, sched } = this;
    const subtle = {
      importKey(format, key, alg, extractable, usages) {
        if (format !== "raw") return Promise.reject(new Error("only raw keys are simulated"));
        let k;
        try { k = bytesOf(key); } catch (e) { return Promise.reject(e); }
        return sched.step("importKey", () => {
          if (p.hit("import_key")) throw opError("importKey failed");
          if (![16, 24, 32].includes(k.length)) { const e = new Error("Invalid key length"); e.name = "DataError"; throw e; }
          return { type: "secret", algorithm: { name: alg.name ?? alg, length: k.length * 8 }, extractable, usages: [...usages], k };
        });
      },
      encrypt(alg, key, data) {
        let d, iv, ad;
        try { d = bytesOf(data); iv = bytesOf(alg.iv); ad = alg.additionalData ? bytesOf(alg.additionalData) : null; } catch (e) { return Promise.reject(e); }
        return sched.step("subtle.encrypt", () => {
          if (p.hit("subtle_encrypt")) throw opError("the operation failed");
          if (!key.usages.includes("encrypt")) { const e = new Error("key usage"); e.name = "InvalidAccessError"; throw e; }
          return gcmSeal(key.k, iv, d, (alg.tagLength ?? 128) / 8, ad);
        });
      },
      decrypt(alg, key, data) {
        let d, iv, ad;
        try { d = bytesOf(data); iv = bytesOf(alg.iv); ad = alg.additionalData ? bytesOf(alg.additionalData) : null; } catch (e) { return Promise.reject(e); }
        return sched.step("subtle.decrypt", () => {
          if (p.hit("subtle_decrypt")) throw opError("the operation failed");
          if (!key.usages.includes("decrypt")) { const e = new Error("key usage"); e.name = "InvalidAccessError"; throw e; }
          const t = (alg.tagLength ?? 128) / 8;
          const r = gcmOpen(key.k, iv, d, t, ad);
          if (!r) throw opError("The operation failed for an operation-specific reason");
          return r;
        });
      },
      digest(alg, data) {
        const d = bytesOf(data);
        return sched.step("digest", () => {
          const h = nodeCrypto.createHash((alg.name ?? alg).replace("-", "").toLowerCase()).update(d).digest();
          return h.buffer.slice(h.byteOffset, h.byteOffset + h.length);
        });
      },
    };
    const crypto = {
      subtle,
      getRandomValues(a) {
        if (a.byteLength > 65536) { const e = new Error("too many bytes"); e.name = "QuotaExceededError"; throw e; }
        p.randomBytes(new Uint8Array(a.buffer, a.byteOffset, a.byteLength));
        return a;
      },
      randomUUID() {
        const b = p.randomBytes(new Uint8Array(16));
        return hex(b);
      },
    };
    const say = (kind) => (...a) => { p.console.push(a.map((x) => (x instanceof Error ? x.stack ?? String(x) : typeof x === "object" ? safeJson(x) : String(x))).join(" ")); ctx.log(`console.${kind}`); };
    const console_ = {};
    for (const k of ["log", "error", "warn", "info", "debug", "trace", "dir", "table", "time", "timeEnd", "group", "groupEnd", "assert"]) console_[k] = say(k);
    const timers = new Map();
    let tid = 0;
    const setTimeout_ = (f, ms = 0, ...a) => {
      const id = ++tid;
      timers.set(id, sched.event(`timer ${ms}ms`, () => { timers.delete(id); safely(() => f(...a)); }, Math.max(0, +ms || 0)));
      return id;
    };
    const clearTimeout_ = (id) => { const e = timers.get(id); if (e) { sched.cancel(e); timers.delete(id); } };
    const setInterval_ = (f, ms = 0, ...a) => {
      const id = ++tid;
      const again = () => timers.set(id, sched.event(`interval ${ms}ms`, () => { again(); safely(() => f(...a)); }, Math.max(1, +ms || 0)));
      again();
      return id;
    };
    const WA = Object.create(WebAssembly, {
      compile: { value: (src) => {
        let d;
        try { d = bytesOf(src); } catch (e) { return Promise.reject(e); }
        return sched.step("wasm compile", () => {
          if (p.hit("wasm_compile")) throw new WebAssembly.CompileError("WebAssembly.compile(): out of memory");
          return compileModule(d);
        });
      } },
      instantiate: { value: (m, imports) => sched.step("wasm instantiate", () => {
        if (p.hit("wasm_instantiate")) throw new RangeError("WebAssembly.instantiate(): Out of memory: Cannot allocate Wasm memory for new instance");
        p.instances++;
        const isBytes = m instanceof ArrayBuffer || ArrayBuffer.isView(m);
        const mod = isBytes ? compileModule(bytesOf(m)) : m;
        const inst = mod instanceof MockModule ? mod.instantiate(imports, p) : new WebAssembly.Instance(mod, imports);
        return isBytes ? { module: mod, instance: inst } : inst;
      }) },
      Module: { value: function Module(src) { return compileModule(bytesOf(src)); } },
      Instance: { value: function Instance(m, imports) { return m instanceof MockModule ? m.instantiate(imports, p) : new WebAssembly.Instance(m, imports); } },
      validate: { value: () => true },
    });
    const M = Object.create(Math, { random: { value: () => p.misc.u32() / 4294967296 } });
    class D extends Date {
      constructor(...a) { if (a.length) super(...a); else super(D.now()); }
      static now() { return p.opts.frozenClock ? 1_700_000_000_000 : ctx.now; }
    }
    const proc = { env: {}, versions: process.versions, version: process.version, platform: "linux", argv: ["node"], nextTick: (f, ...a) => queueMicrotask(() => f(...a)),
      stdout: { write: (s) => { p.console.push(String(s)); return true; } }, stderr: { write: (s) => { p.console.push(String(s)); return true; } }, on() {}, emitWarning() {}, hrtime: Object.assign(() => [0, 0], { bigint: () => 0n }) };
    const g = Object.create(globalThis);
    const own = { crypto, WebAssembly: WA, console: console_, setTimeout: setTimeout_, clearTimeout: clearTimeout_, setInterval: setInterval_, clearInterval: clearTimeout_,
      setImmediate: (f, ...a) => setTimeout_(f, 0, ...a), queueMicrotask, Math: M, Date: D, performance: { now: () => (p.opts.frozenClock ? 0 : ctx.now - 1_700_000_000_000) }, process: proc, fetch: (u, o) => (p.opts.fetch ? p.opts.fetch(u, o) : Promise.reject(new TypeError("fetch failed"))), Worker: undefined };
    for (const [k, v] of Object.entries(own)) Object.defineProperty(g, k, { value: v, writable: true, configurable: true, enumerable: true });
    for (const k of ["globalThis", "self", "window", "global"]) Object.defineProperty(g, k, { value: g, writable: true, configurable: true });
    return g;
  }
}
function safely(f) {
  try { f(); } catch (e) { throw e instanceof Violation ? e : new Violation("uncaught_exception", `an exception nobody can catch was thrown from a timer: ${errText(e)}`); }
}
function safeJson(x) {
  try { return JSON.stringify(x, (k, v) => (typeof v === "bigint" ? String(v) : v instanceof Uint8Array ? Array.from(v) : v)) ?? String(x); } catch { return String(x); }
}
export const hex = (b) => Buffer.from(b).toString("hex");

export function gcmSeal(k, iv, d, t = 16, ad = null) {
  const c = nodeCrypto.createCipheriv(`aes-${k.length * 8}-gcm`, k, iv, { authTagLength: t });
  if (ad) c.setAAD(ad);
  const a = c.update(d), b = c.final();
  const r = Buffer.concat([a, b, c.getAuthTag()]);
  return r.buffer.slice(r.byteOffset, r.byteOffset + r.length);
}
export function gcmOpen(k, iv, d, t = 16, ad = null) {
  if (d.length < t) return null;
  try {
    const c = nodeCrypto.createDecipheriv(`aes-${k.length * 8}-gcm`, k, iv, { authTagLength: t });
    if (ad) c.setAAD(ad);
    c.setAuthTag(d.subarray(d.length - t));
    const a = c.update(d.subarray(0, d.length - t)), b = c.final();
    const r = Buffer.concat([a, b]);
    return r.buffer.slice(r.byteOffset, r.byteOffset + r.length);
  } catch {
    return null;
  }
}

/** Stand-in for a compiled circom program: the same exports, the same signed 32-bit memory words. */
const MARK = Buffer.from("\0simcircom\n");
const registry = new Map(); // program id -> program
let regN = 0;
export function resetPrograms() { registry.clear(); regN = 0; }
/** prog: {version, n32, prime, witnessSize, inputs: Map name -> {size, at}, run(values: bigint[]) -> bigint[] | {assert: msg}, logs} */
export function programBytes(prog) {
  const id = ++regN;
  registry.set(id, prog);
  return new Uint8Array(Buffer.concat([MARK, Buffer.from(String(id)), Buffer.from("\n" + "x".repeat(20))]));
}
export class MockModule {
  constructor(prog) { this.prog = prog; }
  instantiate(imports, p) { return new MockInstance(this.prog, imports, p); }
}
function compileModule(d) {
  if (d.length >= MARK.length && MARK.equals(Buffer.from(d.subarray(0, MARK.length)))) {
    const id = parseInt(Buffer.from(d.subarray(MARK.length)).toString().split("\n")[0], 10);
    const prog = registry.get(id);
    if (!prog || !Buffer.from(programTail(id)).equals(Buffer.from(d.subarray(MARK.length)))) throw new WebAssembly.CompileError("WebAssembly.compile(): damaged program");
    return new MockModule(prog);
  }
  return new WebAssembly.Module(d);
}
const programTail = (id) => String(id) + "\n" + "x".repeat(20);
export function fnv64(s) {
  let h = 0xcbf29ce484222325n;
  for (const c of Buffer.from(s, "latin1")) h = ((h ^ BigInt(c)) * 0x100000001b3n) & 0xffffffffffffffffn;
  return h;
}
class MockInstance {
  constructor(prog, imports, p) {
    const rt = imports?.runtime ?? {};
    const { n32, prime } = prog;
    const shared = new Int32Array(n32);
    const put = (v) => { for (let i = 0; i < n32; i++) { shared[i] = Number(v & 0xffffffffn) | 0; v >>= 32n; } };
    const take = () => { let v = 0n; for (let i = n32 - 1; i >= 0; i--) v = (v << 32n) | BigInt(shared[i] >>> 0); return v; };
    const sigs = new Map();
    for (const [name, s] of prog.inputs) {
      const h = fnv64(name);
      sigs.set(h, { ...s, name });
    }
    const find = (msb, lsb) => sigs.get((BigInt(msb >>> 0) << 32n) | BigInt(lsb >>> 0));
    let total = 0;
    for (const s of prog.inputs.values()) total += s.size;
    let vals, set, left, wit, msg = [], mpos = 0;
    const fresh = () => { vals = new Array(total).fill(0n); set = new Array(total).fill(false); left = total; wit = new Array(prog.witnessSize).fill(0n); wit[0] = 1n; };
    fresh();
    const message = (s) => { msg = [...Buffer.from(s, "latin1")]; mpos = 0; };
    const execute = () => {
      for (const l of prog.logs ?? []) {
        message(l); rt.writeBufferMessage?.();
        put(prime - 1n); rt.showSharedRWMemory?.();
        message("\n"); rt.writeBufferMessage?.();
      }
      const r = prog.run(vals);
      if (r.assert) {
        message(r.assert); rt.printErrorMessage?.();
        rt.exceptionHandler?.(4);
        throw new WebAssembly.RuntimeError("unreachable");
      }
      wit = r;
    };
    const i32 = (x) => x | 0;
    this.exports = {
      memory: { buffer: new ArrayBuffer(64) },
      getVersion: () => prog.version, getMinorVersion: () => 1, getPatchVersion: () => 9,
      getFieldNumLen32: () => n32,
      getSharedRWMemoryStart: () => 0,
      readSharedRWMemory: (i) => shared[i32(i)] ?? 0,
      writeSharedRWMemory: (i, v) => { shared[i32(i)] = i32(Number(v)); },
      getRawPrime: () => put(prime),
      getWitnessSize: () => prog.witnessSize,
      getInputSize: () => total,
      getInputSignalSize: (m, l) => find(i32(m), i32(l))?.size ?? -1,
      init: () => { fresh(); if (total === 0) execute(); },
      setInputSignal: (m, l, pos) => {
        if (p.hit("circuit_memory")) { rt.exceptionHandler?.(5); throw new WebAssembly.RuntimeError("unreachable"); }
        const s = find(i32(m), i32(l));
        if (!s) { rt.exceptionHandler?.(1); throw new WebAssembly.RuntimeError("unreachable"); }
        pos = i32(pos);
        if (pos < 0 || pos >= s.size) { rt.exceptionHandler?.(6); throw new WebAssembly.RuntimeError("unreachable"); }
        if (left === 0) { rt.exceptionHandler?.(2); throw new WebAssembly.RuntimeError("unreachable"); }
        const at = s.at + pos;
        if (set[at]) { rt.exceptionHandler?.(3); throw new WebAssembly.RuntimeError("unreachable"); }
        set[at] = true;
        vals[at] = take();
        if (--left === 0) execute();
      },
      getWitness: (i) => put(wit[i32(i)]),
      getMessageChar: () => (mpos < msg.length ? msg[mpos++] : 0),
    };
    this.mock = true;
  }
}
