// The simulated worlds and what is checked in each.
import fs from "node:fs";
import { Sched, Proc, ensure, Violation, programBytes, errText, hex, curCall } from "./sim.mjs";
import { Prng, Tape } from "./tape.mjs";
import * as G from "./gen.mjs";
import { crossComponents } from "./cross.mjs";
import { page } from "./page.mjs";
import { twins } from "./twins.mjs";
import { wasm32Components } from "./wasm32.mjs";

const te = new TextEncoder();
const td = new TextDecoder("utf-8", { fatal: true, ignoreBOM: true });
const SOFT = [0, 0, 20, 60];
const FAULTS = ["chunk_load", "entropy_fail", "import_key", "subtle_encrypt", "subtle_decrypt", "wasm_compile", "wasm_instantiate", "wasm_trap", "circuit_memory"];

function faultRates(t, kinds = FAULTS) {
  const on = t.chance(1, 2);
  const r = {};
  for (const k of kinds) r[k] = on ? t.pick([0, 0, 15, 60, 200]) : 0;
  return r;
}
function newProc(ctx, sched, kem, o = {}) {
  const t = ctx.tape;
  return new Proc(sched, {
    entropySeed: o.entropySeed ?? t.choose(0x7fffffff), kem, faults: o.faults ?? {}, frozenClock: o.frozenClock ?? false, flip: o.flip,
    initPlan: o.initPlan ?? (t.chance(1, 5) ? () => "sync" : () => "slow"), initDelay: o.initDelay ?? t.pick([0, 0, 5, 40]),
    preferJs: o.preferJs ?? (t.chance(1, 4) ? ["witness_calculator.js"] : []),
  });
}
/** A circuit with everything the library is given for it. */
function makeCircuit(ctx, kem, o = {}) {
  const t = ctx.tape;
  const c = G.genCircuit(t, { ...o, noOut: o.secret });
  const vals = o.secret ? secretVals(t, c) : G.genVals(t, c);
  if (!o.secret && t.chance(1, 2)) G.addAssert(t, c, vals);
  if (o.secret) { const k = t.choose(3); if (k === 1) G.addAssert(t, c, vals); }
  const r1cs = kem.register(c);
  const sym = G.symOf(t, c, { shuffle: t.chance(1, 3), crlf: t.chance(1, 8) });
  const prog = G.program(c, { logs: t.chance(1, 6) ? ["checking", "x ="] : [] });
  const wasm = programBytes(prog);
  return { c, vals, r1cs, sym, prog, wasm, files: { r1csBuffer: r1cs, symContent: sym }, dfiles: { r1csBuffer: r1cs, wasmBuffer: wasm } };
}
function secretVals(t, c) {
  const r = t.prngFrom();
  return Array.from({ length: c.nPub + c.nPrv }, () => {
    let v = 0n;
    for (let i = 0; i < 8; i++) v = (v << 32n) | BigInt(r.u32());
    return (v % (G.P >> 2n)) + (G.P >> 2n);
  });
}
/** Other values for the same circuit: same private part, one public input changed. */
const describe = (c) => `${c.nOut} outputs, ${c.nPub}+${c.nPrv} inputs, ${c.nWires} wires, ${c.cons.length} constraints`;

/** What the package must contain; returns its message. */
function checkPackage(kem, ct, want, cls) {
  let p;
  try { p = G.unpackPackage(ct); } catch (e) { throw new Violation(`${cls}_layout`, `the package does not have the documented layout: ${e.message}`); }
  ensure(p.flag === (want.embed ? 1 : 0), `${cls}_flag`, () => `flag byte ${p.flag}, embedding was ${want.embed ? "on" : "off"}`);
  const e = kem.entry(p.kemCt);
  ensure(e, `${cls}_kem_ct`, "the key ciphertext in the package is none the KEM made");
  const pubs = G.publicOf(want.c, want.vals);
  ensure(e.c.id === want.c.id && e.pubs.length === pubs.length && e.pubs.every((v, i) => v === pubs[i]), `${cls}_public`, () => `made for public inputs ${e.pubs.slice(0, 8)} instead of ${pubs.slice(0, 8)}`);
  ensure(G.eq(e.key, want.key), `${cls}_key`, "the returned key is not the key of the ciphertext");
  const m = G.unseal(e.key, p.sealed);
  ensure(m !== null, `${cls}_sealed`, "the message part does not open under the package's own key");
  ensure(G.eq(m, want.message), `${cls}_message`, () => `the package holds another message (${m.length} bytes ${hex(m.slice(0, 12))}, wanted ${want.message.length} bytes ${hex(want.message.slice(0, 12))})`);
  if (want.embed) {
    let j;
    try { j = JSON.parse(td.decode(p.json)); } catch (e) { throw new Violation(`${cls}_json`, `embedded public inputs are no JSON: ${e.message}`); }
    ensure(G.deepEq(j, JSON.parse(JSON.stringify(want.inputs))), `${cls}_json`, () => `embedded public inputs ${JSON.stringify(j).slice(0, 200)} instead of ${JSON.stringify(want.inputs).slice(0, 200)}`);
  }
  return p;
}

// ------------------------------------------------------------------ C13 (and the leak monitor of C07)
function peerPackage(ctx, kem, ci, vals, message, embed, inputs) {
  const t = ctx.tape, r = t.prngFrom();
  const e = kem.encap(ci.r1cs, G.wtnsBytes([1n, ...G.publicOf(ci.c, vals)]), { randomBytes: (b) => r.fill(b) });
  const sealed = G.seal(e.key, r.fill(new Uint8Array(12)), message);
  return { bytes: G.packPackage({ flag: embed, kemCt: e.ciphertext, json: te.encode(JSON.stringify(inputs)), sealed }), key: e.key, kemCt: e.ciphertext, sealed };
}
async function calls(ctx, mode) {
  const t = ctx.tape, secret = mode === "secrets";
  const kem = new G.StubKem(ctx), sched = new Sched(ctx);
  const rates = faultRates(t);
  const proc = newProc(ctx, sched, kem, { faults: rates });
  const lib = proc.load("index.ts");
  const circuits = Array.from({ length: 1 + t.choose(2) }, () => makeCircuit(ctx, kem, { secret }));
  const watched = []; // [object given to the library, what it has to look like]
  const watch = (name, obj) => { const w = { name, obj, copy: G.clone(obj) }; watched.push(w); return w; };
  for (const ci of circuits) { watch("r1csBuffer", ci.r1cs); watch("wasmBuffer", ci.wasm); watch("circuitFiles", ci.files); watch("circuitFiles", ci.dfiles); }
  sched.afterStep = () => { for (const w of watched) ensure(G.deepEq(w.obj, w.copy), "argument_modified", () => `the library changed its argument ${w.name}`); };
  // letters only: digits also occur in public values, by chance
  const secretMsg = () => { const r = t.prngFrom(); return te.encode("SECRET-" + hex(r.fill(new Uint8Array(8 + t.choose(20)))).replace(/\d/g, (d) => "ghijklmnop"[d])); };
  const message = () => (secret ? secretMsg() : G.viewOf(t, G.genMessage(t)));
  const secrets = []; // {what, bytes | decimal}
  const plans = [];
  const crowd = !secret && t.chance(1, 48); // many calls at once, most of them small
  const n = crowd ? 20 + t.choose(30) : 2 + t.choose(5);
  if (crowd) ctx.probe("crowd");
  const sharedInputs = circuits.map((ci) => G.inputsOf(t, ci.c, ci.vals, "public", { shuffle: true }));
  for (const s of sharedInputs) watch("publicInputs", s);
  for (let i = 0; i < n; i++) {
    const k = t.choose(circuits.length), ci = circuits[k];
    const kind = t.pick(["encrypt", "encrypt", "encrypt", "encap", "decap", "decrypt", "decrypt"]);
    let vals = ci.vals;
    if (t.chance(1, 2)) {
      vals = vals.slice();
      const j = t.choose(ci.c.nPub + ci.c.nPrv);
      if (!ci.c.asserts.some((a) => a.i === j)) vals[j] = secret ? secretVals(t, ci.c)[j] : G.genElem(t);
    }
    const delay = t.pick([0, 0, 0, 3, 30, 60]);
    const plan = { kind, ci, vals, i, ok: true };
    plans.push(plan);
    if (secret) for (let j = ci.c.nPub; j < vals.length; j++) secrets.push({ what: "a private input", dec: vals[j].toString() });
    if (kind === "encrypt" || kind === "encap") {
      const shared = vals === ci.vals && t.chance(1, 2);
      plan.inputs = shared ? sharedInputs[k] : G.inputsOf(t, ci.c, vals, "public", { shuffle: true, negative: t.chance(1, 4), above: t.chance(1, 6) });
      if (!shared && t.chance(1, 3)) G.addForeign(t, plan.inputs, i);
      plan.snap = G.clone(plan.inputs);
      const w = shared ? null : watch("publicInputs", plan.inputs);
      if (kind === "encap") plan.call = sched.call(`encap#${i}`, () => lib.encap(ci.files, plan.inputs), delay);
      else {
        plan.message = message();
        plan.embed = t.chance(2, 3);
        plan.msnap = Uint8Array.from(plan.message);
        const wm = watch("message", plan.message);
        const opt = plan.embed ? t.pick([undefined, {}, { includePublicInput: true }]) : { includePublicInput: false };
        if (opt) watch("options", opt);
        if (secret) secrets.push({ what: "the message", bytes: plan.msnap });
        const mutate = t.chance(1, 2);
        plan.call = sched.call(`encrypt#${i}`, () => {
          if (mutate) for (let m = 1 + t.choose(3); m > 0; m--) {
            sched.event(`caller changes arguments of encrypt#${i}`, () => {
              if (t.chance(1, 2) || shared) {
                if (plan.message.length) { plan.message[t.choose(plan.message.length)] ^= 1 + t.choose(255); wm.copy = Uint8Array.from(plan.message); }
                if (t.chance(1, 3)) { plan.message.fill(0); wm.copy = Uint8Array.from(plan.message); }
              } else {
                const ks = Object.keys(plan.inputs);
                const key = ks[t.choose(ks.length)];
                switch (t.choose(4)) {
                  case 0: delete plan.inputs[key]; break;
                  case 1: plan.inputs.added = "later"; break;
                  case 2: { const x = plan.inputs[key]; if (Array.isArray(x) && x.length) { let a = x; while (Array.isArray(a[0])) a = a[0]; if (a.length) a[0] = "4711"; } else plan.inputs[key] = "4711"; break; }
                  default: if (key !== undefined) plan.inputs[key] = 7;
                }
                w.copy = G.clone(plan.inputs);
              }
              ctx.probe("caller_changed_arguments");
            }, t.pick([0, 0, 2, 25]));
          }
          return opt === undefined ? lib.encrypt(ci.files, plan.inputs, plan.message) : lib.encrypt(ci.files, plan.inputs, plan.message, opt);
        }, delay);
      }
    } else {
      // a package by an independent peer; sometimes the caller is not entitled to it, or it is damaged
      plan.full = G.inputsOf(t, ci.c, vals, "full", { shuffle: true, negative: t.chance(1, 3) });
      plan.message = kind === "decrypt" ? Uint8Array.from(message()) : new Uint8Array(0);
      const pubIn = G.inputsOf(t, ci.c, vals, "public");
      const twin = plans.find((q) => q.peer && q.kind === kind && q.ci === ci && q.vals === vals);
      const again = twin && t.chance(1, 2); // the same package, opened by several calls
      if (again) plan.message = twin.message;
      const pk = again ? twin.peer : peerPackage(ctx, kem, ci, vals, plan.message, t.chance(1, 2), pubIn);
      plan.peer = pk;
      plan.bytes = kind === "decrypt" ? G.viewOf(t, pk.bytes) : G.viewOf(t, pk.kemCt);
      if (secret) { secrets.push({ what: "the key", bytes: pk.key }); if (kind === "decrypt") secrets.push({ what: "the message", bytes: plan.message }); }
      const bad = t.choose(8);
      if (bad === 0 && ci.c.asserts.length) {
        const v2 = vals.slice();
        v2[ci.c.asserts[0].i] = ci.c.asserts[0].v + 5n;
        plan.full = G.inputsOf(t, ci.c, v2, "full");
        plan.ok = G.assertOk(ci.c, v2);
      } else if (bad === 1) {
        const v2 = vals.slice();
        v2[t.choose(Math.max(1, ci.c.nPub))] += 1n;
        const same = G.publicOf(ci.c, v2).every((x, j) => x === G.publicOf(ci.c, vals)[j]);
        plan.full = G.inputsOf(t, ci.c, v2.map((x) => G.mod(x)), "full");
        plan.ok = same && G.assertOk(ci.c, v2.map((x) => G.mod(x)));
        if (same) plan.ok = undefined; // depends on the rest of the circuit
      } else if (bad === 2 && kind === "decrypt") {
        plan.bytes = Uint8Array.from(plan.bytes);
        plan.bytes[plan.bytes.length - 1 - t.choose(20)] ^= 1 << t.choose(8);
        plan.ok = false;
      } else if (bad === 3) {
        delete plan.full[Object.keys(plan.full)[0]];
        plan.ok = false;
      }
      watch("inputs", plan.full);
      watch("ciphertext", plan.bytes);
      plan.call = sched.call(`${kind}#${i}`, () => lib[kind](ci.dfiles, plan.bytes, plan.full), delay);
    }
  }
  // when a result arrives the caller may wipe it; whatever it does to its results must not matter to the others
  const settled = new Set();
  const check0 = sched.afterStep;
  sched.afterStep = () => {
    check0();
    for (const p of plans) {
      const c = p.call;
      if (!c.settled || settled.has(p)) continue;
      settled.add(p);
      if (!c.ok) continue;
      p.result = c.value instanceof Uint8Array ? Uint8Array.from(c.value) : { ciphertext: Uint8Array.from(c.value.ciphertext), key: Uint8Array.from(c.value.key) };
      p.wiped = t.chance(1, 4);
      if (p.wiped) { ctx.log(`caller wipes the result of ${c.name}`); if (c.value instanceof Uint8Array) c.value.fill(0); else { c.value.key.fill(0); c.value.ciphertext.fill(0xee); } }
    }
  };
  await sched.run();
  const inflight = plans.filter((p) => plans.some((q) => q !== p && q.call.startStep < p.call.endStep && p.call.startStep < q.call.endStep)).length;
  ctx.nontrivial = inflight >= 2;
  if (inflight >= 2) ctx.probe("overlapping_calls");
  if (proc.kemBeforeInit) throw new Violation("wasm_before_init", "a WASM function was called before initialisation had completed");
  for (const p of plans) {
    const c = p.call;
    ctx.evals++;
    ensure(c.settled, "never_settles", () => `${c.name} did not settle`);
    const faulty = c.faults.length > 0;
    if (faulty) ctx.probe("calls_with_fault");
    if (!c.ok) {
      ensure(p.ok !== true || faulty, "call_fails", () => `${c.name} (${describe(p.ci.c)}) fails although nothing of its own went wrong: ${errText(c.error)}`);
      ctx.probe("rejected");
      if (c.error instanceof Violation) throw c.error;
      continue;
    }
    ensure(p.ok !== false, "call_succeeds", () => `${c.name} succeeds although it must not`);
    ctx.probe("resolved");
    if (!p.wiped) ensure(c.value instanceof Uint8Array ? G.eq(c.value, p.result) : G.eq(c.value.key, p.result.key) && G.eq(c.value.ciphertext, p.result.ciphertext), "result_changed", () => `the result of ${c.name} changed after it had been returned`);
    if (p.kind === "encap") {
      const e = kem.entry(p.result.ciphertext);
      ensure(e && G.eq(e.key, p.result.key), "encap_key", () => `${c.name}: ciphertext and key do not belong together`);
      const pubs = G.publicOf(p.ci.c, p.vals);
      ensure(e.c.id === p.ci.c.id && e.pubs.every((v, j) => v === pubs[j]), "encap_public", () => `${c.name}: ciphertext is for other public inputs: ${e.pubs.slice(0, 6)} instead of ${pubs.slice(0, 6)}`);
      if (secret) secrets.push({ what: "the key", bytes: p.result.key });
    } else if (p.kind === "encrypt") {
      checkPackage(kem, p.result.ciphertext, { embed: p.embed, c: p.ci.c, vals: p.vals, key: p.result.key, message: p.msnap, inputs: p.snap }, "encrypt");
      if (secret) secrets.push({ what: "the key", bytes: p.result.key });
    } else if (p.kind === "decap") {
      ensure(p.result instanceof Uint8Array && G.eq(p.result, p.peer.key), "decap_key", () => `${c.name} returns another key`);
    } else ensure(p.result instanceof Uint8Array && G.eq(p.result, p.message), "decrypt_message", () => `${c.name} returns ${p.result.length} bytes ${hex(p.result.slice(0, 10))} instead of ${p.message.length} bytes ${hex(p.message.slice(0, 10))}`);
  }
  // everything the first phase produced opens again, concurrently, with the faults gone
  if (!secret) {
    for (const k of Object.keys(rates)) rates[k] = 0;
    const second = plans.filter((p) => p.kind === "encrypt" && p.call.ok);
    for (const p of second) {
      const full = G.inputsOf(t, p.ci.c, p.vals, "full");
      p.again = sched.call(`decrypt-of#${p.i}`, () => lib.decrypt(p.ci.dfiles, p.result.ciphertext, full));
    }
    await sched.run();
    for (const p of second) {
      ensure(p.again.ok, "reopen_fails", () => `a package made in this run does not open: ${errText(p.again.error)}`);
      ensure(G.eq(p.again.value, p.msnap), "reopen_message", "a package made in this run opens to another message");
    }
  }
  ctx.sample = `${plans.map((p) => p.call.name + (p.call.ok ? " ok" : " rejected") + (p.call.faults.length ? `[${p.call.faults}]` : "")).join(", ")}; ${ctx.steps} steps, ${inflight} overlapping`;
  if (secret) leaks(ctx, proc, plans, secrets);
}
/** C07: nothing secret in console output, error texts or packages. */
function leaks(ctx, proc, plans, secrets) {
  const texts = [["console output", proc.console.join("\n")]];
  const blobs = [];
  for (const p of plans) {
    if (!p.call.ok) {
      const e = p.call.error;
      let s = String(e) + "\n" + (e?.stack ?? "") + "\n" + (e?.message ?? "");
      try { s += JSON.stringify(e, (k, v) => (typeof v === "bigint" ? String(v) : v instanceof Uint8Array ? [...v] : v)); } catch {}
      if (e && typeof e === "object") for (const k of Object.getOwnPropertyNames(e)) { try { s += "\n" + k + "=" + (typeof e[k] === "string" ? e[k] : JSON.stringify(e[k], (kk, v) => (v instanceof Uint8Array ? [...v] : v))); } catch {} }
      for (let c = e?.cause; c; c = c.cause) s += "\n" + String(c) + (c.stack ?? "");
      texts.push([`error of ${p.call.name}`, s]);
    } else if (p.kind === "encrypt") {
      blobs.push([`package of ${p.call.name}`, p.result.ciphertext]);
      if (!p.embed) {
        const b = Buffer.from(p.result.ciphertext);
        ensure(!b.includes(Buffer.from(JSON.stringify(p.snap))) || Object.keys(p.snap).length === 0, "public_json_in_package", () => `${p.call.name}: embedding is off, yet the package carries the public-input JSON`);
        for (const v of Object.values(p.snap).flat(3)) if (typeof v === "string" && v.length >= 14) ensure(!b.includes(Buffer.from(v)), "public_value_in_package", () => `${p.call.name}: embedding is off, yet the package carries public input ${v}`);
      }
    } else if (p.kind === "encap") blobs.push([`ciphertext of ${p.call.name}`, p.result.ciphertext]);
  }
  const open = new Set(plans.flatMap((p) => G.publicOf(p.ci.c, p.vals).map(String)));
  secrets = secrets.filter((s) => !s.dec || !open.has(s.dec)); // an output may well repeat an input
  ctx.evals += secrets.length;
  // all pieces of a text of one length, made once
  const cache = new Map();
  const grams = (key, text, n) => {
    const k = key + n;
    if (!cache.has(k)) { const g = new Set(); for (let i = 0; i + n <= text.length; i++) g.add(text.slice(i, i + n)); cache.set(k, g); }
    return cache.get(k);
  };
  const has = (key, text, f) => grams(key, text, f.length).has(f);
  const lows = texts.map(([, x]) => x.toLowerCase()), flats = texts.map(([, x]) => x.replace(/,\s+/g, ","));
  const hays = blobs.map(([, b]) => Buffer.from(b).toString("latin1"));
  for (const s of secrets) {
    // a piece of the secret is a leak too: 6 bytes of it in hex, 8 as they are, 12 digits of a number
    const hexes = new Set(), raws = new Set(), lists = new Set(), decs = new Set();
    if (s.bytes && s.bytes.length >= 8) {
      const b = Buffer.from(s.bytes);
      for (let i = 0; i + 6 <= b.length; i++) hexes.add(b.subarray(i, i + 6).toString("hex"));
      for (let i = 0; i + 8 <= b.length; i++) { raws.add(b.subarray(i, i + 8).toString("latin1")); lists.add([...b.subarray(i, i + 8)].join(",")); }
      for (let o = 0; o < 3; o++) { const x = b.subarray(o).toString("base64").replace(/=+$/, "").slice(0, -2); for (let i = 0; i + 12 <= x.length; i += 4) raws.add(x.slice(i, i + 12)); }
      const rev = Buffer.from(b).reverse();
      for (let i = 0; i + 6 <= b.length; i++) hexes.add(rev.subarray(i, i + 6).toString("hex"));
    } else if (s.dec) {
      const h = BigInt(s.dec).toString(16), n = (G.P - BigInt(s.dec)).toString();
      for (let i = 0; i + 12 <= h.length; i++) hexes.add(h.slice(i, i + 12));
      for (const d of [s.dec, n]) for (let i = 0; i + 14 <= d.length; i++) decs.add(d.slice(i, i + 14));
    }
    for (const [ti, [where, text]] of texts.entries()) {
      const flat = flats[ti];
      const hit = (x) => { throw new Violation(`leak_${where.split(" ")[0]}`, `${s.what} (or a part of it: ${x.slice(0, 40)}) appears in the ${where}`); };
      for (const f of hexes) if (has("l" + ti + "_", lows[ti], f)) hit(f);
      for (const f of raws) if (has("t" + ti + "_", text, f)) hit(f);
      for (const f of lists) if (flat.includes(f)) hit(f);
      for (const f of decs) if (has("t" + ti + "_", text, f)) hit(f);
    }
    for (const [bi, [where, b]] of blobs.entries()) {
      const hay = hays[bi];
      const hit = () => { throw new Violation("leak_package", `${s.what} (or a part of it) appears in the ${where}`); };
      for (const f of hexes) if (has("b" + bi + "_", hay, f)) hit();
      for (const f of raws) if (has("b" + bi + "_", hay, f)) hit();
      for (const f of decs) if (has("b" + bi + "_", hay, f)) hit();
      if (s.dec) { const e = Buffer.from(G.le(BigInt(s.dec), 32)).toString("latin1"); for (let i = 0; i + 8 <= 32; i++) if (has("b" + bi + "_", hay, e.slice(i, i + 8))) hit(); }
    }
  }
}

// ------------------------------------------------------------------ C14
async function init(ctx) {
  const t = ctx.tape;
  const kem = new G.StubKem(ctx), sched = new Sched(ctx);
  const fails = t.pick([0, 0, 1, 1, 1, 2, 3]);
  const how = Array.from({ length: fails }, () => t.pick(["fails", "fails", "throws"]));
  const ok = t.chance(1, 6) ? "sync" : "slow";
  const proc = newProc(ctx, sched, kem, { initPlan: (n) => how[n - 1] ?? ok, initDelay: t.pick([0, 10, 10, 60]) });
  // the step in which each initialisation ended badly
  const lib = proc.load("index.ts");
  const ci = makeCircuit(ctx, kem);
  const failSteps = [];
  const plans = [];
  const n = 2 + t.choose(7);
  const span = t.pick([0, 30, 120, 400]);
  for (let i = 0; i < n; i++) {
    const kind = t.pick(["encap", "encrypt", "decap", "decrypt"]);
    const delay = span ? t.choose(span) : 0;
    const pubIn = G.inputsOf(t, ci.c, ci.vals, "public"), full = G.inputsOf(t, ci.c, ci.vals, "full");
    const p = { kind };
    if (kind === "encap") p.call = sched.call(`encap#${i}`, () => lib.encap(ci.files, pubIn), delay);
    else if (kind === "encrypt") p.call = sched.call(`encrypt#${i}`, () => lib.encrypt(ci.files, pubIn, te.encode("m" + i)), delay);
    else {
      p.msg = te.encode("m" + i);
      p.peer = peerPackage(ctx, kem, ci, ci.vals, p.msg, true, pubIn);
      p.call = kind === "decap" ? sched.call(`decap#${i}`, () => lib.decap(ci.dfiles, p.peer.kemCt, full), delay) : sched.call(`decrypt#${i}`, () => lib.decrypt(ci.dfiles, p.peer.bytes, full), delay);
    }
    plans.push(p);
  }
  let seenFails = 0;
  sched.afterStep = () => {
    while (seenFails < proc.inits.failed) { seenFails++; failSteps.push(ctx.steps); }
    ensure(proc.inits.max <= 1, "concurrent_init", "two initialisations were running at once");
    ensure(proc.inits.afterDone === 0, "init_again", "initialisation was started again after it had succeeded");
    ensure(proc.kemBeforeInit === 0, "wasm_before_init", "a WASM function was called before initialisation had completed");
  };
  const judge = () => {
    for (const p of plans) {
      const c = p.call;
      if (p.judged) continue;
      p.judged = true;
      ctx.evals++;
      const hit = failSteps.some((s) => s >= c.startStep && s <= c.endStep);
      if (!c.ok) {
        if (c.error instanceof Violation) throw c.error;
        ensure(hit, "fails_after_recovery", () => `${c.name} started after the last failed initialisation and still fails: ${errText(c.error)}`);
        ctx.probe("failed_with_init");
      } else {
        ctx.probe("succeeded");
        if (p.kind === "decap") ensure(G.eq(c.value, p.peer.key), "decap_key", "wrong key");
        if (p.kind === "decrypt") ensure(G.eq(c.value, p.msg), "decrypt_message", "wrong message");
        if (p.kind === "encap" || p.kind === "encrypt") ensure(c.value.key.length === 32, "encap_key", "no key");
      }
    }
  };
  await sched.run();
  judge();
  // once the cause is gone a later call succeeds; each failing attempt uses up one planned failure
  for (let extra = 0; extra <= fails + 1; extra++) {
    const pubIn = G.inputsOf(t, ci.c, ci.vals, "public");
    const p = { kind: "encap", call: sched.call(`late encap#${extra}`, () => lib.encap(ci.files, pubIn)) };
    plans.push(p);
    await sched.run();
    judge();
    if (extra === fails + 1) ensure(p.call.ok, "no_recovery", () => `still failing after every planned failure is used up: ${errText(p.call.error)}`);
  }
  ensure(proc.inits.done === 1, "init_count", () => `initialisation succeeded ${proc.inits.done} times`);
  ctx.nontrivial = fails > 0 || n > 2;
  ctx.sample = `initialisations ${[...how, ok].join("/")}; ${plans.map((p) => p.call.name + (p.call.ok ? " ok" : " rejected")).join(", ")}`;
}

// ------------------------------------------------------------------ C15
async function embedded(ctx) {
  const t = ctx.tape;
  const kem = new G.StubKem(ctx), sched = new Sched(ctx);
  const proc = newProc(ctx, sched, kem);
  const lib = proc.load("index.ts");
  const ci = makeCircuit(ctx, kem);
  const inputs = G.inputsOf(t, ci.c, ci.vals, "public", { negative: t.chance(1, 3), above: t.chance(1, 6) });
  for (let i = t.choose(4); i > 0; i--) G.addForeign(t, inputs, i);
  // names that mean something to a JavaScript object are names like any other
  const special = t.pick(["__proto__", "constructor", "toString", "hasOwnProperty", "length"]);
  if (t.chance(1, 4) && !Object.hasOwn(inputs, special) && !ci.c.groups.some((g) => g.name === special)) Object.defineProperty(inputs, special, { value: G.genJson(t), enumerable: true, configurable: true, writable: true });
  const jsonWant = JSON.parse(JSON.stringify(inputs));
  const message = G.genMessage(t);
  const embed = t.chance(5, 6);
  let bytes;
  const by = t.choose(3);
  if (by < 2) {
    const call = sched.call("encrypt", () => lib.encrypt(ci.files, inputs, message, { includePublicInput: embed }));
    await sched.run();
    ensure(call.ok, "encrypt_fails", () => `encrypt fails: ${errText(call.error)}`);
    bytes = Uint8Array.from(call.value.ciphertext);
  } else {
    // as the CLI does: the text of the input file, spacing and all
    const r = t.prngFrom();
    const e = kem.encap(ci.r1cs, G.wtnsBytes([1n, ...G.publicOf(ci.c, ci.vals)]), { randomBytes: (b) => r.fill(b) });
    const text = JSON.stringify(inputs, null, t.pick([0, 1, 2, "\t"])) + t.pick(["", "\n", " \r\n"]);
    bytes = G.packPackage({ flag: embed, kemCt: e.ciphertext, json: te.encode(text), sealed: G.seal(e.key, r.fill(new Uint8Array(12)), message) });
  }
  const read = (b, what) => {
    const v = G.viewOf(t, b), copy = Uint8Array.from(v);
    let r, err = null;
    try { r = lib.getPublicInput(v); } catch (e) { err = e; }
    ensure(G.eq(v, copy), "package_modified", `getPublicInput changed the package (${what})`);
    ctx.log(`${what}: ${err ? "error" : "value"}`);
    ctx.evals++;
    return { r, err };
  };
  ctx.nontrivial = embed;
  for (let k = 0; k < 2; k++) {
    const { r, err } = read(bytes, "whole package");
    if (!embed) { ensure(err, "value_without_embedding", () => `a package without embedded inputs yields ${JSON.stringify(r)?.slice(0, 100)}`); continue; }
    ensure(!err, "intact_fails", () => `reading the public inputs of an intact package fails: ${errText(err)}`);
    ensure(G.deepEq(r, jsonWant), "other_value", () => `public inputs read back as ${JSON.stringify(r)?.slice(0, 200)}, were ${JSON.stringify(jsonWant).slice(0, 200)}`);
    // what the caller does with the value must not show in the next reading
    if (r && typeof r === "object") { r.memo0 = "changed"; for (const kk of Object.keys(r)) if (Array.isArray(r[kk])) r[kk].length = 0; }
  }
  const u = G.unpackPackage(bytes);
  const end = u.jsonEnd ?? bytes.length;
  // cut short by a torn write or a partial download
  const cuts = new Set(end <= 400 ? Array.from({ length: end }, (_, i) => i) : [0, 1, 4, 5, 6, 8, 9, 5 + u.kemCt.length, 5 + u.kemCt.length + 3, 5 + u.kemCt.length + 4, 5 + u.kemCt.length + 5, end - 1, end - 2, end - 3]);
  for (let i = 0; i < 20; i++) cuts.add(t.choose(end));
  for (const cut of cuts) {
    ctx.fault("truncated");
    const { r, err } = read(bytes.subarray(0, cut), `cut at ${cut} of ${bytes.length}`);
    ensure(err, "value_from_truncated", () => `a package of ${bytes.length} bytes cut to ${cut} (embedded inputs end at ${end}) yields ${JSON.stringify(r)?.slice(0, 100)}`);
  }
  if (embed) for (let i = 0; i < 4; i++) {
    const cut = end + t.choose(bytes.length - end + 1);
    const { r, err } = read(bytes.subarray(0, cut), `cut at ${cut}`);
    if (!err) ensure(G.deepEq(r, jsonWant), "other_value", "public inputs of a package cut after them are read differently");
  }
  // sectors that were never written read as zeros
  for (let i = 0; i < 6; i++) {
    const s = t.pick([4, 8, 16, 64, 512]);
    const at = Math.floor(t.choose(end) / s) * s;
    const b = Uint8Array.from(bytes);
    b.fill(0, at, at + s);
    if (G.eq(b, bytes)) continue;
    ctx.fault("lost_sector");
    const { r, err } = read(b, `sector ${at}+${s} lost`);
    if (!err) ensure(embed && G.deepEq(r, jsonWant), "value_from_damaged", () => `with sector ${at}+${s} lost: ${JSON.stringify(r)?.slice(0, 100)}`);
  }
  ctx.sample = `${embed ? "embedded" : "not embedded"} ${JSON.stringify(inputs).slice(0, 120)}; ${cuts.size} truncations of ${bytes.length} bytes`;
}

// ------------------------------------------------------------------ C16
const PRIMES = [G.P, G.P, G.P, 18446744069414584321n, 52435875175126190479447740508185965837690552500527637822603658699938581184513n, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaabn];
async function witness(ctx) {
  const t = ctx.tape;
  const sched = new Sched(ctx);
  const kem = new G.StubKem(ctx);
  const rates = faultRates(t, ["wasm_compile", "wasm_instantiate", "circuit_memory"]);
  const proc = newProc(ctx, sched, kem, { faults: rates });
  const W = proc.load("witness.ts");
  const cis = Array.from({ length: 1 + t.choose(3) }, () => {
    const c = G.genCircuit(t, { prime: t.pick(PRIMES) });
    const vals = G.genVals(t, c);
    if (t.chance(1, 2)) G.addAssert(t, c, vals);
    const version = t.pick([1, 2, 2]);
    const prog = G.program(c, { version, logs: t.chance(1, 5) ? ["value is", "x"] : [] });
    return { c, vals, prog, wasm: programBytes(prog) };
  });
  const plans = [];
  for (let i = 0, n = 1 + t.choose(6); i < n; i++) {
    const ci = t.pick(cis), c = ci.c;
    const kind = t.pick(["calculateWitness", "calculateWitness", "calculateWitnessArray", "calculateWitnessArray", "getCircuitInfo"]);
    let vals = ci.vals.map((v, j) => (t.chance(1, 2) || c.asserts.some((a) => a.i === j) ? v : G.genElem(t, c.p)));
    const p = { kind, ci, vals, ok: true, why: "" };
    const inputs = G.inputsOf(t, c, vals, "full", { bigint: true, negative: t.chance(1, 2), above: t.chance(1, 4) });
    // the program takes arrays flattened in document order, in whatever nesting they come
    if (t.chance(1, 4)) for (const k of Object.keys(inputs)) if (Array.isArray(inputs[k]) && t.chance(1, 2)) inputs[k] = inputs[k].flat(9);
    if (kind !== "getCircuitInfo") switch (t.choose(12)) {
      case 0: { const k = t.pick(Object.keys(inputs)); delete inputs[k]; p.ok = false; p.why = `input ${k} missing`; break; }
      case 1: { inputs["zz_unknown"] = 5; p.ok = false; p.why = "unknown input"; break; }
      case 2: { const k = t.pick(Object.keys(inputs)); inputs[k] = [...[inputs[k]].flat(9), 3]; p.ok = false; p.why = `one value too many for ${k}`; break; }
      case 3: { const k = t.pick(Object.keys(inputs)); inputs[k] = [inputs[k]].flat(9).slice(1); p.ok = false; p.why = `one value too few for ${k}`; break; }
      case 4: if (c.asserts.length) { const a = c.asserts[0], g = c.groups.filter((x) => x.kind !== "out"); let at = 0; for (const x of g) { if (a.i >= at && a.i < at + x.size) { const f = [inputs[x.name]].flat(9); f[a.i - at] = G.mod(a.v + 1n, c.p) === 0n ? 1n : (a.v + 1n).toString(); const bad = G.leafValue(f[a.i - at], c.p); p.ok = bad === 0n || bad === a.v; inputs[x.name] = x.dims.length ? f : f[0]; p.why = "assertion violated"; } at += x.size; } } break;
      case 5: { const two = Object.keys(inputs); if (two.length > 1) { const f = [inputs[two[0]]].flat(9), g2 = [inputs[two[1]]].flat(9); g2.push(f.pop()); inputs[two[0]] = f; inputs[two[1]] = g2; p.ok = false; p.why = "one value moved to another input"; } break; }
      case 6: {
        const k = t.pick(Object.keys(inputs));
        if (Array.isArray(inputs[k])) inputs[k] = G.clone(inputs[k]);
        let o = inputs, j = k;
        while (Array.isArray(o[j])) { o = o[j]; j = t.choose(o.length); }
        o[j] = t.pick([1.5, -0.25, 1e-7, null, undefined, "abc", "1.5", "12abc", {}, NaN, Infinity]);
        p.ok = false; p.why = `a value of ${k} is ${String(o[j])}`;
        break;
      }
      default:
    }
    const given = G.clone(inputs);
    ctx.log(JSON.stringify(inputs, (k, v) => (typeof v === "bigint" ? v.toString() : v)));
    p.inputs = inputs; p.given = given;
    p.call = sched.call(`${kind}#${i}`, () => W[kind](kind === "getCircuitInfo" ? ci.wasm : t.chance(1, 3) ? ci.wasm.slice().buffer : ci.wasm, inputs), t.pick([0, 0, 0, 5]));
    plans.push(p);
  }
  await sched.run();
  ctx.nontrivial = plans.length > 1 || plans.some((p) => !p.ok);
  for (const p of plans) {
    const c = p.call, cc = p.ci.c;
    ctx.evals++;
    ensure(G.deepEq(p.inputs, p.given), "argument_modified", () => `${c.name} changed its inputs`);
    if (!c.ok) {
      if (c.error instanceof Violation) throw c.error;
      ensure(!p.ok || c.faults.length, "witness_fails", () => `${c.name} fails for complete inputs: ${errText(c.error)}`);
      ctx.probe(c.faults.length ? "failed_with_fault" : "refused");
      if (!c.faults.length && p.again !== false) {
        const s2 = new Sched(ctx), p2 = new Proc(s2, { ...proc.opts, faults: {} });
        const c2 = s2.call(`${c.name} alone`, () => p2.load("witness.ts")[p.kind](p.ci.wasm, p.given));
        await s2.run();
        ensure(!c2.ok && errText(c2.error) === errText(c.error), "error_of_another_call", () => `${c.name} fails with "${errText(c.error)}", alone ${c2.ok ? "it succeeds" : `with "${errText(c2.error)}"`}`);
      }
      continue;
    }
    ensure(p.ok, "witness_for_bad_inputs", () => `${c.name} yields a witness although: ${p.why}`);
    ensure(!c.faults.includes("wasm_compile") && !c.faults.includes("wasm_instantiate") && !c.faults.includes("circuit_memory"), "witness_despite_fault", () => `${c.name} yields a result although ${c.faults}`);
    const want = G.witnessOf(cc, p.vals);
    ctx.probe("calculated");
    if (p.kind === "getCircuitInfo") {
      ensure(c.value.n32 === p.ci.prog.n32 && c.value.prime === cc.p && c.value.witnessSize === cc.nWires && c.value.version === p.ci.prog.version, "circuit_info", () => `circuit information ${JSON.stringify(c.value, (k, v) => (typeof v === "bigint" ? v.toString() : v))}`);
    } else if (p.kind === "calculateWitnessArray") {
      ensure(Array.isArray(c.value) && c.value.length === want.length && c.value.every((v, i) => v === want[i]), "wrong_witness", () => { const i = want.findIndex((v, j) => v !== c.value?.[j]); return `wire ${i} is ${c.value?.[i]}, the circuit computes ${want[i]} (inputs ${JSON.stringify(p.given, (k, v) => (typeof v === "bigint" ? v.toString() : v)).slice(0, 200)})`; });
    } else {
      const bytes = c.value;
      ensure(bytes instanceof Uint8Array, "wtns_type", "the witness is no Uint8Array");
      ensure(G.eq(bytes, G.wtnsBytes(want, cc.p)), "wrong_wtns", () => {
        let x;
        try { x = G.parseWtns(bytes); } catch (e) { return `.wtns bytes are malformed: ${e.message}`; }
        const i = want.findIndex((v, j) => v !== x.values[j]);
        return i < 0 ? `.wtns bytes: right values, other bytes (prime ${x.prime}, ${x.values.length} values of ${x.n8} bytes)` : `.wtns bytes: wire ${i} is ${x.values[i]}, the circuit computes ${want[i]}`;
      });
    }
  }
  ctx.sample = plans.map((p) => `${p.call.name} ${p.ci.c.nWires} wires ${p.call.ok ? "ok" : "rejected"}${p.why ? ` (${p.why})` : ""}${p.call.faults.length ? `[${p.call.faults}]` : ""}`).join(", ");
}
// the repository's own circuit programs, run for real
const FIX = "/repo/packages/zkenc-cli/tests";
let real = null;
function fixtures() {
  if (real) return real;
  real = [];
  for (const [c, inp] of [["sudoku", "sudoku_basic"], ["sudoku", "sudoku_general"]]) {
    try {
      const wasm = fs.readFileSync(`${FIX}/r1cs/${c}.wasm`), inputs = JSON.parse(fs.readFileSync(`${FIX}/inputs/${inp}.json`, "utf8")), wtns = fs.readFileSync(`${FIX}/inputs/${c}_${inp}.wtns`);
      real.push({ name: inp, wasm: Uint8Array.from(wasm), inputs, wtns: G.parseWtns(Uint8Array.from(wtns)) });
    } catch { /* fixtures gone: the mock programs remain */ }
  }
  return real;
}
async function realWitness(ctx) {
  const t = ctx.tape;
  const fx = fixtures();
  const sched = new Sched(ctx);
  const proc = newProc(ctx, sched, new G.StubKem(ctx), { faults: t.chance(1, 3) ? { wasm_compile: 60, wasm_instantiate: 60 } : {} });
  const W = proc.load("witness.ts");
  const plans = [];
  if (!fx.length) return;
  for (let i = 0, n = 1 + t.choose(4); i < n; i++) {
    const f = t.pick(fx);
    const inputs = G.clone(f.inputs);
    const kind = t.pick(["calculateWitness", "calculateWitnessArray"]);
    let ok = true;
    const ks = Object.keys(inputs);
    switch (t.choose(7)) {
      case 0: delete inputs[t.pick(ks)]; ok = false; break;
      case 1: inputs.other = 1; ok = false; break;
      case 2: { const k = t.pick(ks); inputs[k] = inputs[k].slice(1); ok = false; break; }
      case 3: { // swap two different cells of the solution: the circuit's assertions fail
        const k = ks.find((x) => x === "solution") ?? ks[ks.length - 1];
        const a = inputs[k];
        const flat = a.flat(9);
        if (flat[0] !== flat[1]) { const A = a.flat(9); [A[0], A[1]] = [A[1], A[0]]; inputs[k] = A; ok = false; }
        break;
      }
      case 4: for (const k of ks) inputs[k] = inputs[k].flat(9).map((v) => (t.chance(1, 2) ? String(v) : v)); break;
      default: t.chance(1, 2);
    }
    plans.push({ f, ok, kind, call: sched.call(`${kind}(${f.name})#${i}`, () => W[kind](f.wasm, inputs)) });
  }
  await sched.run();
  ctx.nontrivial = true;
  for (const p of plans) {
    ctx.evals++;
    const c = p.call;
    if (!c.ok) { ensure(!p.ok || c.faults.length, "witness_fails", () => `${c.name} fails: ${errText(c.error)}`); continue; }
    ensure(p.ok, "witness_for_bad_inputs", () => `${c.name} yields a witness for unusable inputs`);
    const v = p.kind === "calculateWitness" ? G.parseWtns(c.value).values : c.value;
    ensure(v.length === p.f.wtns.values.length && v.every((x, i) => x === p.f.wtns.values[i]), "wrong_witness", () => `${c.name} differs from the reference witness`);
  }
  ctx.sample = plans.map((p) => `${p.call.name} ${p.call.ok ? "ok" : "rejected"}`).join(", ");
}

// ------------------------------------------------------------------ C03
export function damage(ctx, b, other) {
  const t = ctx.tape;
  let r = Uint8Array.from(b);
  const ops = [];
  for (let k = 1 + t.choose(2); k > 0; k--) {
    const at = r.length ? t.choose(r.length) : 0;
    switch (t.choose(9)) {
      case 0: if (r.length) { r[at] ^= 1 << t.choose(8); ops.push(`bit flip at ${at}`); ctx.fault("bit_flip"); } break;
      case 1: r = r.slice(0, at); ops.push(`cut to ${at}`); ctx.fault("truncated"); break;
      case 2: { const n = 1 + t.choose(40); r = G.cat(r, t.prngFrom().fill(new Uint8Array(n))); ops.push(`${n} bytes appended`); ctx.fault("trailing_bytes"); break; }
      case 3: { const s = t.pick([16, 64, 512]); const a = Math.floor(at / s) * s; r.fill(0, a, a + s); ops.push(`sector ${a}+${s} zeroed`); ctx.fault("lost_sector"); break; }
      case 4: { const n = 1 + t.choose(20); r = G.cat(r.slice(0, at), r.slice(at + n)); ops.push(`${n} bytes lost at ${at}`); ctx.fault("bytes_lost"); break; }
      case 5: { const m = other.length ? t.choose(other.length) : 0; r = G.cat(r.slice(0, at), other.slice(m)); ops.push(`spliced: ${at} bytes, then the other from ${m}`); ctx.fault("splice"); break; }
      case 6: { const n = Math.min(r.length, 1 + t.choose(30)); r = G.cat(r.slice(0, at), r.slice(Math.max(0, at - n), at), r.slice(at)); ops.push(`${n} bytes doubled`); ctx.fault("duplicated_bytes"); break; }
      case 7: if (r.length > 5) { const i = t.choose(5); r[i] = t.pick([0, 1, 2, 255, 0x7f, 0x80]); ops.push(`byte ${i} overwritten`); ctx.fault("header_overwritten"); } break;
      default: { const n = t.choose(40); r = r.slice(0, Math.max(0, r.length - n)); ops.push(`last ${n} bytes lost`); ctx.fault("truncated"); }
    }
  }
  return { r, ops: ops.join(", ") };
}
async function damaged(ctx) {
  const t = ctx.tape;
  const kem = new G.StubKem(ctx), sched = new Sched(ctx);
  const proc = newProc(ctx, sched, kem, { faults: faultRates(t, ["subtle_decrypt", "import_key", "chunk_load", "wasm_trap"]) });
  const lib = proc.load("index.ts"), aes = proc.load("crypto.ts");
  const ci = makeCircuit(ctx, kem);
  const pubIn = G.inputsOf(t, ci.c, ci.vals, "public");
  const full = G.inputsOf(t, ci.c, ci.vals, "full");
  const mk = (name) => {
    const message = G.genMessage(t), embed = t.chance(1, 2);
    return { name, message, embed, pk: peerPackage(ctx, kem, ci, ci.vals, message, embed, pubIn) };
  };
  const A = mk("A"), B = mk("B");
  const key = t.prngFrom().fill(new Uint8Array(32));
  const sealedA = G.seal(key, t.prngFrom().fill(new Uint8Array(12)), A.message), sealedB = G.seal(key, t.prngFrom().fill(new Uint8Array(12)), B.message);
  const plans = [];
  for (let i = 0, n = 2 + t.choose(8); i < n; i++) {
    const helper = t.chance(1, 3);
    const src = helper ? sealedA : A.pk.bytes, oth = helper ? sealedB : B.pk.bytes;
    const { r, ops } = t.chance(1, 12) ? { r: Uint8Array.from(src), ops: "intact" } : damage(ctx, src, oth);
    const v = G.viewOf(t, r);
    const call = sched.call(`${helper ? "aesGcmDecrypt" : "decrypt"}#${i}`, () => (helper ? aes.aesGcmDecrypt(key, v) : lib.decrypt(ci.dfiles, v, full)), t.pick([0, 0, 9]));
    plans.push({ helper, r, ops, call });
  }
  await sched.run();
  ctx.nontrivial = true;
  for (const p of plans) {
    ctx.evals++;
    const c = p.call;
    const same = (m) => c.value instanceof Uint8Array && G.eq(c.value, m);
    if (!c.ok) {
      if (c.error instanceof Violation) throw c.error;
      if (p.ops === "intact") ensure(c.faults.length, "intact_fails", () => `${c.name}: an undamaged package does not open: ${errText(c.error)}`);
      ctx.probe("refused");
      continue;
    }
    const ends = (s) => p.r.length >= s.length && G.eq(p.r.subarray(p.r.length - s.length), s);
    const okA = same(A.message) && ends(p.helper ? sealedA : A.pk.sealed), okB = same(B.message) && ends(p.helper ? sealedB : B.pk.sealed);
    ensure(okA || okB, p.helper ? "aes_damage_accepted" : "damage_accepted", () => `${c.name} of a damaged package (${p.ops}) returns ${c.value?.length} bytes ${hex(Buffer.from(c.value ?? []).subarray(0, 12))}; the message was ${A.message.length} bytes ${hex(A.message.slice(0, 12))}`);
    ctx.probe("opened");
  }
  ctx.sample = plans.map((p) => `${p.ops}: ${p.call.ok ? "message" : "refused"}`).slice(0, 5).join("; ");
}

// ------------------------------------------------------------------ C05
function nonceOf(pkg) { return G.unpackPackage(pkg).sealed.slice(0, 12); }
async function fresh(ctx) {
  const t = ctx.tape;
  const sched = new Sched(ctx);
  const kem = new G.StubKem(ctx);
  const procs = Array.from({ length: 1 + t.choose(3) }, (_, i) => newProc(ctx, sched, kem, { frozenClock: true, entropySeed: t.choose(0x7fffffff) * 8 + i }));
  const ci = makeCircuit(ctx, kem);
  const pubIn = G.inputsOf(t, ci.c, ci.vals, "public");
  const key = t.prngFrom().fill(new Uint8Array(32));
  const msg = te.encode("the same message");
  const plans = [];
  // now and then a process that encrypts for a long time
  const long = t.chance(1, 50);
  const many = long ? 500 + t.choose(600) : t.chance(1, 6) ? 40 : 2 + t.choose(6);
  for (let i = 0; i < many; i++) {
    const p = long ? procs[0] : t.pick(procs);
    if (long ? i % 16 : t.chance(1, 2)) { const aes = p.load("crypto.ts"); plans.push({ aes: true, call: sched.call(`aes#${i}`, () => aes.aesGcmEncrypt(key, msg), t.pick([0, 0, 3, 50])) }); }
    else { const lib = p.load("index.ts"); plans.push({ call: sched.call(`encrypt#${i}`, () => lib.encrypt(ci.files, pubIn, msg), t.pick([0, 0, 3, 50])) }); }
  }
  await sched.run();
  const seen = new Map();
  for (const p of plans) {
    ctx.evals++;
    ensure(p.call.ok, "encrypt_fails", () => `${p.call.name} fails: ${errText(p.call.error)}`);
    const n = p.aes ? p.call.value.slice(0, 12) : nonceOf(p.call.value.ciphertext);
    ensure(!seen.has(hex(n)), "nonce_reused", () => `${p.call.name} and ${seen.get(hex(n))} use the same nonce ${hex(n)}`);
    seen.set(hex(n), p.call.name);
    if (!long) ctx.collected.push(n);
  }
  if (long) ctx.probe("long_process");
  ctx.nontrivial = plans.length > 2;
  ctx.sample = `${plans.length} encryptions in ${procs.length} processes`;
}
function freshBatch(all) {
  const seen = new Set();
  for (const n of all) { ensure(!seen.has(hex(n)), "nonce_reused", () => `nonce ${hex(n)} was used twice across runs`); seen.add(hex(n)); }
  if (all.length < 200) return;
  for (let i = 0; i < 12; i++) {
    const d = new Set(all.map((n) => n[i]));
    ensure(d.size >= 40, "nonce_not_random", () => `byte ${i} of the nonce took only ${d.size} values in ${all.length} encryptions`);
    const x = new Set(all.slice(1).map((n, j) => n[i] ^ all[j][i]));
    ensure(x.size >= 40, "nonce_not_random", () => `byte ${i} of consecutive nonces differs in only ${x.size} ways`);
  }
}
async function entropy(ctx) {
  const t = ctx.tape;
  const sched = new Sched(ctx);
  const kem = new G.StubKem(ctx);
  const ci = makeCircuit(ctx, kem);
  const pubIn = G.inputsOf(t, ci.c, ci.vals, "public");
  const key = t.prngFrom().fill(new Uint8Array(32));
  const msg = G.genMessage(t);
  const seed = t.choose(0x7fffffff);
  const way = t.choose(3);
  ctx.nontrivial = true;
  if (way === 0) {
    // the random source fails, always or now and then
    const rate = t.pick([1024, 1024, 400]);
    const proc = newProc(ctx, sched, kem, { faults: { entropy_fail: rate }, entropySeed: seed });
    const lib = proc.load("index.ts"), aes = proc.load("crypto.ts");
    const plans = [];
    for (let i = 0, n = 1 + t.choose(4); i < n; i++) plans.push(t.chance(1, 2) ? sched.call(`aes#${i}`, () => aes.aesGcmEncrypt(key, msg)) : sched.call(`encrypt#${i}`, () => lib.encrypt(ci.files, pubIn, msg)));
    await sched.run();
    for (const c of plans) {
      ctx.evals++;
      if (c.faults.includes("entropy_fail")) ensure(!c.ok, "encrypts_without_entropy", () => `${c.name} succeeds although the random source failed`);
      else if (rate === 1024) ensure(!c.ok, "encrypts_without_entropy", () => `${c.name} succeeds without asking the random source`);
      else ensure(c.ok, "encrypt_fails", () => `${c.name} fails: ${errText(c.error)}`);
    }
    ctx.sample = `random source failing at ${rate}/1024: ${plans.map((c) => c.name + (c.ok ? " ok" : " rejected")).join(", ")}`;
    return;
  }
  // every bit of the nonce depends on the random source: change one byte of its output and compare
  const one = async (flip) => {
    const s2 = new Sched(ctx);
    const proc = newProc(ctx, s2, kem, { entropySeed: seed, frozenClock: true, flip, initPlan: () => "slow", initDelay: 0, preferJs: [] });
    const aes = proc.load("crypto.ts");
    const c = s2.call(`aes flip ${flip}`, () => aes.aesGcmEncrypt(key, msg));
    await s2.run();
    ensure(c.ok, "encrypt_fails", () => `encryption fails: ${errText(c.error)}`);
    ctx.evals++;
    ctx.log(hex(c.value.slice(0, 12)));
    return { n: c.value.slice(0, 12), used: proc.entropyBytes };
  };
  const base = await one(undefined);
  ensure(base.used >= 12, "too_little_entropy", () => `one encryption draws ${base.used} bytes from the random source, a nonce has 12`);
  let matter = 0;
  for (let j = 0; j < Math.min(base.used, 64); j++) {
    const x = await one(j);
    if (!G.eq(x.n, base.n)) matter++;
  }
  ensure(matter >= 12, "nonce_ignores_entropy", () => `only ${matter} of ${base.used} bytes from the random source influence the nonce`);
  ctx.sample = `${matter} of ${base.used} random bytes influence the nonce`;
}

// ------------------------------------------------------------------ C17
async function aesRound(ctx) {
  const t = ctx.tape;
  const sched = new Sched(ctx);
  const proc = newProc(ctx, sched, new G.StubKem(ctx), { faults: faultRates(t, ["import_key", "subtle_encrypt", "subtle_decrypt", "entropy_fail"]) });
  const aes = proc.load("crypto.ts");
  const plans = [];
  const keys = Array.from({ length: 1 + t.choose(2) }, () => t.prngFrom().fill(new Uint8Array(32)));
  const watched = [];
  const W = (b) => { watched.push([b, Uint8Array.from(b)]); return b; };
  for (let i = 0, n = 1 + t.choose(6); i < n; i++) {
    const kind = t.choose(4);
    const key = t.pick(keys);
    const msg = G.genMessage(t);
    if (kind === 0) {
      const mv = W(G.viewOf(t, msg)), kv = W(G.viewOf(t, key));
      plans.push({ kind, key, msg, call: sched.call(`encrypt#${i}`, () => aes.aesGcmEncrypt(kv, mv)) });
    } else if (kind === 1) {
      const s = W(G.viewOf(t, G.seal(key, t.prngFrom().fill(new Uint8Array(12)), msg)));
      const wrong = t.chance(1, 3);
      const k2 = Uint8Array.from(key);
      if (wrong) k2[t.choose(32)] ^= 1 << t.choose(8);
      plans.push({ kind, key, msg, wrong, call: sched.call(`decrypt#${i}`, () => aes.aesGcmDecrypt(W(G.viewOf(t, k2)), s)) });
    } else if (kind === 2) {
      const n2 = t.pick([0, 1, 16, 24, 31, 33, 64]);
      const k2 = t.prngFrom().fill(new Uint8Array(n2));
      const enc = t.chance(1, 2);
      plans.push({ kind, n2, call: sched.call(`${enc ? "encrypt" : "decrypt"} with ${n2}-byte key#${i}`, () => (enc ? aes.aesGcmEncrypt(k2, msg) : aes.aesGcmDecrypt(k2, G.seal(key, new Uint8Array(12), msg)))) });
    } else {
      const s = t.prngFrom().fill(new Uint8Array(t.choose(28)));
      plans.push({ kind, n2: s.length, call: sched.call(`decrypt of ${s.length} bytes#${i}`, () => aes.aesGcmDecrypt(key, G.viewOf(t, s))) });
    }
  }
  await sched.run();
  ctx.nontrivial = plans.length > 1;
  for (const [b, c] of watched) ensure(G.eq(b, c), "argument_modified", "an argument was modified");
  for (const p of plans) {
    const c = p.call;
    ctx.evals++;
    if (c.error instanceof Violation) throw c.error;
    if (p.kind === 0) {
      if (!c.ok) { ensure(c.faults.length, "encrypt_fails", () => `${c.name} fails: ${errText(c.error)}`); continue; }
      ensure(c.value instanceof Uint8Array && c.value.length === p.msg.length + 28, "format_length", () => `${c.value?.length} bytes for a message of ${p.msg.length}`);
      const m = G.unseal(p.key, c.value);
      ensure(m && G.eq(m, p.msg), "format", "what aesGcmEncrypt returns is not nonce, AES-256-GCM ciphertext and tag of the message");
      const back = sched.call(`back of ${c.name}`, () => aes.aesGcmDecrypt(p.key, c.value));
      await sched.run();
      if (!back.ok) ensure(back.faults.length, "round_trip_fails", () => `decrypting again fails: ${errText(back.error)}`);
      else ensure(G.eq(back.value, p.msg), "round_trip", "decrypting again returns another message");
    } else if (p.kind === 1) {
      if (p.wrong) ensure(!c.ok, "wrong_key_accepted", "a wrong key opens the message");
      else if (!c.ok) ensure(c.faults.length, "decrypt_fails", () => `${c.name} fails: ${errText(c.error)}`);
      else ensure(G.eq(c.value, p.msg), "decrypt_message", () => `decrypts to ${c.value.length} bytes instead of ${p.msg.length}`);
    } else ensure(!c.ok, p.kind === 2 ? "key_length_accepted" : "short_data_accepted", () => `${c.name} succeeds`);
  }
  ctx.sample = plans.map((p) => p.call.name + (p.call.ok ? " ok" : " rejected")).join(", ");
}

// ------------------------------------------------------------------ C11
async function binding(ctx) {
  const t = ctx.tape;
  const sched = new Sched(ctx);
  const kem = new G.StubKem(ctx);
  const proc = newProc(ctx, sched, kem);
  const lib = proc.load("index.ts");
  const ci = makeCircuit(ctx, kem), c = ci.c;
  const w = G.witnessOf(c, ci.vals);
  // the parsers themselves
  const sym = G.symOf(t, c, { shuffle: t.chance(1, 2), crlf: t.chance(1, 6) });
  const wires = lib.parseSymFile(sym);
  const names = new Map();
  for (const g of c.groups) G.leafNames(g).forEach((n, i) => names.set(n, g.wire + i));
  for (const [n, id] of names) ensure(wires.get("main." + n) === id, "sym_wire", () => `main.${n} is wire ${id} in the file, read as ${wires.get("main." + n)}`);
  for (const [n, id] of wires) ensure(id >= 0 && Number.isInteger(id), "sym_wire", () => `${n} has wire ${id}`);
  const max = t.choose(c.nWires);
  const sel = t.chance(1, 2) ? lib.getInputSignals(wires) : lib.getInputSignals(wires, max);
  const lim = sel.size && [...sel.values()].some((x) => x > max) ? Infinity : max;
  for (const [n, id] of names) if (id <= lim) ensure(sel.get(n) === id, "sym_signal", () => `${n} (wire ${id}) is not selected with limit ${lim}`);
  for (const [n, id] of sel) ensure(wires.get("main." + n) === id, "sym_signal", () => `${n} was invented`);
  ctx.evals += names.size;
  const plans = [];
  ctx.log(sym);
  // other circuits' symbol files of the same length: two public signals have changed places
  const ends = t.chance(1, 2) ? [0, 1].map((k) => Array.from({ length: t.choose(40) }, (_, i) => `${9000 + i},-1,${i},main.unused${k}[${i}]`)) : [[], []];
  const long = [...ends[0], ...ci.sym.split("\n").filter((l) => l), ...ends[1]];
  const np = c.nOut + c.nPub;
  const open = long.map((l, k) => [k, l.trim().split(",")]).filter(([, f]) => f[3].startsWith("main.") && names.has(f[3].slice(5)) && Number(f[1]) <= np && Number(f[1]) > 0);
  const twin = () => {
    const [k, f] = t.pick(open), [m, g] = t.pick(open.filter(([, x]) => x[1].length === f[1].length));
    const out = long.slice();
    out[k] = [f[0], g[1], f[2], f[3]].join(",") + (long[k].endsWith("\r") ? "\r" : "");
    out[m] = [g[0], f[1], g[2], g[3]].join(",") + (long[m].endsWith("\r") ? "\r" : "");
    return { text: out.join("\n") + "\n", swap: [f[1] - 1, g[1] - 1] };
  };
  for (let i = 0, n = 1 + t.choose(4); i < n; i++) {
    const vals = i ? G.genVals(t, c) : ci.vals;
    if (i) for (const a of c.asserts) vals[a.i] = a.v;
    const tw = open.length && t.chance(1, 2) ? (t.chance(1, 3) ? { text: long.join("\n") + "\n", swap: [0, 0] } : twin()) : null;
    let inputs = G.inputsOf(t, c, vals, "public", { shuffle: true, negative: t.chance(1, 2), above: t.chance(1, 3) });
    const p = { vals, ok: true, why: "", swap: tw?.swap ?? [0, 0] };
    const keys = Object.entries(inputs);
    if (t.chance(1, 3)) for (let k = 1 + t.choose(3); k > 0; k--) keys.push([t.pick(["unknown", "zz", "main.", "0", "5", "note", ...G.FOREIGN]) + t.choose(9), G.genJson(t)]);
    // private signals among the inputs never matter
    if (t.chance(1, 3)) keys.push(...Object.entries(G.inputsOf(t, c, vals, "full")).filter(([k]) => c.groups.find((g) => g.name === k).kind === "prv"));
    t.shuffle(keys);
    const seenKeys = new Set(); inputs = Object.fromEntries(keys.filter(([k]) => !seenKeys.has(k) && seenKeys.add(k)));
    const pubGroups = c.groups.filter((g) => g.kind !== "prv");
    const bad = t.choose(6);
    if (bad === 0 && pubGroups.length) { const g = t.pick(pubGroups); delete inputs[g.name]; p.ok = false; p.why = `public signal ${g.name} missing`; }
    else if (bad === 1 && pubGroups.some((g) => g.dims.length)) {
      const g = t.pick(pubGroups.filter((x) => x.dims.length));
      let a = inputs[g.name] = G.clone(inputs[g.name]);
      while (Array.isArray(a[0])) a = a[0];
      a.pop();
      p.ok = false; p.why = `one element of ${g.name} missing`;
    } else if (bad === 2 && pubGroups.length) {
      const g = t.pick(pubGroups);
      let o = inputs, k = g.name;
      inputs[g.name] = G.clone(inputs[g.name]);
      while (Array.isArray(o[k])) { o = o[k]; k = t.choose(o.length); }
      o[k] = t.pick([1.5, null, "abc", "1.5", "12abc", {}, NaN]);
      p.ok = false; p.why = `a value of ${g.name} is ${JSON.stringify(o[k])}`;
    }
    p.inputs = inputs;
    ctx.log(JSON.stringify(inputs));
    p.call = sched.call(`encap#${i}`, () => lib.encap({ r1csBuffer: ci.r1cs, symContent: tw ? tw.text : i ? sym : ci.sym }, inputs));
    plans.push(p);
  }
  await sched.run();
  ctx.nontrivial = true;
  for (const p of plans) {
    ctx.evals++;
    const call = p.call;
    if (!call.ok) { ensure(!p.ok, "encap_fails", () => `encap fails for complete public inputs ${JSON.stringify(p.inputs).slice(0, 300)}: ${errText(call.error)}`); continue; }
    ensure(p.ok, "partial_binding", () => `encap succeeds although ${p.why} (${describe(c)})`);
    const e = kem.entry(call.value.ciphertext), want = G.publicOf(c, p.vals), [a, b] = p.swap;
    [want[a], want[b]] = [want[b], want[a]];
    const i = want.findIndex((v, j) => v !== e.pubs[j]);
    ensure(i < 0, "wrong_wire_value", () => `wire ${i + 1} gets ${e.pubs[i]} instead of ${want[i]} for inputs ${JSON.stringify(p.inputs).slice(0, 300)}`);
  }
  ctx.sample = `${describe(c)}; ${plans.map((p) => (p.call.ok ? "bound" : `refused (${p.why})`)).join(", ")}`;
}

// ------------------------------------------------------------------ C02, C11, C15, C16: large shapes
/** Counts and lengths just below, at and above every width a length, an index or a call's argument list may have. */
const EDGES = [255, 256, 257, 1000, 1023, 1024, 4095, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 65537, 70000, 100000, 130000, 200000];
async function scale(ctx) {
  const t = ctx.tape;
  const sub = new Tape(t.prngFrom(), null); // thousands of values: not worth a place in the replay file
  const edge = (max) => t.pick(EDGES.filter((n) => n <= max));
  const kem = new G.StubKem(ctx), sched = new Sched(ctx);
  const proc = newProc(ctx, sched, kem);
  const lib = proc.load("index.ts");
  const what = t.pick(["pub", "pub", "prv", "both", "names", "mid", "cts", "json"]);
  let nMid;
  const shape = (groups, add) => {
    const dims = (n) => (t.chance(1, 3) && n > 10 ? [t.pick([2, 3, 5]), Math.ceil(n / 5)] : t.chance(1, 6) ? [n, 1] : [n]);
    if (what === "pub" || what === "both") add("pub", dims(edge(what === "both" ? 70000 : 200000)));
    if (what === "prv" || what === "both") add("prv", dims(edge(what === "both" ? 70000 : 200000)));
    if (what === "names") { const n = edge(4097); for (let i = 0; i < n; i++) add(i % 3 ? "pub" : "prv", sub.chance(1, 8) ? [2] : []); }
  };
  if (what === "mid") nMid = edge(130000) - t.choose(40);
  const c = G.genCircuit(nMid ? sub : t, { shape, nMid, noOut: t.chance(1, 2) });
  const vals = G.genVals(sub, c);
  if (t.chance(1, 2)) G.addAssert(t, c, vals);
  if (what === "cts" || t.chance(1, 4)) c.ctPad = Math.max(0, edge(200000) - 65 - ((c.nOut + c.nPub) % 17) + t.choose(3) - 1);
  const r1csBuffer = kem.register(c), wasmBuffer = programBytes(G.program(c));
  const symContent = G.symOf(sub, c, { shuffle: t.chance(1, 4) });
  const inputs = G.inputsOf(sub, c, vals, "public", { negative: t.chance(1, 3) });
  if (what === "json") inputs.memo0 = "m".repeat(edge(200000) - t.choose(20));
  const full = G.inputsOf(sub, c, vals, "full", { negative: t.chance(1, 3), bigint: t.chance(1, 3) });
  const message = t.chance(1, 3) ? t.prngFrom().fill(new Uint8Array(edge(200000))) : te.encode("large");
  ctx.log(`${what}: ${describe(c)}, ${c.ctPad ?? 0} more bytes of key ciphertext, message of ${message.length} bytes`);
  const embed = what === "json" || t.chance(3, 4);
  const one = async (what, f) => { const k = sched.call(what, f); await sched.run(); ctx.evals++; return k; };
  const e = await one("encrypt", () => lib.encrypt({ r1csBuffer, symContent }, inputs, message, { includePublicInput: embed }));
  ensure(e.ok, "large_encrypt_fails", () => `encrypt fails on ${describe(c)} (${what}): ${errText(e.error)}`);
  const pkg = Uint8Array.from(e.value.ciphertext);
  checkPackage(kem, pkg, { c, vals, key: e.value.key, message, embed, inputs }, "large");
  if (embed) {
    let j, err = null;
    try { j = lib.getPublicInput(pkg); } catch (x) { err = x; }
    ensure(!err, "large_embedded_fails", () => `reading the public inputs of an intact package fails: ${errText(err)}`);
    ensure(G.deepEq(j, JSON.parse(JSON.stringify(inputs))), "large_embedded", "the public inputs read back differ from those embedded");
  }
  const d = await one("decrypt", () => lib.decrypt({ r1csBuffer, wasmBuffer }, pkg, full));
  ensure(d.ok, "large_decrypt_fails", () => `decrypt with the witness fails on ${describe(c)} (${what}): ${errText(d.error)}`);
  ensure(G.eq(d.value, message), "large_message", () => `decrypt returns ${d.value.length} other bytes than the ${message.length} encrypted (${what}, ${describe(c)})`);
  const w = await one("calculateWitness", () => proc.load("witness.ts").calculateWitness(wasmBuffer, full));
  ensure(w.ok, "large_witness_fails", () => `calculateWitness fails on ${describe(c)} (${what}): ${errText(w.error)}`);
  const got = G.parseWtns(w.value), want = G.witnessOf(c, vals);
  const at = want.findIndex((v, i) => got.values[i] !== v);
  ensure(got.values.length === want.length && at < 0, "large_witness", () => `the witness has ${got.values.length} values for ${want.length} wires, first difference at wire ${at}`);
  ctx.nontrivial = true;
  ctx.sample = `${what}: ${describe(c)}, package of ${pkg.length} bytes`;
}

export const components = {
  js_scale: { run: scale },
  js_calls: { run: (ctx) => calls(ctx, "calls") },
  js_secrets: { run: (ctx) => calls(ctx, "secrets") },
  js_twins: { run: twins },
  js_init: { run: init },
  js_public: { run: embedded },
  js_witness: { run: witness },
  js_witness_real: { run: realWitness },
  js_damage: { run: damaged },
  js_fresh: { run: fresh, batch: freshBatch },
  js_entropy: { run: entropy },
  js_aes: { run: aesRound },
  js_binding: { run: binding },
  page: { run: page },
  ...crossComponents,
  ...wasm32Components,
};
