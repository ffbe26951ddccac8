// Worlds in which the JavaScript library, the command-line program and an independent peer exchange
// packages and key ciphertexts; all of zkenc is real code here.
import { Sched, Proc, ensure, Violation, programBytes, errText, hex } from "./sim.mjs";
import * as G from "./gen.mjs";
import { cli } from "./rust.mjs";
import { WasmKem } from "./wasm32.mjs";

const te = new TextEncoder();
const td = new TextDecoder("utf-8", { fatal: true, ignoreBOM: true });
const describe = (c) => `${c.nOut} outputs, ${c.nPub}+${c.nPrv} inputs, ${c.nWires} wires, ${c.cons.length} constraints`;

function soft(t) {
  const k = t.choose(4);
  return k === 0 ? {} : { short: t.pick([0, 100, 400]), eintr: t.pick([0, 50, 200]), entropy_short: t.pick([0, 0, 300]) };
}
function newProc(ctx, sched, kem, o = {}) {
  const t = ctx.tape;
  return new Proc(sched, { entropySeed: t.choose(0x7fffffff), kem, faults: o.faults ?? {}, frozenClock: false,
    initPlan: t.chance(1, 5) ? () => "sync" : () => "slow", initDelay: t.pick([0, 5, 40]), preferJs: t.chance(1, 4) ? ["witness_calculator.js"] : [] });
}
const MORE = [0, 1, "7", "00012", -3, "-5", 123456789012];
/** A circuit, its values and the input files each tool gets. */
function setting(ctx, i) {
  const t = ctx.tape;
  const c = G.genCircuit(t);
  const vals = G.genVals(t, c);
  if (t.chance(1, 2)) G.addAssert(t, c, vals);
  const r1cs = G.r1csBytes(c);
  const sym = G.symOf(t, c, { shuffle: t.chance(1, 3), crlf: t.chance(1, 6) });
  const wasm = programBytes(G.program(c));
  const s = { i, c, vals, r1cs, sym, wasm, dir: `/work/s${i}` };
  s.files = { r1csBuffer: r1cs, symContent: sym };
  s.dfiles = { r1csBuffer: r1cs, wasmBuffer: wasm };
  s.wtns = G.wtnsBytes(G.witnessOf(c, vals));
  return s;
}
function publicInputs(t, s) {
  const o = G.inputsOf(t, s.c, s.vals, "public", { shuffle: true, negative: t.chance(1, 3), above: t.chance(1, 5) });
  for (let k = t.choose(3); k > 0; k--) o[t.chance(1, 2) ? "more" + k : t.pick(G.FOREIGN)] = t.pick(MORE);
  // every reader of the JSON sees the same value: an integer a double holds exactly
  return o;
}
const jsonText = (t, o) => JSON.stringify(o, null, t.pick([0, 0, 1, 2, "\t"])) + t.pick(["", "\n", " \r\n"]);
const opt = (t, pairs) => pairs.flatMap(([k, v]) => (t.chance(1, 3) ? [`--${k}=${v}`] : [`--${k}`, v]));

function cliEncrypt(ctx, s, text, message, embed, faults) {
  const d = s.dir, t = ctx.tape;
  const argv = ["encrypt", ...opt(t, [["circuit", `${d}/c.r1cs`], ["sym", `${d}/c.sym`], ["input", `${d}/in.json`], ["message", `${d}/msg`], ["output", `${d}/pkg`]]), ...(embed ? [] : ["--no-public-input"])];
  const r = cli(ctx, argv, { [`${d}/c.r1cs`]: s.r1cs, [`${d}/c.sym`]: te.encode(s.sym), [`${d}/in.json`]: te.encode(text), [`${d}/msg`]: message }, faults);
  return { r, pkg: r.files[`${d}/pkg`] };
}
function cliEncap(ctx, s, text, faults) {
  const d = s.dir;
  const argv = ["encap", ...opt(ctx.tape, [["circuit", `${d}/c.r1cs`], ["sym", `${d}/c.sym`], ["input", `${d}/in.json`], ["ciphertext", `${d}/ct`], ["key", `${d}/key`]])];
  const r = cli(ctx, argv, { [`${d}/c.r1cs`]: s.r1cs, [`${d}/c.sym`]: te.encode(s.sym), [`${d}/in.json`]: te.encode(text) }, faults);
  return { r, ct: r.files[`${d}/ct`], key: r.files[`${d}/key`] };
}
function cliDecrypt(ctx, s, wtns, pkg, faults) {
  const d = s.dir;
  const argv = ["decrypt", ...opt(ctx.tape, [["circuit", `${d}/c.r1cs`], ["witness", `${d}/w.wtns`], ["ciphertext", `${d}/pkg`], ["output", `${d}/out`]])];
  const r = cli(ctx, argv, { [`${d}/c.r1cs`]: s.r1cs, [`${d}/w.wtns`]: wtns, [`${d}/pkg`]: pkg }, faults);
  return { r, out: r.files[`${d}/out`] };
}
function cliDecap(ctx, s, wtns, ct, faults) {
  const d = s.dir;
  const argv = ["decap", ...opt(ctx.tape, [["circuit", `${d}/c.r1cs`], ["witness", `${d}/w.wtns`], ["ciphertext", `${d}/ct`], ["key", `${d}/key`]])];
  const r = cli(ctx, argv, { [`${d}/c.r1cs`]: s.r1cs, [`${d}/w.wtns`]: wtns, [`${d}/ct`]: ct }, faults);
  return { r, key: r.files[`${d}/key`] };
}
const failText = (r) => r.stderr.slice(-300);

/** C02: whoever made it, everybody reads it. */
async function cross(ctx) {
  const t = ctx.tape;
  const kem = new WasmKem(ctx), sched = new Sched(ctx);
  const proc = newProc(ctx, sched, kem);
  const lib = proc.load("index.ts");
  const peer = { randomBytes: ((r) => (b) => r.fill(b))(t.prngFrom()) };
  const settings = Array.from({ length: 1 + t.choose(2) }, (_, i) => setting(ctx, i));
  const faults = soft(t);
  const items = [];
  const n = 2 + t.choose(3);
  for (let i = 0; i < n; i++) {
    const s = t.pick(settings);
    const by = t.pick(["js", "cli", "peer"]);
    const kind = t.pick(["package", "package", "package", "key"]);
    const inputs = publicInputs(t, s), text = jsonText(t, inputs);
    const it = { i, s, by, kind, inputs, text, message: kind === "package" ? G.genMessage(t) : null, embed: t.chance(2, 3), name: `${kind}#${i} by ${by}` };
    items.push(it);
    const delay = t.pick([0, 0, 10, 50]);
    if (by === "js") {
      const o = it.embed ? t.pick([undefined, {}, { includePublicInput: true }]) : { includePublicInput: false };
      it.call = kind === "package" ? sched.call(`encrypt#${i}`, () => lib.encrypt(s.files, inputs, G.viewOf(t, it.message), o), delay) : sched.call(`encap#${i}`, () => lib.encap(s.files, inputs), delay);
    } else if (by === "cli") {
      it.call = sched.call(`cli ${kind}#${i}`, () => (kind === "package" ? cliEncrypt(ctx, s, text, it.message, it.embed, faults) : cliEncap(ctx, s, text, faults)), delay);
    } else {
      // someone who only knows the documentation: the KEM's key ciphertext, wrapped by hand
      it.call = sched.call(`peer ${kind}#${i}`, () => {
        const e = kem.encap(s.r1cs, G.wtnsBytes([1n, ...G.publicOf(s.c, s.vals)]), peer);
        if (kind === "key") return e;
        return { key: e.key, ciphertext: G.packPackage({ flag: it.embed, kemCt: e.ciphertext, json: te.encode(text), sealed: G.seal(e.key, peer.randomBytes(new Uint8Array(12)), it.message) }) };
      }, delay);
    }
  }
  await sched.run();
  for (const it of items) {
    const c = it.call;
    ensure(c.ok, `${it.by}_${it.kind}_fails`, () => `making ${it.name} (${describe(it.s.c)}) fails: ${errText(c.error)}`);
    if (it.by === "cli") {
      ensure(c.value.r.ok, `cli_${it.kind}_fails`, () => `making ${it.name} (${describe(it.s.c)}, inputs ${it.text.slice(0, 200)}) fails: ${failText(c.value.r)}`);
      it.bytes = it.kind === "key" ? c.value.ct : c.value.pkg;
      it.key = c.value.key;
      ensure(it.bytes, "cli_no_output", () => `${it.name}: no output file`);
    } else { it.bytes = Uint8Array.from(c.value.ciphertext); it.key = Uint8Array.from(c.value.key); }
    ctx.probe(`made_by_${it.by}`);
  }
  // the documented layout, field by field
  for (const it of items) {
    ctx.evals++;
    if (it.kind === "key") { it.kemCt = it.bytes; if (it.key) ensure(it.key.length === 32, "key_length", () => `${it.name}: key of ${it.key.length} bytes`); }
    else {
      let p;
      try { p = G.unpackPackage(it.bytes); } catch (e) { throw new Violation(`${it.by}_layout`, `${it.name} does not have the documented layout: ${e.message}`); }
      ensure(p.flag === (it.embed ? 1 : 0), `${it.by}_flag`, () => `${it.name}: flag byte ${p.flag}, embedding was ${it.embed ? "on" : "off"}`);
      ensure(p.sealed.length === it.message.length + 28, `${it.by}_sealed_length`, () => `${it.name}: message part of ${p.sealed.length} bytes for ${it.message.length} bytes`);
      if (it.embed) {
        let j;
        try { j = JSON.parse(td.decode(p.json)); } catch (e) { throw new Violation(`${it.by}_json`, `${it.name}: embedded public inputs are no JSON: ${e.message}`); }
        ensure(G.deepEq(j, it.inputs), `${it.by}_json`, () => `${it.name}: embedded public inputs ${JSON.stringify(j).slice(0, 200)} instead of ${JSON.stringify(it.inputs).slice(0, 200)}`);
      }
      it.kemCt = p.kemCt;
      it.sealed = p.sealed;
    }
  }
  // everybody opens everything; the library perhaps in another process
  const proc2 = t.chance(1, 2) ? proc : newProc(ctx, sched, kem);
  const lib2 = proc2.load("index.ts");
  const opens = [];
  for (const it of items) {
    const { s } = it, full = G.inputsOf(t, s.c, s.vals, "full", { shuffle: true, negative: t.chance(1, 3) });
    const add = (who, what, f) => opens.push({ it, who, what, call: sched.call(`${who} opens ${it.name}`, f, t.pick([0, 0, 10, 40])) });
    if (it.kind === "package") {
      add("js", "message", () => lib2.decrypt(s.dfiles, G.viewOf(t, it.bytes), full));
      add("cli", "message", () => { const { r, out } = cliDecrypt(ctx, s, s.wtns, it.bytes, faults); if (!r.ok) throw new Error(failText(r)); return out ?? new Uint8Array(0); });
      if (it.embed) add("js-reader", "inputs", () => lib2.getPublicInput(G.viewOf(t, it.bytes)));
    }
    if (t.chance(1, 2) || it.kind === "key") {
      add("js", "key", () => lib2.decap(s.dfiles, G.viewOf(t, it.kemCt), full));
      add("cli", "key", () => { const { r, key } = cliDecap(ctx, s, s.wtns, it.kemCt, faults); if (!r.ok) throw new Error(failText(r)); return key; });
    }
    add("peer", "key", () => kem.decap(s.r1cs, s.wtns, it.kemCt, peer));
  }
  await sched.run();
  for (const o of opens) {
    const { it } = o, cls = `${it.by}_${it.kind}_by_${o.who}`;
    ctx.evals++;
    ensure(o.call.ok, `${cls}_fails`, () => `${o.who} cannot open ${it.name} (${describe(it.s.c)}, ${it.embed ? "embedded" : "not embedded"}): ${errText(o.call.error)}`);
    const v = o.call.value;
    if (o.what === "inputs") ensure(G.deepEq(v, it.inputs), `${cls}_inputs`, () => `getPublicInput of ${it.name} yields ${JSON.stringify(v)?.slice(0, 200)} instead of ${JSON.stringify(it.inputs).slice(0, 200)}`);
    else if (o.what === "message") ensure(v instanceof Uint8Array && G.eq(v, it.message), `${cls}_message`, () => `${o.who} opens ${it.name} to ${v?.length} bytes ${hex(v.slice(0, 10))} instead of ${it.message.length} bytes ${hex(it.message.slice(0, 10))}`);
    else {
      ensure(v instanceof Uint8Array && v.length === 32, `${cls}_key`, () => `${o.who} gets a key of ${v?.length} bytes from ${it.name}`);
      it.key ??= v;
      ensure(G.eq(v, it.key), `${cls}_key`, () => `${o.who} gets another key from ${it.name} than its maker`);
      if (o.who === "peer" && it.kind === "package") {
        const m = G.unseal(v, it.sealed);
        ensure(m !== null, `${cls}_sealed`, () => `the message part of ${it.name} does not open as nonce, AES-256-GCM ciphertext and tag`);
        ensure(G.eq(m, it.message), `${cls}_message`, () => `the peer opens ${it.name} to another message`);
      }
    }
    ctx.probe(`${it.by}_to_${o.who}`);
  }
  ctx.nontrivial = items.length > 1;
  ctx.sample = `${items.map((x) => `${x.name}${x.embed ? "" : " (not embedded)"}`).join(", ")}; ${opens.length} openings; ${describe(items[0].s.c)}`;
}

/** C06 through the JavaScript library and the real bindings. */
async function entitled(ctx) {
  const t = ctx.tape;
  const kem = new WasmKem(ctx), sched = new Sched(ctx);
  const proc = newProc(ctx, sched, kem);
  const lib = proc.load("index.ts");
  const peer = { randomBytes: ((r) => (b) => r.fill(b))(t.prngFrom()) };
  const { c } = setting(ctx, 0);
  const vals = G.genVals(t, c);
  for (const a of c.asserts) vals[a.i] = a.v;
  const r1cs = G.r1csBytes(c), files = { r1csBuffer: r1cs, symContent: G.symOf(t, c, { shuffle: t.chance(1, 3) }) };
  const message = G.genMessage(t);
  const np = c.nOut + c.nPub;
  const groups = c.groups.filter((g) => g.kind !== "prv");
  // sealing: complete public inputs, or with a hole that must be refused
  const seals = [];
  for (let i = 0; i < 2; i++) {
    const inputs = G.inputsOf(t, c, vals, "public", { shuffle: true, negative: t.chance(1, 3) });
    const s = { i, hole: null };
    if (i === 1 && groups.length) {
      const g = t.pick(groups);
      const v = inputs[g.name];
      if (g.dims.length && t.chance(1, 2)) { let a = v; while (Array.isArray(a[a.length - 1])) a = a[a.length - 1]; a.pop(); s.hole = `the last element of ${g.name} is missing`; }
      else { delete inputs[g.name]; if (t.chance(1, 2)) inputs[g.name.toUpperCase() + "_"] = v; s.hole = `${g.name} is missing`; }
    }
    s.inputs = inputs;
    s.encrypts = t.chance(2, 3);
    s.call = sched.call(s.encrypts ? `encrypt#${i}` : `encap#${i}`, () => (s.encrypts ? lib.encrypt(files, inputs, message) : lib.encap(files, inputs)));
    seals.push(s);
  }
  await sched.run();
  for (const s of seals) {
    ctx.evals++;
    if (s.hole) { ensure(!s.call.ok, "bound_to_part", () => `${s.call.name} succeeds although ${s.hole} (${describe(c)})`); ctx.probe("hole_refused"); }
    else ensure(s.call.ok, "seal_fails", () => `${s.call.name} fails for complete public inputs (${describe(c)}): ${errText(s.call.error)}`);
  }
  // opening: with all kinds of witnesses
  const opens = [];
  for (const s of seals.filter((x) => !x.hole)) for (let k = 2 + t.choose(3); k > 0; k--) {
    const v2 = vals.slice();
    let tamper = null, why = "the right inputs";
    switch (t.choose(6)) {
      case 0: break;
      case 1: { const j = t.choose(v2.length); v2[j] = t.chance(1, 2) ? G.mod(v2[j] + 1n) : G.genElem(t); why = `input ${j} changed`; break; }
      case 2: if (c.nPub) { const j = t.choose(c.nPub); v2[j] = G.mod(v2[j] + BigInt(1 + t.choose(3))); why = `public input ${j} changed`; } break;
      case 3: { const j = c.nPub + t.choose(c.nPrv); v2[j] = G.genElem(t); why = `private input ${j} changed`; break; }
      default: {
        // the witness program itself is not the circuit's: it delivers other wires
        const n = 1 + t.choose(2), ch = Array.from({ length: n }, () => [1 + t.choose(c.nWires - 1), t.pick([1n, 2n, G.P - 1n, G.genElem(t) + 1n])]);
        tamper = { ch, cut: t.chance(1, 6) };
        why = `wires ${ch.map((x) => x[0])} falsified${tamper.cut ? " and the last one left out" : ""}`;
      }
    }
    const prog = G.program(c);
    let w;
    prog.run = (x) => {
      let r = G.witnessOf(c, x);
      if (tamper) { r = r.slice(); for (const [i, d] of tamper.ch) r[i] = G.mod(r[i] + d); if (tamper.cut) r.length -= 1; }
      return r;
    };
    w = prog.run(v2);
    if (tamper?.cut) prog.witnessSize = c.nWires - 1;
    const ok = G.satisfies(c, w) && w.slice(1, 1 + np).every((x, i) => x === G.publicOf(c, vals)[i]);
    const dfiles = { r1csBuffer: r1cs, wasmBuffer: programBytes(prog) };
    const full = G.inputsOf(t, c, v2, "full", { shuffle: true });
    const val = s.call.value;
    const call = s.encrypts && t.chance(2, 3) ? sched.call(`decrypt#${opens.length}`, () => lib.decrypt(dfiles, val.ciphertext, full))
      : sched.call(`decap#${opens.length}`, () => lib.decap(dfiles, s.encrypts ? G.unpackPackage(val.ciphertext).kemCt : val.ciphertext, full));
    opens.push({ s, ok, why, call });
  }
  await sched.run();
  for (const o of opens) {
    ctx.evals++;
    const { call } = o;
    if (o.ok) {
      ensure(call.ok, "entitled_refused", () => `${call.name} with ${o.why} (${describe(c)}) fails: ${errText(call.error)}`);
      const want = call.name.startsWith("decrypt") ? message : o.s.call.value.key;
      ensure(G.eq(call.value, want), "entitled_differs", () => `${call.name} with ${o.why} yields something else`);
      ctx.probe("entitled");
    } else {
      ensure(!call.ok, "opened_without_right", () => `${call.name} succeeds with ${o.why} (${describe(c)})${G.eq(call.value, o.s.call.value.key) ? " and yields the key" : ""}`);
      ctx.probe("refused");
    }
  }
  ctx.nontrivial = opens.some((o) => !o.ok);
  ctx.sample = `${describe(c)}; ${opens.map((o) => `${o.why}: ${o.call.ok ? "opens" : "refused"}`).join(", ")}`;
}
export const crossComponents = { cross: { run: cross }, js_entitled: { run: entitled } };
