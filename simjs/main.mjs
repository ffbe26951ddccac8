// Runner of the JavaScript simulation: the same protocol as the Rust engines (see tools/plan.py).
import fs from "node:fs";
import { Worker, isMainThread, workerData, parentPort } from "node:worker_threads";
import { fileURLToPath } from "node:url";

// worlds with the real Rust half need the other build as well (tools/plan.py)
const engineOf = (comp) => (["cross", "js_entitled"].includes(comp) ? "simcross" : comp.endsWith("_wasm32") ? "simwasm" : "simjs");
const arg = (a, k, d) => { const i = a.indexOf(k); return i >= 0 ? a[i + 1] : d; };

if (isMainThread) {
  const args = process.argv.slice(2);
  const beat = new SharedArrayBuffer(16);
  const v = new Int32Array(beat); // [run, progress]
  const w = new Worker(fileURLToPath(import.meta.url), { workerData: { args, beat }, resourceLimits: { maxOldGenerationSizeMb: 3000, stackSizeMb: 1 } });
  let last = -1, since = Date.now(), over = false;
  const dead = (key, detail) => {
    if (over) return;
    over = true;
    const run = Atomics.load(v, 0);
    if (args[0] === "replay") {
      const r = JSON.parse(fs.readFileSync(args[1], "utf8"));
      if (r.class === key) { console.log(`REPRODUCED ${key}: ${detail}`); process.exit(1); }
      console.log("NOT REPRODUCED"); process.exit(0);
    }
    if (args[0] !== "run") { console.error(detail); process.exit(2); }
    const comp = arg(args, "--component"), prop = arg(args, "--property", "X"), dir = arg(args, "--replay-dir"), seed = arg(args, "--seed", "1");
    const s = `${seed}/${comp}/${run}`;
    const file = `${dir}/${prop}_${comp}_${run}.json`;
    const known = (arg(args, "--known", "") || "").split("\n").includes(key);
    const sum = { engine: engineOf(comp), component: comp, runs: 1, evaluations: 1, wall_s: 1, sim_ns: 0, syscalls: 0, context_switches: 0, faults: {}, probes: {}, trace_hashes: [], schedule_hashes: [], nontrivial_hashes: [], samples: [], violations: [], known: [], audit_hashes: [], audit_mismatch: [] };
    if (known) sum.known.push({ class: key, count: 1, detail });
    else {
      fs.mkdirSync(dir, { recursive: true });
      fs.writeFileSync(file, JSON.stringify({ property: prop, engine: engineOf(comp), component: comp, run, seed: s, verif_seed: +seed, class: key, violation: detail, original_choices: 0, minimised_choices: 0, minimiser_runs: 0, trace_hash: "dead", tape: null, trace: [] }, null, 1));
      sum.violations.push({ class: key, detail, replay: file, seed: s });
    }
    fs.writeFileSync(arg(args, "--out"), JSON.stringify(sum));
    process.exit(known ? 0 : 1);
  };
  setInterval(() => {
    const p = Atomics.load(v, 1);
    if (p !== last) { last = p; since = Date.now(); } else if (Date.now() - since > 75000) {
      w.terminate();
      dead("hang", "the run stopped making progress (endless loop in one step)");
    }
  }, 500).unref();
  w.on("message", (m) => { over = true; process.exitCode = m.code; });
  w.on("error", (e) => {
    if (e.code === "ERR_WORKER_OUT_OF_MEMORY") dead("out_of_memory", "the run used up all memory");
    else { console.error(e); over = true; process.exit(2); }
  });
  w.on("exit", (c) => { if (!over) { console.error("worker ended with", c); process.exit(2); } });
} else {
  const { args, beat } = workerData;
  const v = new Int32Array(beat);
  const { Ctx, Violation, unhandled, resetPrograms } = await import("./sim.mjs");
  const { Tape } = await import("./tape.mjs");
  const { components } = await import("./components.mjs");
  const progress = () => Atomics.add(v, 1, 1);

  async function exec(comp, tape, traceOn) {
    progress();
    const ctx = new Ctx(tape, traceOn);
    ctx.progress = progress;
    resetPrograms();
    unhandled.length = 0;
    let viol = null;
    try {
      await comp.run(ctx);
      // a promise rejected with nobody listening shows up one turn later
      await new Promise((r) => setImmediate(r));
      if (unhandled.length && !ctx.browser) viol = { key: "unhandled_rejection", detail: `a promise was rejected with nobody listening (this ends a Node.js process): ${String(unhandled[0])}` };
    } catch (e) {
      if (!(e instanceof Violation)) throw e;
      viol = { key: e.key, detail: e.message };
    }
    unhandled.length = 0;
    if (viol) { ctx.findings.unshift(viol); ctx.log(`VIOLATION ${viol.key}`); }
    else for (const f of ctx.findings) ctx.log(`VIOLATION ${f.key}`);
    return ctx;
  }
  async function shrink(comp, tape, key, ms) {
    const end = Date.now() + ms;
    let tried = 0;
    const same = async (c) => {
      tried++;
      try {
        const x = await exec(comp, Tape.replay(c), false);
        return x.findings.some((f) => f.key === key) ? x.tape.rec.slice() : null;
      } catch { return null; }
    };
    let cur = tape;
    const score = (a) => a.length * 1e6 + a.reduce((s, x) => s + Math.min(1000, x), 0) / 1000;
    const better = (r) => r && score(r) < score(cur);
    for (let pass = 0; pass < 4 && Date.now() < end; pass++) {
      const before = score(cur);
      for (let size = Math.max(1, cur.length >> 1); size >= 1 && Date.now() < end; size >>= 1) {
        for (let at = 0; at < cur.length && Date.now() < end; ) {
          const c = cur.slice(0, at).concat(cur.slice(at + size));
          const r = await same(c);
          if (better(r)) cur = r; else at += size;
        }
      }
      for (let i = 0; i < cur.length && Date.now() < end; i++) {
        for (const val of [0, cur[i] >> 1, cur[i] - 1]) {
          if (val < 0 || val >= cur[i]) continue;
          const c = cur.slice();
          c[i] = val;
          const r = await same(c);
          if (better(r)) { cur = r; break; }
        }
      }
      if (score(cur) >= before) break;
    }
    return [cur, tried];
  }
  const done = (code) => { parentPort.postMessage({ code }); };

  if (args[0] === "list") { for (const c of Object.keys(components)) console.log(c); done(0); }
  else if (args[0] === "replay") {
    const r = JSON.parse(fs.readFileSync(args[1], "utf8"));
    const comp = components[r.component];
    if (r.batch) {
      const [k, n] = r.worker.split("/").map(Number);
      const all = [];
      for (let i = k; i < r.runs; i += n) all.push(...(await exec(comp, Tape.seeded(`${r.verif_seed}/${r.component}/${i}`), false)).collected);
      let hit = null;
      try { comp.batch(all); } catch (e) { hit = e; }
      if (hit && hit.key === r.class) { console.log(`REPRODUCED ${hit.key} ${hit.message}`); done(1); } else { console.log("NOT REPRODUCED"); done(0); }
    } else {
      const x = await exec(comp, r.tape ? Tape.replay(r.tape) : Tape.seeded(r.seed), true);
      for (const l of x.trace) console.log(l);
      const f = x.findings.find((y) => y.key === r.class);
      if (f) {
        console.log(`REPRODUCED ${f.key}: ${f.detail}`);
        console.log(`trace hash ${x.hash.hex()} (recorded ${r.trace_hash})`);
        done(x.hash.hex() === r.trace_hash ? 1 : 3);
      } else { console.log("NOT REPRODUCED"); done(0); }
    }
  } else if (args[0] === "run") {
    const name = arg(args, "--component"), seed = arg(args, "--seed", "1"), runs = +arg(args, "--runs", "100"), limit = +arg(args, "--time", "1e9");
    const [k, n] = arg(args, "--worker", "0/1").split("/").map(Number);
    const known = new Set((arg(args, "--known", "") || "").split("\n").filter(Boolean));
    const audit = +arg(args, "--audit", "3"), out = arg(args, "--out"), rdir = arg(args, "--replay-dir"), prop = arg(args, "--property", "X");
    const comp = components[name];
    if (!comp) { console.error("no component", name); done(2); }
    else {
      const t0 = Date.now();
      const S = { runs: 0, evals: 0, simMs: 0, steps: 0, switches: 0, faults: {}, probes: {}, traces: new Set(), scheds: new Set(), nontrivial: new Set(), samples: [], viols: [], known: {}, collected: [], hashes: [], bad: [] };
      const seen = new Set();
      let i = k, first = null;
      for (; i < runs && (Date.now() - t0) / 1000 < limit; i += n) {
        Atomics.store(v, 0, i);
        const s = `${seed}/${name}/${i}`;
        const x = await exec(comp, Tape.seeded(s), false);
        const h = x.hash.hex();
        S.runs++; S.evals += Math.max(1, x.evals); S.simMs += x.simMs; S.steps += x.steps; S.switches += x.switches;
        S.traces.add(h); S.scheds.add(x.sched.hex());
        if (x.nontrivial) S.nontrivial.add(h);
        if (S.samples.length < 3 && x.sample) S.samples.push(x.sample);
        for (const [a, b] of Object.entries(x.fired)) S.faults[a] = (S.faults[a] ?? 0) + b;
        for (const [a, b] of Object.entries(x.probes)) S.probes[a] = (S.probes[a] ?? 0) + b;
        S.collected.push(...x.collected);
        if ((i - k) / n < audit) {
          S.hashes.push([i, h]);
          const y = await exec(comp, Tape.seeded(s), false);
          if (y.hash.hex() !== h) S.bad.push(i);
        }
        for (const f of x.findings) {
          if (known.has(f.key)) { (S.known[f.key] ??= { class: f.key, count: 0, detail: f.detail }).count++; continue; }
          if (seen.has(f.key)) continue;
          seen.add(f.key);
          const tape = x.tape.rec.slice();
          const [small, tried] = await shrink(comp, tape, f.key, 12000);
          const y = await exec(comp, Tape.replay(small), true);
          const g = y.findings.find((z) => z.key === f.key) ?? f;
          const file = `${rdir}/${prop}_${name}_${i}${S.viols.length ? `_${S.viols.length}` : ""}.json`;
          fs.mkdirSync(rdir, { recursive: true });
          fs.writeFileSync(file, JSON.stringify({ property: prop, engine: engineOf(name), component: name, run: i, seed: s, verif_seed: +seed, class: g.key, violation: g.detail, original_choices: tape.length, minimised_choices: small.length, minimiser_runs: tried, trace_hash: y.hash.hex(), tape: small, trace: y.trace }, null, 1));
          S.viols.push({ class: g.key, detail: g.detail, replay: file, seed: s });
        }
        // after a violation, a little longer for violations of other kinds
        if (S.viols.length) first ??= Date.now();
        if (S.viols.length >= 3 || (first && Date.now() - first >= 5000)) { i += n; break; }
      }
      if (comp.batch) {
        try { comp.batch(S.collected); } catch (e) {
          if (!(e instanceof Violation)) throw e;
          if (known.has(e.key)) S.known[e.key] = { class: e.key, count: 1, detail: e.message };
          else {
            const file = `${rdir}/${prop}_${name}_batch${k}.json`;
            fs.mkdirSync(rdir, { recursive: true });
            fs.writeFileSync(file, JSON.stringify({ property: prop, engine: engineOf(name), component: name, batch: true, verif_seed: +seed, runs: Math.min(i, runs), worker: `${k}/${n}`, class: e.key, violation: e.message }, null, 1));
            S.viols.push({ class: e.key, detail: e.message, replay: file });
          }
        }
      }
      fs.writeFileSync(out, JSON.stringify({ engine: engineOf(name), component: name, runs: S.runs, evaluations: S.evals, wall_s: (Date.now() - t0) / 1000, sim_ns: S.simMs * 1e6, syscalls: S.steps, context_switches: S.switches, faults: S.faults, probes: S.probes, trace_hashes: [...S.traces].slice(0, 100000), schedule_hashes: [...S.scheds].slice(0, 100000), nontrivial_hashes: [...S.nontrivial].slice(0, 100000), samples: S.samples, violations: S.viols, known: Object.values(S.known), audit_hashes: S.hashes, audit_mismatch: S.bad }));
      if (S.bad.length) { console.error(`determinism audit failed for runs ${S.bad} of ${name}`); done(2); }
      else done(S.viols.length ? 1 : 0);
    }
  } else { console.error("usage: list | run ... | replay FILE"); done(2); }
}
