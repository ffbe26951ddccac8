// The web playground (docs/src): its real page and component, on a small React, in a simulated browser tab, with a
// simulated person in front of it who uploads, types, clicks, waits for what the page shows and judges it.
import { Sched, Proc, ensure, Violation, programBytes, errText, hex, within as inCall } from "./sim.mjs";
import { makeReact, textOf, within } from "./react.mjs";
import * as G from "./gen.mjs";

const te = new TextEncoder();
const td = new TextDecoder();
const ROOT = "@docs/pages/playground.tsx";

// ---------------------------------------------------------------- sudoku
const BOX = (i) => Math.floor(i / 27) * 3 + Math.floor((i % 9) / 3);
function clash(g) {
  for (const unit of [(i) => Math.floor(i / 9), (i) => i % 9, BOX]) {
    const seen = new Set();
    for (let i = 0; i < 81; i++) if (g[i]) { const k = unit(i) * 10 + g[i]; if (seen.has(k)) return true; seen.add(k); }
  }
  return false;
}
const solved = (puzzle, s) => s.length === 81 && s.every((v) => v >= 1 && v <= 9) && !clash(s) && puzzle.every((p, i) => p === 0 || p === s[i]);
function solve(puzzle) {
  if (puzzle.length !== 81 || clash(puzzle)) return null;
  const g = puzzle.slice();
  let budget = 20000;
  const go = () => {
    if (--budget < 0) return false;
    let best = -1, opts = null;
    for (let i = 0; i < 81; i++) {
      if (g[i]) continue;
      const used = new Set();
      for (let k = 0; k < 9; k++) { used.add(g[Math.floor(i / 9) * 9 + k]); used.add(g[k * 9 + (i % 9)]); used.add(g[(Math.floor(i / 27) * 3 + Math.floor(k / 3)) * 9 + Math.floor((i % 9) / 3) * 3 + (k % 3)]); }
      const o = [1, 2, 3, 4, 5, 6, 7, 8, 9].filter((v) => !used.has(v));
      if (!o.length) return false;
      if (!opts || o.length < opts.length) { best = i; opts = o; if (o.length === 1) break; }
    }
    if (best < 0) return true;
    for (const v of opts) { g[best] = v; if (go()) return true; }
    g[best] = 0;
    return false;
  };
  return go() ? g : null;
}
function newPuzzle(r) {
  const perm = [1, 2, 3, 4, 5, 6, 7, 8, 9];
  for (let i = 8; i > 0; i--) { const j = r.below(i + 1); [perm[i], perm[j]] = [perm[j], perm[i]]; }
  const g = Array.from({ length: 81 }, (_, i) => perm[(Math.floor(i / 9) * 3 + Math.floor(i / 27) + (i % 9)) % 9]);
  const blanks = 1 + r.below(r.below(3) ? 6 : 40);
  for (let i = 0; i < blanks; i++) g[r.below(81)] = 0;
  return g;
}
function sudokuCircuit(t, kem) {
  const groups = [{ name: "puzzle", dims: [81], kind: "pub", wire: 1, size: 81 }, { name: "solution", dims: [81], kind: "prv", wire: 82, size: 81 }];
  const c = { p: G.P, groups, nOut: 0, nPub: 81, nPrv: 81, nMid: 0, nWires: 163, cons: [], used: new Set(), steps: [], asserts: [] };
  // a given number is the solution's: puzzle * (solution - puzzle) = 0
  for (let i = 0; i < 81; i++) c.cons.push([[[1 + i, 1n]], [[82 + i, 1n], [1 + i, G.P - 1n]], []]);
  const r1cs = kem.register(c), prog = G.program(c);
  const num = (v) => v.map(Number);
  prog.run = (vals) => (solved(num(vals.slice(0, 81)), num(vals.slice(81))) ? G.witnessOf(c, vals) : { assert: "Error in template Sudoku_1 line: 30" });
  return { c, r1cs, sym: G.symOf(t, c), wasm: programBytes(prog), publics: (puzzle) => puzzle.map(BigInt) };
}

// ---------------------------------------------------------------- a browser tab
class Tab {
  constructor(ctx, sched, kem, name, site, rates) {
    const t = ctx.tape;
    Object.assign(this, { ctx, sched, name, site, rates, downloads: [], urls: new Map(), fetched: { asked: 0, open: 0, ok: 0, bad: 0 }, root: null });
    this.numbers = t.prngFrom();
    this.proc = new Proc(sched, {
      entropySeed: t.choose(0x7fffffff), kem, faults: rates, initPlan: () => "slow", initDelay: t.pick([0, 0, 40]), preferJs: [],
      fetch: (url, o) => { this.kept.push(String(url?.url ?? url), String(o?.body ?? "")); return this.fetch(String(url?.url ?? url)); }, external: (s) => this.external(s),
    });
    this.react = makeReact(sched, `tab ${name}`);
    const g = this.proc.globals, tab = this;
    class Blob_ {
      constructor(parts = [], o = {}) { this.bytes = G.catAll(parts.map((p) => (typeof p === "string" ? te.encode(p) : p instanceof Blob_ ? p.bytes : bytes(p)))); this.type = o.type ?? ""; this.size = this.bytes.length; }
      arrayBuffer() { return tab.read(this, (b) => copy(b).buffer); }
      text() { return tab.read(this, (b) => td.decode(b)); }
      slice(a, b, type) { return new Blob_([this.bytes.slice(a, b)], { type }); }
    }
    class Reader {
      constructor() { Object.assign(this, { result: null, error: null, readyState: 0, listeners: {} }); }
      addEventListener(k, f) { (this.listeners[k] ??= []).push(f); }
      removeEventListener(k, f) { this.listeners[k] = (this.listeners[k] ?? []).filter((x) => x !== f); }
      emit(type) {
        const e = { type, target: this, currentTarget: this };
        const fs = [this["on" + type], ...(this.listeners[type] ?? [])];
        for (const f of fs) if (f) { try { f.call(this, e); } catch (x) { if (x instanceof Violation) throw x; tab.ctx.log(`on${type} throws ${x?.message}`); } }
      }
      start(file, conv) {
        if (this.readyState === 1) throw new Error("InvalidStateError");
        this.readyState = 1;
        const delay = tab.ctx.tape.pick([0, 0, 1, 5, 40, 400]);
        this.step = tab.sched.event(`read ${file.name}`, () => {
          this.readyState = 2;
          if (tab.proc.hit("file_read")) { file.failed = true; this.error = new Error("NotReadableError"); this.emit("error"); } else { this.result = conv(file.bytes); file.loaded = true; this.emit("load"); }
          this.emit("loadend");
        }, delay);
      }
      readAsArrayBuffer(f) { this.start(f, (b) => copy(b).buffer); }
      readAsText(f) { this.start(f, (b) => td.decode(b)); }
      abort() { if (this.step) tab.sched.cancel(this.step); this.readyState = 2; }
    }
    this.Blob = Blob_;
    const anchor = (tag) => ({
      tagName: tag.toUpperCase(), style: {}, attrs: {}, setAttribute(k, v) { this[k] = v; }, appendChild() {}, remove() {}, addEventListener() {}, dispatchEvent() { this.click(); },
      click() { if (tag === "a") { const b = tab.urls.get(this.href); ctx.log(`download ${this.download}: ${b ? b.size + " bytes" : "nothing"}`); tab.downloads.push({ name: this.download, bytes: b ? copy(b.bytes) : null }); } },
    });
    const U = class extends URL {
      static createObjectURL(b) { const u = `blob:${tab.name}/${tab.urls.size + 1}`; tab.urls.set(u, b); return u; }
      static revokeObjectURL(u) { tab.urls.set(u, null); }
    };
    const body = { appendChild() {}, removeChild() {}, append() {} };
    const own = {
      Blob: Blob_, File: Blob_, FileReader: Reader, URL: U,
      document: { createElement: anchor, body, documentElement: body, head: body, addEventListener() {}, removeEventListener() {}, getElementById: () => null, querySelector: () => null },
      alert: (m) => ctx.log(`alert ${m}`), navigator: { userAgent: "sim", clipboard: { writeText: async () => {} } }, location: { href: "https://zkenc.example/playground", pathname: "/playground", search: "", hash: "" },
    };
    this.kept = []; // what the page stores in the browser or sends away
    const storage = () => { const m = new Map(); return { getItem: (k) => m.get(String(k)) ?? null, setItem: (k, v) => { m.set(String(k), String(v)); this.kept.push(`${k}=${v}`); }, removeItem: (k) => m.delete(String(k)), clear: () => m.clear() }; };
    own.localStorage = storage();
    own.sessionStorage = storage();
    for (const [k, v] of Object.entries(own)) Object.defineProperty(g, k, { value: v, writable: true, configurable: true });
  }
  read(file, conv) {
    return this.sched.step(`read ${file.name ?? "blob"}`, () => {
      if (this.proc.hit("file_read")) { file.failed = true; throw new Error("NotReadableError"); }
      file.loaded = true;
      return conv(file.bytes);
    });
  }
  file(name, b) { const f = new this.Blob([b]); f.name = name; f.lastModified = 0; return f; }
  fetch(url) {
    const path = url.replace(/^https?:\/\/[^/]+/, "").replace(/[?#].*/, "");
    const delay = this.ctx.tape.pick([0, 5, 30, 300, 2000]);
    const count = this.fetched; // of this visit to the page
    count.asked++;
    count.open++;
    return this.sched.step(`fetch ${path}`, () => {
      count.open--;
      if (this.proc.hit("fetch_fail")) { count.bad++; throw new TypeError("Failed to fetch"); }
      const found = this.site[path], busy = this.proc.hit("fetch_status");
      if (busy || !found) count.bad++;
      const status = busy ? 503 : found ? 200 : 404;
      const data = status === 200 ? found : te.encode("<html>error</html>");
      const body = (what, conv) => (count.open++, this.sched.step(`body ${what} ${path}`, () => {
        count.open--;
        if (this.proc.hit("fetch_cut")) { count.bad++; throw new TypeError("network error"); }
        if (status === 200) count.ok++;
        return conv(data);
      }, this.ctx.tape.pick([0, 0, 20, 500])));
      const r = {
        ok: status === 200, status, statusText: String(status), url, redirected: false, type: "basic", bodyUsed: false, headers: new Map([["content-length", String(data.length)]]),
        arrayBuffer: () => body("bytes", (b) => copy(b).buffer), bytes: () => body("bytes", copy), text: () => body("text", (b) => td.decode(b)),
        json: () => body("json", (b) => JSON.parse(td.decode(b))), blob: () => body("blob", (b) => new this.Blob([b])), clone() { return r; },
      };
      return r;
    }, delay);
  }
  external(spec) {
    const { React, runtime, createElement } = this.react, r = this.numbers;
    const fill = (s, values) => String(s).replace(/\{(\w+)\}/g, (x, k) => (values && k in values ? String(values[k]) : x));
    const kids = (c) => [c].flat(Infinity).filter((x) => x !== undefined && x !== null).map(String).join("");
    switch (spec) {
      case "react": return React;
      case "react/jsx-runtime": case "react/jsx-dev-runtime": return runtime;
      case "react-dom": return { __esModule: true, flushSync: (f) => { const x = f(); this.root.flush(true); return x; }, unstable_batchedUpdates: (f) => f(), default: {} };
      case "zkenc-js": return this.proc.load("index.ts");
      case "@docusaurus/Translate": return { __esModule: true, default: ({ id, children, values }) => createElement("tr", { id }, fill(kids(children), values)), translate: ({ message, id }, values) => fill(message ?? id, values), Translate: null };
      case "@docusaurus/useBaseUrl": return { __esModule: true, default: (u) => u, useBaseUrlUtils: () => ({ withBaseUrl: (u) => u }) };
      case "@docusaurus/BrowserOnly": return { __esModule: true, default: ({ children }) => children() };
      case "@docusaurus/Link": return { __esModule: true, default: (p) => createElement("a", p) };
      case "@theme/Layout": return { __esModule: true, default: ({ children }) => createElement("main", {}, children) };
      case "clsx": return { __esModule: true, default: (...a) => a.filter((x) => typeof x === "string").join(" ") };
      case "@forfuns/sudoku": return {
        __esModule: true, generator: () => newPuzzle(r).map((v) => v || -1),
        Sudoku: class { constructor(p) { this.p = p.slice(); } getSolution() { const s = solve(this.p.map((v) => (v === -1 ? 0 : v))); if (!s) throw new Error("no solution"); return s; } },
      };
      default:
        if (/\.(css|scss)$/.test(spec)) return { __esModule: true, default: new Proxy({}, { get: (_, k) => (typeof k === "string" ? k : undefined) }) };
        return undefined;
    }
  }
  open() {
    const mod = this.proc.load(ROOT);
    this.fetched = { asked: 0, open: 0, ok: 0, bad: 0 };
    this.root = new this.react.Root(this.react.createElement(mod.default, {}));
  }
  close() { this.root.unmount(); }
  // -------------------------------------------------------------- what a person sees
  nodes(f) { return [...this.root.nodes()].filter(f); }
  trs(re) { return this.nodes((n) => n.type === "tr" && re.test(n.props.id ?? "")); }
  shows(re) { return this.trs(re).length > 0; }
  /** The page has all it asked for (it may ask for nothing if it still has it from an earlier visit). */
  get here() { return this.fetched.open === 0 && this.fetched.ok >= this.fetched.asked && this.root.settled; }
  button(re) { return this.nodes((n) => n.type === "button").find((n) => [...within(n)].some((m) => m.type === "tr" && re.test(m.props.id ?? ""))); }
  areas() { return this.nodes((n) => n.type === "textarea"); }
  cells() { return this.nodes((n) => n.type === "input" && n.props.type === "text"); }
  fileInput(ext, k = 0) { return this.nodes((n) => n.type === "input" && n.props.type === "file" && String(n.props.accept ?? "").includes(ext))[k]; }
  checkbox() { return this.nodes((n) => n.type === "input" && n.props.type === "checkbox")[0]; }
  error() { const n = this.nodes((n) => /(^| )error( |$)/.test(String(n.props.className ?? "")) || n.props.role === "alert")[0]; return n ? textOf(n) : null; }
  message() { const n = this.nodes((n) => n.type === "pre")[0]; return n ? textOf(n) : null; }
  busy() { return this.shows(/(encrypting|decrypting|solving)$/); }
  get tab() { return this.shows(/^playground\.custom\./) ? "custom" : this.shows(/^playground\.sudoku\./) ? "sudoku" : null; }
  get mode() { return this.shows(/\.encrypt\.step1$/) ? "encrypt" : this.shows(/\.decrypt\.step1$/) ? "decrypt" : null; }
  digits(from) { return this.cells().slice(from, from + 81).map((n) => (n.props.value === "" ? 0 : Number(n.props.value))); }
}
const bytes = (x) => (x instanceof ArrayBuffer ? new Uint8Array(x) : new Uint8Array(x.buffer, x.byteOffset, x.byteLength));
const copy = (x) => Uint8Array.from(x);

// ---------------------------------------------------------------- the person
const WORDS = ["hello", " ", "secret", "é", "密码", "🔑", "\n", "{\"a\":1}", "0", "<b>", "\t", "\u2028", "e\u0301", "%", "\\u0041"];
function text(t) {
  const n = t.pick([1, 1, 2, 5, 5, 20, 300, 300, 300, 3000]);
  const words = t.chance(1, 4) ? [t.pick(WORDS)] : WORDS;
  let s = "";
  const r = t.prngFrom();
  for (let i = 0; i < n; i++) s += words[r.below(words.length)];
  return s;
}
class Person {
  constructor(ctx, sched, tab, world) {
    Object.assign(this, { ctx, sched, tab, world, t: ctx.tape, waits: world.waits, made: { sudoku: null, custom: null }, circuit: null, tries: [] });
  }
  /** Do something to the page as it is then; f gets to look at the page and does nothing if it is not what it was. */
  act(what, f) {
    const { tab } = this;
    return this.sched.step(`${tab.name}: ${what}`, () => {
      if (tab.root.gone || tab.root.crashed) return undefined;
      let r;
      tab.root.event(() => { r = f(tab); });
      return r;
    }, what.includes(" cell ") ? 0 : this.t.pick([0, 0, 1, 20, 300, 3000]));
  }
  until(cond, what) {
    const ok = () => { const { crashed } = this.tab.root; if (crashed) throw new Violation("page_crashed", `the page goes blank: ${errText(crashed)}`); return cond(); };
    if (ok()) return Promise.resolve();
    return new Promise((res, rej) => this.waits.push({ ok, res, rej, what: `${this.tab.name}: ${what}` }));
  }
  click(re, what, call) {
    return this.act(what ?? `click ${re}`, (tab) => {
      const b = tab.button(re);
      if (!b || b.props.disabled) return false;
      const go = () => b.props.onClick?.(ev({}));
      if (call) inCall(call, go); else go();
      return true;
    });
  }
  async press(re, what, call) {
    for (let i = 0; i < 40; i++) {
      await this.until(() => { const b = this.tab.button(re); return b && !b.props.disabled; }, `${what} can be pressed`);
      if (await this.click(re, what, call)) return;
    }
    throw new Violation("page_stuck", `${what} is never enabled for long`);
  }
  async goto(tab, mode) {
    await this.until(() => this.tab.tab, "the page is there");
    for (let i = 0; i < 40; i++) {
      if (this.tab.tab !== tab) await this.click(new RegExp(`tabs\\.${tab}$`), `tab ${tab}`);
      else if (this.tab.mode !== mode) await this.click(new RegExp(`mode\\.${mode}$`), `mode ${mode}`);
      else return;
    }
    throw new Violation("page_stuck", `cannot get to ${tab}/${mode}`);
  }
  async type(find, value, what) {
    await this.act(`type ${what}`, (tab) => { const n = find(tab); if (n && !n.props.disabled) n.props.onChange?.(ev({ value })); });
    const n = find(this.tab);
    ensure(n && String(n.props.value) === value, "input_lost", () => `${what}: typed ${JSON.stringify(value.slice(0, 40))}, shown ${JSON.stringify(String(n?.props.value).slice(0, 40))}`);
  }
  /** Choose a file; resolves to true once the page has it, false if it could not be read. */
  async choose(ext, k, name, data, shown, what) {
    for (let i = 0; i < 12; i++) {
      const f = this.tab.file(name, data);
      const n = this.tab.fileInput(ext, k);
      ensure(n, "no_way_to_upload", () => `there is no way to upload ${what} (${ext})`);
      await this.act(`choose ${name}`, (tab) => { tab.fileInput(ext, k)?.props.onChange?.(ev({ files: [f], value: "C:\\fakepath\\" + name })); });
      await this.until(() => f.failed || (f.loaded && this.tab.root.settled), `${what} is read`);
      if (f.failed) { this.ctx.probe("upload_failed"); continue; }
      await this.until(() => this.tab.root.settled, "rendered");
      if (shown) await this.until(() => shown(this.tab), `the page shows that it has ${what}`);
      return;
    }
  }
  async circuits(ci) {
    // in any order, all at once or one after the other
    const t = this.t, loaded = (re, n) => (tab) => tab.trs(re).some((x) => textOf(x).includes(String(n)));
    const all = [[".r1cs", ci.r1cs, /r1csLoaded$/, ci.r1cs.length], [".wasm", ci.wasm, /wasmLoaded$/, ci.wasm.length]];
    if (this.tab.fileInput(".sym")) all.push([".sym", te.encode(ci.sym), null, 0]);
    t.shuffle(all);
    const one = ([ext, data, re, n]) => this.choose(ext, 0, "circuit" + ext, data, re && loaded(re, n), ext + " file");
    if (t.chance(2, 3)) await Promise.all(all.map(one));
    else for (const x of all) await one(x);
    this.circuit = ci;
    if (this.tab.mode === "encrypt") this.sym = ci;
  }
  /** While the page works: things that must not matter to the work in flight. */
  meddle() {
    const t = this.t, n = t.pick([0, 0, 1, 3]);
    for (let i = 0; i < n; i++) {
      const what = t.choose(5);
      this.sched.event(`${this.tab.name}: meddles`, () => {
        const { tab } = this;
        if (!tab.busy() || tab.root.gone || tab.root.crashed) return;
        this.ctx.probe("edited_while_busy");
        tab.root.event(() => {
          if (what === 0) { const a = tab.areas(); if (a.length) a[a.length - 1].props.onChange?.(ev({ value: a[a.length - 1].props.value + "x" })); }
          else if (what === 1) tab.checkbox()?.props.onChange?.(ev({ checked: !tab.checkbox().props.checked }));
          else if (what === 2) tab.button(tab.mode === "encrypt" ? /mode\.decrypt$/ : /mode\.encrypt$/)?.props.onClick?.(ev({}));
          else if (what === 3) { const b = tab.button(/(encryptButton|encrypting|decryptButton|decrypting)$/); if (b && !b.props.disabled) b.props.onClick?.(ev({})); }
          else { const c = tab.cells().filter((x) => !x.props.disabled); if (c.length) c[c.length - 1].props.onChange?.(ev({ value: "" })); }
        });
      }, t.pick([0, 0, 1, 10]));
    }
  }
  /** Where downloads may fail, the page's error line could otherwise be about those. */
  async quiet() {
    const { rates } = this.tab;
    if (rates.fetch_fail || rates.fetch_status || rates.fetch_cut) await this.until(() => this.tab.fetched.open === 0 && this.tab.root.settled, "downloads end");
  }
  async outcome(kind, tab) {
    await this.until(() => this.tab.root.settled && !this.tab.busy(), `${kind} ends`);
    await this.goto(tab, kind);
  }
  /** Press Encrypt; returns the package downloaded, or null. want: what it has to be. */
  async encrypt(name, want, ok) {
    const call = { name: `${this.tab.name} encrypt`, faults: [] };
    const before = this.made[name];
    await this.quiet();
    await this.press(new RegExp(`${name}\\.encrypt\\.(encryptButton|encrypting)$`), "Encrypt", call);
    this.meddle();
    await this.outcome("encrypt", name);
    const err = this.tab.error();
    this.ctx.evals++;
    const n = this.tab.downloads.length;
    let got = null;
    if (this.tab.button(/\.encrypt\.download/)) {
      await this.press(/\.encrypt\.download/, "Download");
      ensure(this.tab.downloads.length === n + 1 && this.tab.downloads[n].bytes, "download_empty", "pressing Download downloads nothing");
      got = this.tab.downloads[n].bytes;
    }
    if (err !== null) {
      ensure(call.faults.length || !ok, "encrypt_fails", () => `encryption on the page (${name}) fails although nothing went wrong: ${err}`);
      ensure((got === null) === (before === null) && (!got || G.eq(got, before.bytes)), "failed_package", "after a failed encryption the page offers another package than before");
      this.ctx.probe("encrypt_error");
      return null;
    }
    ensure(ok !== false, "encrypt_succeeds", () => `encryption on the page (${name}) reports success although it cannot have worked`);
    ensure(got !== null, "no_package", () => `the page (${name}) shows neither an error nor a package`);
    ensure(!before || !G.eq(got, before.bytes), "old_package", () => `the page (${name}) offers the package of an earlier encryption`);
    this.world.check(got, want);
    ensure(this.tab.trs(/\.encrypt\.ciphertextSize$/).every((x) => textOf(x).includes(String(got.length))), "size_shown", "the size shown is not that of the package");
    this.made[name] = { bytes: got, want };
    this.ctx.probe("encrypted_" + name);
    return this.made[name];
  }
  /** Press Decrypt; what: the message it has to show, or null for an error. */
  async decrypt(name, message, maybe) {
    const call = { name: `${this.tab.name} decrypt`, faults: [] };
    await this.quiet();
    await this.press(new RegExp(`${name}\\.decrypt\\.(decryptButton|decrypting)$`), "Decrypt", call);
    this.meddle();
    await this.outcome("decrypt", name);
    const err = this.tab.error(), got = this.tab.message();
    this.ctx.evals++;
    if (message === null) {
      ensure(err !== null && got === null, "decrypt_succeeds", () => `decryption on the page (${name}) must fail; it shows ${got === null ? "nothing" : "the message " + JSON.stringify(got.slice(0, 40))}${err === null ? "" : " and the error " + err}`);
      this.ctx.probe("decrypt_refused");
      return true;
    }
    if (err !== null) {
      ensure(call.faults.length || maybe, "decrypt_fails", () => `decryption on the page (${name}) fails although nothing went wrong: ${err}`);
      ensure(got === null, "message_and_error", "the page shows a message together with an error");
      this.ctx.probe("decrypt_error");
      return false;
    }
    ensure(got !== null, "no_message", () => `the page (${name}) shows neither an error nor a message`);
    if (message !== "") ensure(got === message, "wrong_message", () => `the page (${name}) shows ${JSON.stringify(got.slice(0, 60))} instead of ${JSON.stringify(message.slice(0, 60))}`);
    this.ctx.probe("decrypted_" + name);
    return true;
  }
  // -------------------------------------------------------------- what people do
  async sudokuEncrypt() {
    const t = this.t, { tab, world } = this;
    await this.goto("sudoku", "encrypt");
    if (t.chance(1, 2)) await this.press(/generateButton$/, "Generate");
    await this.until(() => tab.cells().length === 81, "a puzzle is there");
    for (let k = t.pick([0, 0, 1, 2]); k > 0; k--) {
      const i = t.choose(81);
      await this.type((x) => x.cells()[i], t.chance(2, 3) ? "" : "5", `cell ${i}`);
    }
    const msg = text(t);
    await this.type((x) => x.areas()[0], msg, "message");
    const puzzle = tab.digits(0);
    // the circuit may still be on its way
    for (let i = 0; i < 12; i++) {
      if (tab.fetched.bad && t.chance(1, 2)) break;
      const ready = tab.here;
      if (!ready && !tab.fetched.bad && t.chance(1, 2)) { await this.until(() => tab.fetched.bad || tab.here, "the circuit is loaded"); continue; }
      const r = await this.encrypt("sudoku", { embed: true, c: world.sudoku.c, pubs: puzzle.map(BigInt), message: te.encode(msg), inputs: { puzzle } }, ready && !tab.fetched.bad ? true : undefined);
      if (r) { world.box.push({ kind: "sudoku", bytes: r.bytes, puzzle, msg, embed: true }); return; }
      // "not loaded yet", or a fault: once more; meddling may have changed the fields
      await this.goto("sudoku", "encrypt");
      await this.type((x) => x.areas()[0], msg, "message");
      if (!G.deepEq(tab.digits(0), puzzle)) return;
    }
  }
  async sudokuDecrypt(o) {
    const t = this.t, { tab, world } = this;
    await this.goto("sudoku", "decrypt");
    const mine = !o;
    o ??= this.last;
    if (!o) return;
    let bytes = o.bytes, damaged = false;
    if (!mine) {
      if (t.chance(1, 6)) { bytes = copy(bytes); bytes[bytes.length - 1 - t.choose(20)] ^= 1 << t.choose(8); damaged = true; }
      await this.choose(".bin", 0, "package.bin", bytes, (x) => x.trs(/ciphertextLoaded$/).some((y) => textOf(y).includes(String(bytes.length))), "package");
      await this.goto("sudoku", "decrypt");
      this.last = damaged ? null : o;
      if (o.odd) {
        // made for something else: the page stays as it was, and what it holds is not for this circuit
        ensure(tab.cells().length === 162 && tab.digits(0).every((v) => v >= 0 && v <= 9), "page_spoilt", () => `after a package with the inputs ${o.odd.slice(0, 60)} the page shows ${tab.cells().length} cells`);
        this.last = null;
        this.ctx.probe("odd_package");
        return;
      }
      if (o.embed) ensure(G.deepEq(tab.digits(0), o.puzzle), "puzzle_not_filled_in", () => `the puzzle shown is not the one in the package: ${tab.digits(0).join("")} instead of ${o.puzzle.join("")}`);
    }
    if (!G.deepEq(tab.digits(0), o.puzzle)) {
      // fill the puzzle in by hand
      for (let i = 0; i < 81; i++) if (tab.digits(0)[i] !== o.puzzle[i]) await this.type((x) => x.cells()[i], o.puzzle[i] ? String(o.puzzle[i]) : "", `cell ${i}`);
    }
    const sol = solve(o.puzzle);
    const blanks = o.puzzle.map((v, i) => (v ? -1 : i)).filter((i) => i >= 0);
    const clean = o.puzzle.every((v, i) => !v || tab.digits(81)[i] === v); // else it still holds the solution of another puzzle
    const by = sol && clean && blanks.length <= 8 && t.chance(1, 2) ? "hand" : "solver";
    if (by === "hand") {
      t.shuffle(blanks);
      for (const i of blanks) await this.type((x) => x.cells()[81 + i], String(sol[i]), `solution cell ${i}`);
    } else await this.press(/(autoSolveButton|solving)$/, "Solve");
    await this.until(() => tab.root.settled, "rendered");
    if (t.chance(1, 4) && blanks.length) {
      const i = blanks[t.choose(blanks.length)], v = tab.digits(81)[i];
      await this.type((x) => x.cells()[81 + i], t.chance(1, 4) ? "" : String((v % 9) + 1), `solution cell ${i}`);
    }
    const puzzle = tab.digits(0), solution = tab.digits(81);
    if (by === "hand" && G.deepEq(puzzle, o.puzzle)) ensure(o.puzzle.every((v, i) => !v || solution[i] === v), "given_number_lost", "a given number of the puzzle changed in the solution grid");
    if (!blanks.length && by === "hand") return; // nothing filled in: no solution yet
    const ready = tab.here;
    if (!ready) await this.until(() => tab.fetched.bad || tab.here, "the circuit is loaded");
    const fine = !damaged && G.deepEq(puzzle, o.puzzle) && solved(puzzle, solution);
    await this.decrypt("sudoku", fine ? o.msg : null, tab.fetched.bad > 0);
  }
  async writeJson(at, name, obj, what) {
    const t = this.t, s = JSON.stringify(obj, null, t.pick([undefined, 1, 2]));
    if (t.chance(1, 3)) {
      const k = at; // the first .json input belongs to the first text field, the second to the second
      if (t.chance(1, 8)) {
        const was = this.tab.areas()[at].props.value;
        await this.choose(".json", k, "bad.json", te.encode(s.slice(0, -1)), (x) => x.error() !== null || this.tab.mode !== "encrypt", "bad JSON");
        ensure(this.tab.areas()[at].props.value === was, "bad_json_taken", "an unreadable JSON file changed the inputs");
      }
      await this.choose(".json", k, name + ".json", te.encode(s), (x) => { try { return G.deepEq(JSON.parse(x.areas()[at].props.value), obj); } catch { return false; } }, what);
    } else await this.type((x) => x.areas()[at], s, what);
  }
  async customEncrypt() {
    const t = this.t, { tab, world } = this;
    await this.goto("custom", "encrypt");
    const ci = t.pick(world.customs);
    if (this.circuit !== ci || this.sym !== ci || t.chance(1, 4)) await this.circuits(ci);
    let vals = ci.vals;
    if (t.chance(1, 2)) { vals = vals.slice(); const j = t.choose(ci.c.nPub + ci.c.nPrv); if (!ci.c.asserts.some((a) => a.i === j)) vals[j] = G.genElem(t); }
    const inputs = G.inputsOf(t, ci.c, vals, "public", { shuffle: true, negative: t.chance(1, 4) });
    const broken = t.chance(1, 8);
    await this.writeJson(0, "public", inputs, "public inputs");
    if (broken) await this.type((x) => x.areas()[0], t.pick(["{", "{\"zz\": 1}", "no json"]), "bad public inputs");
    const msg = text(t);
    await this.type((x) => x.areas()[1], msg, "message");
    const embed = t.chance(1, 2);
    if (tab.checkbox().props.checked !== embed) {
      await this.act("check box", (x) => x.checkbox().props.onChange?.(ev({ checked: embed })));
      ensure(tab.checkbox().props.checked === embed, "input_lost", "the check box does not change");
    }
    if (broken) { await this.encrypt("custom", null, tab.areas()[0].props.value.includes("zz") && ci.c.nPub + ci.c.nOut === 0 ? undefined : false); return; }
    for (let i = 0; i < 6; i++) {
      const r = await this.encrypt("custom", { embed, c: ci.c, pubs: G.publicOf(ci.c, vals), message: te.encode(msg), inputs }, true);
      if (r) { this.lastCustom = { kind: "custom", bytes: r.bytes, ci, vals, inputs, msg, embed }; world.box.push(this.lastCustom); return; }
      await this.goto("custom", "encrypt");
      await this.type((x) => x.areas()[0], JSON.stringify(inputs), "public inputs");
      await this.type((x) => x.areas()[1], msg, "message");
      if (tab.checkbox().props.checked !== embed) await this.act("check box", (x) => x.checkbox().props.onChange?.(ev({ checked: embed })));
    }
  }
  async customDecrypt(o) {
    const t = this.t, { tab } = this;
    await this.goto("custom", "decrypt");
    const mine = !o;
    o ??= this.lastCustom;
    if (!o) return;
    if (this.circuit !== o.ci) await this.circuits(o.ci);
    let damaged = false;
    if (!mine) {
      let bytes = o.bytes;
      if (t.chance(1, 6)) { bytes = copy(bytes); bytes[bytes.length - 1 - t.choose(20)] ^= 1 << t.choose(8); damaged = true; }
      await this.choose(".bin", 0, "package.bin", bytes, (x) => x.trs(/ciphertextLoaded$/).some((y) => textOf(y).includes(String(bytes.length))), "package");
      await this.goto("custom", "decrypt");
      this.lastCustom = damaged ? null : o;
      this.made.custom = { bytes }; // the encryption side of the tab offers it, too
      let shown = null;
      try { shown = JSON.parse(tab.areas()[0].props.value); } catch {}
      if (o.embed) ensure(G.deepEq(shown, o.inputs), "public_not_filled_in", () => `the public inputs shown are not those in the package: ${tab.areas()[0].props.value.slice(0, 100)}`);
    }
    const full = G.inputsOf(t, o.ci.c, o.vals, "full", { shuffle: true, negative: t.chance(1, 4) });
    const prv = Object.fromEntries(Object.entries(full).filter(([k]) => o.ci.c.groups.find((g) => g.name === k).kind === "prv"));
    const pub = Object.fromEntries(Object.entries(full).filter(([k]) => !Object.prototype.hasOwnProperty.call(prv, k)));
    const outs = o.ci.c.groups.some((g) => g.kind === "out"); // a program takes no outputs: the inputs are given in full
    let wrong = false;
    const how = outs ? 2 : t.choose(4);
    if (how === 0) {
      // everything in the first field
      await this.writeJson(0, "all", full, "all inputs");
      await this.type((x) => x.areas()[1], "", "private inputs");
    } else if (how === 1) {
      await this.writeJson(0, "public", pub, "public inputs");
      await this.writeJson(1, "private", prv, "private inputs");
    } else {
      if (t.chance(1, 4) && !outs) { const k = Object.keys(prv)[0]; delete full[k]; wrong = true; }
      // what the second field says counts, whatever still stands in the first
      const stale = !outs && !wrong && t.chance(1, 3);
      await this.writeJson(0, "public", outs ? {} : stale ? Object.fromEntries(Object.keys(pub).map((k) => [k, t.pick([0, "1", [], [[7]]])])) : pub, "public inputs");
      await this.writeJson(1, "private", full, "all inputs");
    }
    await this.decrypt("custom", wrong || damaged ? null : o.msg);
  }
  async live(goals) {
    const t = this.t, { tab, world } = this;
    tab.open();
    for (let i = 0; i < goals; i++) {
      const of = (kind) => { const l = world.box.filter((x) => x.kind === kind); return l.length && t.chance(3, 4) ? t.pick(l) : null; };
      switch (t.choose(9)) {
        case 0: case 1: await this.sudokuEncrypt(); this.freshen("sudoku"); break;
        case 2: case 3: await this.sudokuDecrypt(of("sudoku")); break;
        case 4: case 5: await this.customEncrypt(); break;
        case 6: case 7: await this.customDecrypt(of("custom")); break;
        default:
          if (t.chance(1, 2)) break;
          await this.act("leaves the page", () => {});
          tab.close();
          this.made = { sudoku: null, custom: null };
          this.circuit = this.sym = this.last = this.lastCustom = null;
          this.ctx.probe("page_reopened");
          tab.open();
      }
    }
  }
  /** What has just been made here is what the page decrypts next. */
  freshen() { const l = this.world.box.filter((x) => x.kind === "sudoku" && this.made.sudoku && G.eq(x.bytes, this.made.sudoku.bytes)); if (l.length) this.last = l[l.length - 1]; }
}
function ev(target) {
  const e = { target, currentTarget: target, type: "", preventDefault() {}, stopPropagation() {}, persist() {}, nativeEvent: {} };
  if (target.value === undefined) target.value = "";
  return e;
}
/** Public inputs of other circuits than the sudoku's. */
const ODD = ['{"puzzle":[1,2,3]}', '{"puzzle":[]}', '{"puzzle":"123"}', '{"puzzle":{"a":1}}', "[]", "null", '"x"', "5", '{"root":"7","puzzle":[[1,2],[3,4]]}',
  JSON.stringify({ puzzle: Array(81).fill({ a: 1 }) }), JSON.stringify({ puzzle: Array(81).fill("300") }), JSON.stringify({ puzzle: Array(82).fill(1) })];
/** C20 */
export async function page(ctx) {
  const t = ctx.tape;
  const kem = new G.StubKem(ctx), sched = new Sched(ctx);
  sched.limit = 60000;
  ctx.browser = true; // a promise rejected with nobody listening is a line in the browser's console
  const on = t.chance(1, 2), rates = {};
  for (const k of ["chunk_load", "entropy_fail", "import_key", "subtle_encrypt", "subtle_decrypt", "wasm_compile", "wasm_instantiate", "wasm_trap"]) rates[k] = on ? t.pick([0, 0, 20, 60]) : 0;
  for (const k of ["file_read", "fetch_fail", "fetch_status", "fetch_cut"]) rates[k] = on ? t.pick([0, 0, 30, 100]) : 0;
  rates.chunk_load = 0; // the page's own chunk: what happens then is the site's affair
  const sudoku = sudokuCircuit(t, kem);
  const customs = Array.from({ length: 1 + t.choose(2) }, () => {
    const c = G.genCircuit(t, {});
    const vals = G.genVals(t, c);
    if (t.chance(1, 2)) G.addAssert(t, c, vals);
    const r1cs = kem.register(c);
    return { c, vals, r1cs, sym: G.symOf(t, c, { shuffle: t.chance(1, 3) }), wasm: programBytes(G.program(c)) };
  });
  const site = { "/circuits/sudoku.r1cs": sudoku.r1cs, "/circuits/sudoku.wasm": sudoku.wasm, "/circuits/sudoku.sym": te.encode(sudoku.sym) };
  const world = {
    sudoku, customs, box: [], waits: [],
    check(bytes, want) {
      let p;
      try { p = G.unpackPackage(bytes); } catch (e) { throw new Violation("package_layout", `what was downloaded is no package: ${e.message}`); }
      ensure(p.flag === (want.embed ? 1 : 0), "embedding", () => `flag byte ${p.flag}, "include public input" was ${want.embed ? "on" : "off"}`);
      const e = kem.entry(p.kemCt);
      ensure(e && e.c.id === want.c.id, "package_circuit", "the package was not made with the circuit given");
      ensure(e.pubs.length === want.pubs.length && e.pubs.every((v, i) => v === G.mod(want.pubs[i])), "package_public", () => `the package was made for public inputs ${e.pubs.slice(0, 12)} instead of ${want.pubs.slice(0, 12)}`);
      const m = G.unseal(e.key, p.sealed);
      ensure(m && G.eq(m, want.message), "package_message", () => `the package holds ${m ? JSON.stringify(td.decode(m).slice(0, 40)) : "nothing that opens"} instead of ${JSON.stringify(td.decode(want.message).slice(0, 40))}`);
      if (want.embed) ensure(G.deepEq(JSON.parse(td.decode(p.json)), want.inputs), "package_json", () => `embedded inputs ${td.decode(p.json).slice(0, 100)} instead of ${JSON.stringify(want.inputs).slice(0, 100)}`);
    },
  };
  // packages that arrive from elsewhere (command line, library)
  const r = t.prngFrom();
  for (let i = t.choose(3); i > 0; i--) {
    const su = t.chance(1, 2), ci = su ? sudoku : t.pick(customs), embed = t.chance(1, 2);
    // not every file that was encrypted is text
    const sealed = t.chance(1, 8) ? new Uint8Array(0) : t.chance(1, 4) ? r.fill(new Uint8Array(1 + t.choose(40))) : te.encode(text(t));
    const msg = td.decode(sealed);
    const puzzle = newPuzzle(r);
    const vals = su ? [...puzzle, ...solve(puzzle)].map(BigInt) : ci.vals;
    // circom takes numbers as strings, too, and arrays in rows
    const spelt = su && t.chance(1, 3) ? puzzle.map(String) : puzzle;
    const rows = su && t.chance(1, 4) ? Array.from({ length: 9 }, (_, k) => spelt.slice(9 * k, 9 * k + 9)) : spelt;
    const inputs = su ? { puzzle: rows } : G.inputsOf(t, ci.c, vals, "public", { shuffle: true });
    const e = kem.encap(ci.r1cs, G.wtnsBytes([1n, ...G.publicOf(ci.c, vals)]), { randomBytes: (b) => r.fill(b) });
    const odd = su && embed && t.chance(1, 8) ? t.pick(ODD) : null;
    const bytes = G.packPackage({ flag: embed, kemCt: e.ciphertext, json: te.encode(odd ?? JSON.stringify(inputs)), sealed: G.seal(e.key, r.fill(new Uint8Array(12)), sealed) });
    world.box.push(su ? { kind: "sudoku", bytes, puzzle, msg, embed, odd } : { kind: "custom", bytes, ci, vals, inputs, msg, embed });
  }
  const people = [];
  for (let i = 0; i < 1 + t.choose(2); i++) {
    const p = new Person(ctx, sched, new Tab(ctx, sched, kem, "AB"[i], site, rates), world);
    people.push(p);
    const goals = 1 + t.choose(5);
    p.call = sched.call(`person ${"AB"[i]}`, () => p.live(goals), t.pick([0, 0, 500]));
  }
  sched.afterStep = () => {
    let woke = false;
    for (let i = 0; i < world.waits.length; i++) {
      const w = world.waits[i];
      let ok;
      try { ok = w.ok(); } catch (e) { world.waits.splice(i--, 1); w.rej(e); woke = true; continue; }
      if (ok) { world.waits.splice(i--, 1); w.res(); woke = true; }
    }
    for (const p of people) if (p.call.error) throw p.call.error;
    return woke;
  };
  sched.stuck = () => { if (world.waits.length) throw new Violation("page_stuck", `nothing is left to happen, yet somebody still waits: ${world.waits.map((w) => w.what).join("; ")}`); };
  await sched.run();
  ctx.nontrivial = people.length > 1 || ctx.evals > 1;
  for (const p of people) if (p.call.error) throw p.call.error;
  for (const { tab } of people) {
    const out = [["console", tab.proc.console.join("\n")], ["browser's storage or a request", tab.kept.join("\n")]];
    for (const o of world.box) if (o.msg.length >= 12) for (const [where, s] of out) ensure(!s.includes(o.msg) && !s.includes(JSON.stringify(o.msg).slice(1, -1)), "message_leaks", () => `a message appears in the ${where}`);
  }
  ctx.sample = people.map((p) => `${p.tab.name}: ${p.tab.root?.renders} renders, ${p.tab.downloads.length} downloads`).join("; ") + `; ${ctx.steps} steps`;
}
