// A small React for the simulator: function components with hooks over a tree that is only looked at, never painted.
// What React leaves to its scheduler is left to the simulator's: updates made while a click or key press is
// handled are rendered at its end, all others (after an await, from a file reader) when the scheduler says so, so
// that further events may still meet the old closures. Effects run after the render, as an event of their own.
const ELEMENT = Symbol("element"), FRAGMENT = Symbol("fragment"), SUSPENSE = Symbol("suspense"), STRICT = Symbol("strict");

export function makeReact(sched, name) {
  let root = null, cur = null;
  const el = (type, props, key) => ({ $$typeof: ELEMENT, type, props: props ?? {}, key: key ?? null });
  const createElement = (type, props, ...kids) => {
    const { key, ...rest } = props ?? {};
    if (kids.length) rest.children = kids.length === 1 ? kids[0] : kids;
    return el(type, rest, key === undefined ? null : String(key));
  };
  const jsx = (type, props, key) => el(type, props, key === undefined ? null : String(key));

  // ---------------------------------------------------------------- hooks
  const same = (a, b) => a && b && a.length === b.length && a.every((x, i) => Object.is(x, b[i]));
  const hook = (make) => {
    if (!cur) throw new Error("Invalid hook call. Hooks can only be called inside of the body of a function component.");
    const i = cur.at++;
    if (i === cur.inst.hooks.length) {
      if (cur.inst.mounted) throw new Error("Rendered more hooks than during the previous render.");
      cur.inst.hooks.push(make(cur.inst));
    }
    return cur.inst.hooks[i];
  };
  const useReducer = (reducer, arg, init) => {
    const h = hook((inst) => {
      const h = { state: init ? init(arg) : arg, queue: [] };
      h.dispatch = (a) => { h.queue.push(a); inst.root.mark(); };
      return h;
    });
    for (const a of h.queue.splice(0)) h.state = reducer(h.state, a);
    return [h.state, h.dispatch];
  };
  const basic = (s, a) => (typeof a === "function" ? a(s) : a);
  const useState = (init) => {
    const h = hook((inst) => {
      const h = { state: typeof init === "function" ? init() : init, queue: [] };
      h.dispatch = (a) => {
        if (!h.queue.length && typeof a !== "function" && Object.is(a, h.state)) return;
        h.queue.push(a);
        inst.root.mark();
      };
      return h;
    });
    for (const a of h.queue.splice(0)) h.state = basic(h.state, a);
    return [h.state, h.dispatch];
  };
  const useRef = (v) => hook(() => ({ current: v }));
  const useMemo = (f, deps) => {
    const h = hook(() => ({ deps: null }));
    if (!same(h.deps, deps)) { h.value = f(); h.deps = deps ?? null; }
    return h.value;
  };
  const effect = (list) => (create, deps) => {
    const h = hook(() => ({ deps: null, first: true, cleanup: null, isEffect: true }));
    if (h.first || !deps || !same(h.deps, deps)) cur.inst.root[list].push({ h, create });
    h.first = false;
    h.deps = deps ?? null;
  };
  const createContext = (value) => { const c = { value, stack: [] }; c.Provider = { ctx: c }; c.Consumer = { consumer: c }; return c; };
  const React = {
    createElement, Fragment: FRAGMENT, Suspense: SUSPENSE, StrictMode: STRICT, useState, useReducer, useRef, useMemo,
    useCallback: (f, deps) => useMemo(() => f, deps), useEffect: effect("passive"), useLayoutEffect: effect("layout"), useInsertionEffect: effect("layout"),
    useContext: (c) => (c.stack.length ? c.stack[c.stack.length - 1] : c.value), createContext,
    useId: () => useMemo(() => ":r" + root.ids++ + ":", []), useDebugValue() {}, useDeferredValue: (x) => x,
    useTransition: () => [false, (f) => f()], startTransition: (f) => f(),
    useSyncExternalStore: (sub, get) => { const [, up] = useReducer((n) => n + 1, 0); React.useEffect(() => sub(up), [sub]); return get(); },
    memo: (f) => f, forwardRef: (f) => (p) => f(p, p.ref ?? null), isValidElement: (x) => x?.$$typeof === ELEMENT,
    cloneElement: (e, p, ...k) => createElement(e.type, { ...e.props, key: e.key ?? undefined, ...p }, ...(k.length ? k : e.props.children === undefined ? [] : [e.props.children])),
    Children: { map: (c, f) => [c].flat(Infinity).filter((x) => x != null && typeof x !== "boolean").map(f), toArray: (c) => [c].flat(Infinity).filter((x) => x != null && typeof x !== "boolean") },
    version: "19.0.0",
  };
  React.default = React;
  React.__esModule = true;
  const runtime = { __esModule: true, jsx, jsxs: jsx, jsxDEV: jsx, Fragment: FRAGMENT };

  // ---------------------------------------------------------------- tree
  const build = (r, old, x) => {
    if (x === null || x === undefined || typeof x === "boolean") return { t: "none", key: null };
    if (typeof x === "string" || typeof x === "number" || typeof x === "bigint") return { t: "text", text: String(x), key: null };
    if (Array.isArray(x)) return { t: "list", key: null, kids: children(r, old?.t === "list" ? old.kids : [], x) };
    if (x.$$typeof !== ELEMENT) throw new Error(`Objects are not valid as a React child (found: object with keys {${Object.keys(x).join(", ")}})`);
    const { type, props, key } = x;
    const prev = old && old.type === type && old.key === key ? old : null;
    if (typeof type === "string") return { t: "host", type, key, props, kids: children(r, prev?.kids ?? [], props.children) };
    if (type === FRAGMENT || type === SUSPENSE || type === STRICT) return { t: "list", type, key, kids: children(r, prev?.kids ?? [], props.children) };
    if (type?.ctx) {
      type.ctx.stack.push(props.value);
      try { return { t: "list", type, key, kids: children(r, prev?.kids ?? [], props.children) }; } finally { type.ctx.stack.pop(); }
    }
    if (typeof type !== "function") throw new Error("Element type is invalid: expected a string or a function but got: " + typeof type);
    const inst = prev ?? { t: "comp", type, key, hooks: [], root: r, kid: null, mounted: false };
    const before = cur;
    let out;
    for (let i = 0; ; i++) {
      cur = { inst, at: 0 };
      try { out = type(props); } finally { var at = cur.at; cur = before; }
      if (inst.mounted && at < inst.hooks.length) throw new Error("Rendered fewer hooks than expected.");
      if (!inst.hooks.some((h) => h.queue?.length)) break; // state set while rendering
      if (i > 25) throw new Error("Too many re-renders.");
    }
    inst.mounted = true;
    inst.kid = build(r, inst.kid, out);
    r.seen.add(inst);
    return inst;
  };
  const children = (r, old, x) => {
    const xs = x === undefined ? [] : Array.isArray(x) ? x : [x];
    const keyed = new Map();
    old.forEach((o, i) => keyed.set(o.key ?? "#" + i, o));
    return xs.map((y, i) => build(r, keyed.get((y?.$$typeof === ELEMENT ? y.key : null) ?? "#" + i), y));
  };
  class Root {
    constructor(element) {
      Object.assign(this, { element, tree: null, dirty: false, planned: null, discrete: 0, passive: [], layout: [], alive: new Set(), seen: null, crashed: null, renders: 0, gone: false, ids: 0 });
      this.mark();
    }
    /** Something has changed: render at the end of the event being handled, or some time later. */
    mark() {
      if (this.gone || this.crashed) return;
      this.dirty = true;
      if (this.discrete || this.planned || this.rendering) return;
      this.planned = sched.event(`render ${name}`, () => { this.planned = null; this.flush(); }, sched.ctx.tape.pick([0, 0, 0, 2, 16, 60]));
    }
    guard(f) {
      try { return f(); } catch (e) {
        if (e?.key && e?.constructor?.name === "Violation") throw e;
        sched.ctx.log(`${name} crashes: ${e?.message}`);
        this.crashed ??= e;
        this.tree = null;
        return undefined;
      }
    }
    flush(sync = false) {
      if (!this.dirty || this.gone || this.crashed) return;
      this.effects();
      if (this.planned) { sched.cancel(this.planned); this.planned = null; }
      this.dirty = false;
      this.renders++;
      this.guard(() => {
        const before = root;
        root = this;
        this.rendering = true;
        this.seen = new Set();
        try { this.tree = build(this, this.tree, this.element); } finally { root = before; this.rendering = false; }
        for (const i of this.alive) if (!this.seen.has(i)) this.drop(i);
        this.alive = this.seen;
        this.run(this.layout.splice(0));
      });
      if (this.passive.length) {
        if (sync) this.effects();
        else sched.event(`effects ${name}`, () => this.effects());
      }
      if (this.dirty && sync) this.flush(sync);
    }
    drop(inst) { for (const h of inst.hooks) if (h.isEffect && h.cleanup) { const f = h.cleanup; h.cleanup = null; f(); } }
    run(list) {
      for (const { h } of list) if (h.cleanup) { const f = h.cleanup; h.cleanup = null; f(); }
      for (const { h, create } of list) { const c = create(); if (typeof c === "function") h.cleanup = c; }
    }
    effects() { if (!this.gone && this.passive.length) this.guard(() => this.run(this.passive.splice(0))); }
    /** A click, a key press: handlers run, what they change is rendered at once. */
    event(f) {
      if (this.gone || this.crashed) return;
      this.effects();
      this.discrete++;
      try { f(); } catch (e) {
        if (e?.key && e?.constructor?.name === "Violation") throw e;
        sched.ctx.log(`${name}: a handler throws ${e?.message}`); // goes to window.onerror
      } finally { this.discrete--; }
      this.flush(true);
    }
    unmount() {
      this.guard(() => { for (const i of this.alive) this.drop(i); });
      this.gone = true;
      if (this.planned) sched.cancel(this.planned);
      this.tree = null;
    }
    get settled() { return !this.dirty && !this.passive.length; }
    /** Host nodes in document order. */
    *nodes(n = this.tree) {
      if (!n) return;
      if (n.t === "comp") { yield* this.nodes(n.kid); return; }
      if (n.t === "host") yield n;
      if (n.kids) for (const k of n.kids) yield* this.nodes(k);
    }
  }
  return { React, runtime, Root, createElement };
}
export function textOf(n) {
  if (!n) return "";
  if (n.t === "text") return n.text;
  if (n.t === "comp") return textOf(n.kid);
  return (n.kids ?? []).map(textOf).join("");
}
export function* within(n) {
  if (!n) return;
  if (n.t === "comp") { yield* within(n.kid); return; }
  if (n.t === "host") yield n;
  for (const k of n.kids ?? []) yield* within(k);
}
