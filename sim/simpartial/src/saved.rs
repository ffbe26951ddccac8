use crate::{Slot, MEM};
use simkit::*;
use std::collections::BTreeMap;

/// Plain copy of a saved thing, comparable field by field.
#[derive(Clone, Debug, PartialEq, Default)]
pub(crate) struct P {
    nums: Vec<u32>,
    prime: Vec<u8>,
    cons: Vec<[Vec<(u32, Vec<u8>)>; 3]>,
    labels: Option<BTreeMap<u32, String>>,
    wit: Option<BTreeMap<u32, Vec<u8>>>,
    name: Option<String>,
    desc: Option<String>,
}

macro_rules! side {
    ($m:ident, $k:ident) => {
        mod $m {
            use super::P;
            use std::collections::HashMap;
            use $k::serializable as s;
            pub fn circuit(p: &P) -> s::SerializableCircuit {
                let lc = |f: &Vec<(u32, Vec<u8>)>| s::SerializableLC {
                    factors: f.iter().map(|(w, b)| s::SerializableFactor { wire_id: *w, coefficient_bytes: b.clone() }).collect(),
                };
                s::SerializableCircuit {
                    field_size: p.nums[0],
                    prime_bytes: p.prime.clone(),
                    n_wires: p.nums[1],
                    n_pub_out: p.nums[2],
                    n_pub_in: p.nums[3],
                    n_prv_in: p.nums[4],
                    n_constraints: p.nums[5],
                    constraints: p.cons.iter().map(|c| s::SerializableConstraint { a: lc(&c[0]), b: lc(&c[1]), c: lc(&c[2]) }).collect(),
                    wire_labels: p.labels.as_ref().map(|m| m.iter().map(|(k, v)| (*k, v.clone())).collect()),
                }
            }
            pub fn witness(p: &P) -> s::SerializableWitness {
                s::SerializableWitness { assignments: p.wit.as_ref().unwrap().iter().map(|(k, v)| (*k, v.clone())).collect() }
            }
            pub fn from_circuit(x: &s::SerializableCircuit) -> P {
                let lc = |l: &s::SerializableLC| l.factors.iter().map(|f| (f.wire_id, f.coefficient_bytes.clone())).collect::<Vec<_>>();
                P {
                    nums: vec![x.field_size, x.n_wires, x.n_pub_out, x.n_pub_in, x.n_prv_in, x.n_constraints],
                    prime: x.prime_bytes.clone(),
                    cons: x.constraints.iter().map(|c| [lc(&c.a), lc(&c.b), lc(&c.c)]).collect(),
                    labels: x.wire_labels.as_ref().map(|m: &HashMap<u32, String>| m.iter().map(|(k, v)| (*k, v.clone())).collect()),
                    ..Default::default()
                }
            }
            pub fn save(kind: u64, p: &P, path: &str) -> Result<(), String> {
                let r = match kind {
                    0 => circuit(p).save_json(path),
                    1 => circuit(p).save_bincode(path),
                    2 => witness(p).save_json(path),
                    _ => s::SerializableTestCase { circuit: circuit(p), witness: witness(p), name: p.name.clone().unwrap(), description: p.desc.clone() }.save_json(path),
                };
                r.map_err(|e| e.to_string())
            }
            pub fn load(kind: u64, path: &str) -> Result<P, String> {
                let e = |e: Box<dyn std::error::Error>| e.to_string();
                Ok(match kind {
                    0 => from_circuit(&s::SerializableCircuit::load_json(path).map_err(e)?),
                    1 => from_circuit(&s::SerializableCircuit::load_bincode(path).map_err(e)?),
                    2 => P { wit: Some(s::SerializableWitness::load_json(path).map_err(e)?.assignments.into_iter().collect()), ..Default::default() },
                    _ => {
                        let t = s::SerializableTestCase::load_json(path).map_err(e)?;
                        let mut p = from_circuit(&t.circuit);
                        p.wit = Some(t.witness.assignments.into_iter().collect());
                        p.name = Some(t.name);
                        p.desc = t.description;
                        p
                    }
                })
            }
        }
    };
}
side!(by_cli, zkenc_cli);
side!(by_core, zkenc_core);
fn save(core: bool, kind: u64, p: &P, path: &str) -> Result<(), String> {
    if core { by_core::save(kind, p, path) } else { by_cli::save(kind, p, path) }
}
fn load(core: bool, kind: u64, path: &str) -> Result<P, String> {
    if core { by_core::load(kind, path) } else { by_cli::load(kind, path) }
}

fn text(c: &mut Ctx) -> String {
    let parts = ["main.", "out", "漢字", "\n", "\"", "\\", "\u{0}", "é", "[0]", " ", "\u{1F600}", "true"];
    (0..c.choose(5)).map(|_| parts[c.choose(12) as usize]).collect()
}
fn thing(c: &mut Ctx, kind: u64) -> P {
    let inst = gen::instance(c.t(), &gen::Shape { max_pub: 5, allow_no_private: true });
    let r = inst.r1cs;
    let mut p = P {
        nums: vec![r.field_size, r.n_wires, r.n_pub_out, r.n_pub_in, r.n_prv_in, r.constraints.len() as u32],
        prime: r.prime.clone(),
        cons: r.constraints.clone(),
        ..Default::default()
    };
    if c.choose(4) == 3 {
        let i = c.choose(6) as usize;
        p.nums[i] = *c.t().pick(&[0, 1, 255, 256, u32::MAX, u32::MAX - 1]);
    }
    if c.choose(2) == 1 {
        let mut m = BTreeMap::new();
        for _ in 0..c.choose(6) {
            let k = if c.choose(5) == 4 { u32::MAX - c.choose(3) as u32 } else { c.choose(300) as u32 };
            m.insert(k, text(c));
        }
        p.labels = Some(m);
    }
    if kind >= 2 {
        let mut m: BTreeMap<u32, Vec<u8>> = inst.witness.iter().enumerate().map(|(i, v)| (i as u32, v.to_le().to_vec())).collect();
        if c.choose(3) == 2 {
            let k = *c.t().pick(&[1000, u32::MAX, 77]);
            let n = c.choose(70) as usize;
            m.insert(k, vec![c.choose(256) as u8; n]);
        }
        p.wit = Some(m);
    }
    if kind == 2 {
        p = P { wit: p.wit, ..Default::default() };
    }
    if kind == 3 {
        p.name = Some(text(c));
        if c.choose(2) == 1 {
            p.desc = Some(text(c));
        }
    }
    p
}
/// What loading must give back.
fn want(kind: u64, p: &P) -> P {
    let mut q = p.clone();
    if kind < 2 {
        q.wit = None;
    }
    q
}

fn run1<T: Send + 'static>(c: &mut Ctx, w: &mut World, name: &str, crash: Option<u64>, f: impl FnOnce() -> T + Send + 'static) -> (Option<T>, Option<Outcome>, Vec<String>, u64, u64) {
    let slot: Slot<T> = Slot::new();
    let s = slot.clone();
    let id = w.spawn(name, MEM, crash, move || {
        let v = f();
        s.put(v);
        Ok(())
    });
    c.run(w);
    let (o, h, sf, st) = w.with(|g| {
        let p = &g.procs[id];
        (p.outcome.clone(), p.hard_faults.clone(), p.soft_faults, p.steps)
    });
    (slot.take().pop(), o, h, sf, st)
}

/// C12: save in one process, load in another, under I/O faults.
pub fn saved(c: &mut Ctx) -> R {
    let kind = c.choose(4);
    let p = thing(c, kind);
    let (a, b) = (c.choose(2) == 1, c.choose(2) == 1);
    let overwrite = c.choose(3) == 2;
    let hard = c.choose(3) == 2;
    let cfg = c.faults(true, hard);
    let mut w = c.world(cfg);
    if overwrite {
        w.with(|g| g.put("/work/t.save", vec![b'x'; 40_000]));
    }
    let q = p.clone();
    let (r, o, h, soft, _) = run1(c, &mut w, "save", None, move || save(a, kind, &q, "/work/t.save"));
    ensure!(o == Some(Outcome::Ok), "save_crash", "save ended with {:?}", o);
    c.evals += 1;
    if soft > 0 || !h.is_empty() {
        c.nontrivial = true;
    }
    match r.unwrap() {
        Err(e) => {
            c.probe("save_failed");
            ensure!(!h.is_empty(), "save_refused", "save failed without a fault: {}", e);
            return Ok(());
        }
        Ok(()) => c.probe("saved"),
    }
    // the disk is full or broken for the save only; now load
    c.lend(&mut w);
    w.with(|g| g.capacity = None);
    let (r, o, h2, _, _) = run1(c, &mut w, "load", None, move || load(b, kind, "/work/t.save"));
    ensure!(o == Some(Outcome::Ok), "load_crash", "load ended with {:?}", o);
    match r.unwrap() {
        Err(e) => {
            c.probe("load_failed");
            ensure!(!h2.is_empty(), "saved_not_loadable", "kind {} saved by {} (which reported success; faults {:?}) cannot be loaded by {}: {}", kind, nm(a), h, nm(b), e);
        }
        Ok(x) => {
            c.probe("loaded");
            ensure!(x == want(kind, &p), "saved_differs", "kind {} saved by {} and loaded by {}: {:?}\nwas {:?}", kind, nm(a), nm(b), x, p);
        }
    }
    Ok(())
}
fn nm(core: bool) -> &'static str {
    if core { "zkenc-core" } else { "zkenc-cli" }
}

/// C12: the saving process crashes at any point, or the file loses its tail; a later load returns
/// the original or an error.
pub fn crash(c: &mut Ctx) -> R {
    let kind = c.choose(4);
    let p = thing(c, kind);
    let old = if c.choose(2) == 1 { Some(thing(c, kind)) } else { None };
    let (a, b) = (c.choose(2) == 1, c.choose(2) == 1);
    let mut cfg = c.faults(true, false);
    cfg.short = *c.t().pick(&[0, 600, 1000]);
    let mut w = c.world(cfg);
    if let Some(q) = old.clone() {
        let (r, ..) = run1(c, &mut w, "save-old", None, move || save(a, kind, &q, "/work/t.save"));
        ensure!(matches!(r, Some(Ok(()))), "save_refused", "save failed without a fault: {:?}", r);
        c.lend(&mut w);
    }
    let cut = c_cut(&mut w);
    let at = w.with(|g| 1 + g.tape.choose(if cut { 1 } else { 12 }));
    let q = p.clone();
    let (r, o, ..) = run1(c, &mut w, "save", if cut { None } else { Some(at) }, move || save(a, kind, &q, "/work/t.save"));
    let crashed = o == Some(Outcome::Crashed);
    if crashed {
        c.probe("crashed_while_saving");
        c.nontrivial = true;
    } else {
        ensure!(o == Some(Outcome::Ok) && matches!(r, Some(Ok(()))), "save_crash", "save ended with {:?} {:?}", o, r);
    }
    c.lend(&mut w);
    if cut {
        let n = w.with(|g| {
            let mut d = g.get("/work/t.save").cloned().unwrap_or_default();
            let k = g.tape.choose(d.len() as u64) as usize;
            d.truncate(k);
            g.put("/work/t.save", d);
            k
        });
        c.fault("truncate");
        c.nontrivial = true;
        let _ = n;
    }
    let (r, o, ..) = run1(c, &mut w, "load", None, move || load(b, kind, "/work/t.save"));
    c.evals += 1;
    ensure!(o == Some(Outcome::Ok), "load_crash", "load ended with {:?}", o);
    let (wn, wo) = (want(kind, &p), old.map(|q| want(kind, &q)));
    match r.unwrap() {
        Err(_) => {
            c.probe("load_failed");
            ensure!(crashed || cut, "saved_not_loadable", "load failed without a cause");
        }
        Ok(x) => {
            c.probe("loaded");
            // before its first effect the crashed save leaves the previous contents
            let fine = if cut { false } else if crashed { x == wn || Some(&x) == wo.as_ref() } else { x == wn };
            ensure!(fine, "torn_save_loaded", "kind {} {}: loaded {:?}\nsaved was {:?}", kind, if cut { "with its tail cut off" } else { "torn by a crash" }, x, p);
        }
    }
    Ok(())
}
fn c_cut(w: &mut World) -> bool {
    w.with(|g| g.tape.choose(2) == 1)
}

/// C12: threads of one process saving, loading and replacing files.
pub fn threads(c: &mut Ctx) -> R {
    let n = 1 + c.choose(3);
    let kind = c.choose(4);
    let mut items: Vec<(u64, bool, bool, P)> = vec![];
    for _ in 0..n {
        let p = thing(c, kind);
        let (a, b) = (c.choose(2) == 1, c.choose(2) == 1);
        if c.choose(2) == 1 {
            // the same but for one byte
            let mut q = p.clone();
            let bytes = if kind == 2 { q.wit.iter_mut().flat_map(|m| m.values_mut()).next() } else { Some(&mut q.prime) };
            if let Some(x) = bytes.and_then(|b| b.last_mut()) {
                *x = if *x < 10 { (*x + 1) % 10 } else { *x ^ 1 };
                items.push((kind, a, b, q));
            }
        }
        items.push((kind, a, b, p));
    }
    hist::history(
        c,
        items,
        0,
        hist::Reader {
            write: |x, p| save(x.1, x.0, &x.3, p),
            read: |x, p| load(x.2, x.0, p),
            differs: |g, x| (*g != want(x.0, &x.3)).then(|| format!("loaded {:?}\nsaved {:?}", g, x.3)),
        },
    )
}
