//! C05: where nonces and encapsulation randomness come from.
use crate::common::*;
use fr::Fe;
use simkit::gen::{self, Shape};
use simkit::model::{satisfies, Package};
use simkit::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, OnceLock};

const KINDS: [&str; 18] = [
    "nonce", "key", "alpha", "beta", "delta", "difference of two nonces", "difference of alpha and beta", "difference of beta and delta",
    "quotient of alpha and beta", "quotient of beta and delta", "change of alpha over change of beta", "change of beta over change of delta",
    "change of alpha", "r", "x", "quotient of r and x", "difference of r and alpha", "quotient of delta and x",
];

/// The same circuit, inputs and message in every execution.
fn fixed() -> &'static Job {
    static J: OnceLock<Job> = OnceLock::new();
    J.get_or_init(|| {
        let mut c = Ctx::new(Tape::seeded(4), false);
        let inst = loop {
            let i = gen::instance(c.t(), &Shape { max_pub: 3, allow_no_private: false });
            if i.r1cs.n_public() == 3 && satisfies(&i.r1cs, &i.witness) {
                break i;
            }
        };
        let mut j = Job::of(&mut c, "u", inst, b"the same message in every execution".to_vec());
        j.embed = true;
        j
    })
}
/// Adds three private wires at the end, wire i only in constraint i: w * 1 = w.
fn with_probes(mut i: gen::Instance) -> gen::Instance {
    let one = || Fe::one().to_le().to_vec();
    let first = i.r1cs.n_wires;
    let mut cons: Vec<_> = (first..first + 3).map(|w| [vec![(w, one())], vec![(0, one())], vec![(w, one())]]).collect();
    cons.append(&mut i.r1cs.constraints);
    i.r1cs.constraints = cons;
    i.r1cs.n_wires += 3;
    if let Some(m) = &mut i.r1cs.wire2label {
        let l = m.iter().max().copied().unwrap_or(0);
        m.extend([l + 1, l + 2, l + 3]);
        i.r1cs.n_labels += 3;
    }
    i.witness.extend([Fe::from_u64(5), Fe::from_u64(6), Fe::from_u64(7)]);
    i
}
fn probed() -> &'static Arc<Functional> {
    static F: OnceLock<Arc<Functional>> = OnceLock::new();
    F.get_or_init(|| Arc::new(Functional { inst: with_probes(fixed().inst.clone()), defines: vec![] }))
}
/// The library itself, for a circuit whose values are all known (so that the whole CRS is there):
/// threads of one process and processes, all from the system's random source.
pub fn core(c: &mut Ctx) -> R {
    let f = probed();
    let cfg = config(c);
    let n = 1 + c.choose(3) as usize;
    let rounds = 1 + c.choose(3) as usize;
    let early = c.choose(2) == 1;
    let make = move || {
        let circuit = crate::core::Circuit { f: f.clone(), values: f.inst.witness.iter().map(|v| Some(*v)).collect(), early };
        zkenc_core::encap::<ark_bn254::Bn254, _, _>(circuit, &mut ark_std::rand::rngs::OsRng).map(|(ct, k)| (ct, k.as_bytes().to_vec())).map_err(|e| format!("{:?}", e))
    };
    if c.choose(40) == 39 {
        // every one of the five parameters takes 32 bytes of its own
        let es = c.seed64();
        let draw = |c: &mut Ctx, flip: Option<u64>| -> R<(Vec<u8>, bool, u64)> {
            let mut w = c.world_with(FaultCfg { frozen_clock: true, same_pid: true, entropy_flip: flip, ..Default::default() }, es);
            let slot: Slot<Result<(Ct, Vec<u8>), String>> = Slot::new();
            let s = slot.clone();
            let id = w.spawn("core", MEM, None, move || {
                s.put(make());
                Ok(())
            });
            c.run(&mut w);
            let Some(Ok((d, _))) = slot.take().pop() else { return viol("failed", "encap failed without a fault") };
            let e = &d.encap_key;
            let mut v = vec![];
            for x in [e.alpha_g1.0 .0, e.beta_g2.0 .0, e.delta_g2.0 .0] {
                v.extend(x.to_le());
            }
            let h = hidden(&d);
            if let Some((r, x)) = &h {
                v.extend(r.to_le());
                v.extend(x.to_le());
            }
            Ok((v, h.is_some(), w.with(|g| g.procs[id].entropy_bytes)))
        };
        let (base, full, used) = draw(c, None)?;
        let mut matter = 0;
        for i in (0..used).filter(|i| *i < 1000 || *i + 1000 >= used) {
            matter += (draw(c, Some(i))?.0 != base) as u64;
        }
        c.evals += 1;
        c.nontrivial = true;
        c.probe("core_sensitivity");
        let need = if used < 160 { 32 } else if full { 150 } else { 90 };
        ensure!(matter >= need, "not_random", "only {} of the {} random bytes drawn influence alpha, beta, delta, r and x", matter, used);
        return Ok(());
    }
    let slot: Slot<Result<(Ct, Vec<u8>), String>> = Slot::new();
    let mut w = c.world(cfg);
    for i in 0..n {
        let s = slot.clone();
        w.spawn(&format!("core{}", i), MEM, None, move || {
            for _ in 0..rounds {
                s.put(make());
            }
            Ok(())
        });
    }
    c.run(&mut w);
    c.nontrivial = true;
    let v = slot.take();
    ensure!(v.len() == n * rounds, "failed", "{} results of {}", v.len(), n * rounds);
    let mut seen = BTreeSet::new();
    let mut lg = None;
    for r in v {
        c.evals += 1;
        let (ct, k) = r.map_err(|e| Violation { key: "failed".into(), detail: e })?;
        ensure!(seen.insert(k.clone()), "value_repeated", "two encapsulations gave the key {}", hexs(&k));
        tag(c, 1, &k);
        group(c, &ct, &mut lg);
    }
    Ok(())
}
/// The secret r and x of an encapsulation for the probed circuit: the logarithms of the probe wires'
/// elements are r times the first three Lagrange polynomials at x.
fn hidden(ct: &Ct) -> Option<(Fe, Fe)> {
    use ark_poly::EvaluationDomain;
    let n_cons = probed().inst.r1cs.constraints.len();
    if ct.encap_key.r_u_query_g1.len() != probed().inst.r1cs.n_wires as usize {
        return None;
    }
    let d = ark_poly::GeneralEvaluationDomain::<ark_bn254::Fr>::new(n_cons + ct.public_inputs.len() + 1)?;
    let w = d.element(1).0;
    let q: Vec<Fe> = ct.encap_key.r_u_query_g1.iter().map(|x| x.0 .0).collect();
    let p = &q[q.len().checked_sub(3)?..];
    // L0/L1 = (x - w) / (w (x - 1))
    let k = p[0].mul(&p[1].inv()?).mul(&w);
    let x = k.sub(&w).mul(&k.sub(&Fe::one()).inv()?);
    // L_i = w^i (x^n - 1) / (n (x - w^i))
    let n = d.size() as u64;
    let mut xn = x.clone();
    let mut m = 1;
    while m < n {
        xn = xn.mul(&xn);
        m *= 2;
    }
    let lag = |wi: &Fe| Some(wi.mul(&xn.sub(&Fe::one())).mul(&Fe::from_u64(n).mul(&x.sub(wi)).inv()?));
    let r = p[0].mul(&lag(&Fe::one())?.inv()?);
    (r.mul(&lag(&w.mul(&w))?) == p[2]).then_some((r, x))
}
fn tag(c: &mut Ctx, kind: u8, v: &[u8]) {
    let mut y = vec![kind];
    y.extend(v);
    c.collected.push(y);
}
fn group(c: &mut Ctx, ct: &Ct, last: &mut Option<[Fe; 3]>) {
    let (a, b, d) = (ct.encap_key.alpha_g1.0 .0, ct.encap_key.beta_g2.0 .0, ct.encap_key.delta_g2.0 .0);
    tag(c, 2, &a.to_le());
    tag(c, 3, &b.to_le());
    tag(c, 4, &d.to_le());
    tag(c, 6, &a.sub(&b).to_le());
    tag(c, 7, &b.sub(&d).to_le());
    let quot = |x: &Fe, y: &Fe| y.inv().map(|i| x.mul(&i).to_le());
    if let (Some(x), Some(y)) = (quot(&a, &b), quot(&b, &d)) {
        tag(c, 8, &x);
        tag(c, 9, &y);
    }
    // a fixed relation between two parameters, or between two draws of one, would show here
    if let Some(l) = last.take() {
        let (da, db, dd) = (a.sub(&l[0]), b.sub(&l[1]), d.sub(&l[2]));
        if let (Some(x), Some(y)) = (quot(&da, &db), quot(&db, &dd)) {
            tag(c, 10, &x);
            tag(c, 11, &y);
        }
        tag(c, 12, &da.to_le());
    }
    // not found: the polynomials are evaluated in some other way, and only the published elements are compared
    if let Some((r, x)) = hidden(ct) {
        c.probe("r_and_x_recovered");
        tag(c, 13, &r.to_le());
        tag(c, 14, &x.to_le());
        tag(c, 16, &r.sub(&a).to_le());
        if let (Some(y), Some(z)) = (quot(&r, &x), quot(&d, &x)) {
            tag(c, 15, &y);
            tag(c, 17, &z);
        }
    }
    *last = Some([a, b, d]);
}
fn config(c: &mut Ctx) -> FaultCfg {
    FaultCfg {
        frozen_clock: true,
        same_pid: true,
        preempt: *c.t().pick(&[0, 100]),
        alloc_gap: *c.t().pick(&simos::ALLOC_GAPS),
        entropy_short: *c.t().pick(&[0, 300]),
        ..Default::default()
    }
}
/// Everything that is equal but the random source: nothing may repeat.
pub fn cli(c: &mut Ctx) -> R {
    let j = fixed();
    let cfg = config(c);
    let n = 1 + c.choose(3) as usize;
    let mut w = c.world(cfg);
    j.install(&w);
    let mut ids = vec![];
    for i in 0..n {
        ids.push(spawn(&mut w, &format!("encrypt{}", i), j.encrypt(&format!("p{}", i))));
        ids.push(spawn(&mut w, &format!("encap{}", i), j.encap(&format!("c{}", i), &format!("k{}", i))));
    }
    c.run(&mut w);
    for id in ids {
        let r = res(&w, id);
        ensure!(r.ok(), "failed", "failed without a fault: {}", r.tail());
    }
    c.nontrivial = true;
    let mut last: Option<Vec<u8>> = None;
    let mut seen = BTreeSet::new();
    let mut lg = None;
    for i in 0..n {
        c.evals += 2;
        let p = get(&w, &j.p(&format!("p{}", i))).unwrap_or_default();
        let Some(pk) = Package::parse(&p) else { return viol("package_layout", hexs(&p)) };
        let nonce = pk.sealed[..12].to_vec();
        if let Some(l) = &last {
            let d: Vec<u8> = l.iter().zip(&nonce).map(|(a, b)| a ^ b).collect();
            tag(c, 5, &d);
        }
        tag(c, 0, &nonce);
        last = Some(nonce.clone());
        let k = get(&w, &j.p(&format!("k{}", i))).unwrap_or_default();
        tag(c, 1, &k);
        for b in [pk.key_ct.clone(), get(&w, &j.p(&format!("c{}", i))).unwrap_or_default()] {
            let ct = decode_ct(&b).map_err(|e| Violation { key: "bad_ciphertext".into(), detail: e })?;
            group(c, &ct, &mut lg);
            ensure!(seen.insert(b.clone()), "ciphertext_repeated", "two encapsulations gave {}", hexs(&b));
        }
        for x in [nonce, k] {
            ensure!(seen.insert(x.clone()), "value_repeated", "two executions used {}", hexs(&x));
        }
    }
    Ok(())
}
pub fn wasm(c: &mut Ctx) -> R {
    fixed();
    let cfg = config(c);
    let n = 1 + c.choose(2) as usize;
    let rounds = 1 + c.choose(3) as usize;
    let slot: Slot<Result<(Vec<u8>, Vec<u8>), String>> = Slot::new();
    let mut w = c.world(cfg);
    for i in 0..n {
        let s = slot.clone();
        w.spawn(&format!("wasm{}", i), MEM, None, move || {
            let j = fixed();
            for _ in 0..rounds {
                s.put(zkenc_js::wasm_encap(&j.files["c.r1cs"], &j.files["w.wtns"]).map(|e| (e.ciphertext(), e.key())).map_err(|e| e.text()));
            }
            Ok(())
        });
    }
    c.run(&mut w);
    c.nontrivial = true;
    let v = slot.take();
    ensure!(v.len() == n * rounds, "failed", "{} results of {}", v.len(), n * rounds);
    let mut seen = BTreeSet::new();
    let mut lg = None;
    for r in v {
        c.evals += 1;
        let (ct, k) = r.map_err(|e| Violation { key: "failed".into(), detail: e })?;
        ensure!(seen.insert(ct.clone()) && seen.insert(k.clone()), "ciphertext_repeated", "two encapsulations gave {} and {}", hexs(&ct), hexs(&k));
        tag(c, 1, &k);
        let d = decode_ct(&ct).map_err(|e| Violation { key: "bad_ciphertext".into(), detail: e })?;
        group(c, &d, &mut lg);
    }
    Ok(())
}
pub fn batch(all: &[Vec<u8>]) -> R {
    let mut seen: BTreeMap<&[u8], usize> = BTreeMap::new();
    for (i, v) in all.iter().enumerate() {
        // alpha, beta, delta, r and x are draws of one kind
        let k: &[u8] = if matches!(v[0], 2..=4 | 13 | 14) { &v[1..] } else { v };
        if let Some(j) = seen.insert(k, i) {
            let key = if v[0] < 5 || matches!(v[0], 13 | 14) { "value_repeated" } else { "not_random" };
            return viol(key, format!("draws {} and {} of {} are the same {}: {}", j, i, all.len(), KINDS[v[0] as usize], hexs(&v[1..])));
        }
    }
    for k in 0..KINDS.len() as u8 {
        let s: Vec<&Vec<u8>> = all.iter().filter(|v| v[0] == k).collect();
        if s.len() < 200 {
            continue;
        }
        for pos in 1..s[0].len() {
            let set: BTreeSet<u8> = s.iter().map(|v| v[pos]).collect();
            // the top byte of a field element takes 49 values
            let need = if pos == 32 && k >= 2 { 20 } else { 64 };
            if set.len() < need {
                return viol("not_random", format!("byte {} of the {} took only {} values in {} draws that differ in the random source alone", pos - 1, KINDS[k as usize], set.len(), s.len()));
            }
        }
    }
    Ok(())
}

/// A failing source fails the operation; and every byte it delivers matters.
pub fn entropy(c: &mut Ctx) -> R {
    let wasm = c.choose(2) == 1;
    if c.choose(3) < 2 {
        failing(c, wasm)
    } else {
        sensitivity(c, wasm)
    }
}
fn failing(c: &mut Ctx, wasm: bool) -> R {
    let j = fixed();
    let rate = *c.t().pick(&[1024u64, 1024, 300]);
    let cfg = FaultCfg { entropy_fail: rate, entropy_short: *c.t().pick(&[0, 300]), ..Default::default() };
    let mut w = c.world(cfg);
    j.install(&w);
    if wasm {
        let slot: Slot<Result<Vec<u8>, String>> = Slot::new();
        let s = slot.clone();
        let id = w.spawn("wasm", MEM, None, move || {
            let j = fixed();
            s.put(zkenc_js::wasm_encap(&j.files["c.r1cs"], &j.files["w.wtns"]).map(|e| e.ciphertext()).map_err(|e| e.text()));
            Ok(())
        });
        c.run(&mut w);
        let r = res(&w, id);
        c.evals += 1;
        let bytes = w.with(|g| g.procs[id].entropy_bytes);
        c.nontrivial |= r.entropy_failed;
        ensure!(r.clean(), "crashed", "{}", r.tail());
        if r.ok() {
            let ok = slot.take().pop().unwrap().is_ok();
            ensure!(!ok || bytes >= 32, "without_entropy", "wasm_encap succeeded though the random source had delivered {} bytes", bytes);
            ensure!(!(ok && rate == 1024), "without_entropy", "wasm_encap succeeded though the random source always fails");
            c.probe(if ok { "succeeded" } else { "failed_closed" });
        }
        return Ok(());
    }
    let ids = [
        (spawn(&mut w, "encrypt", j.encrypt("p")), "encrypt", 12 + 96, vec!["p"]),
        (spawn(&mut w, "encap", j.encap("c", "k")), "encap", 96, vec!["c", "k"]),
    ];
    c.run(&mut w);
    for (id, n, need, outs) in ids {
        let r = res(&w, id);
        c.evals += 1;
        let bytes = w.with(|g| g.procs[id].entropy_bytes);
        c.nontrivial |= r.entropy_failed;
        ensure!(r.clean(), "crashed", "{}: {}", n, r.tail());
        if r.ok() {
            c.probe("succeeded");
            ensure!(bytes >= need && rate < 1024, "without_entropy", "{} succeeded though the random source had delivered {} bytes", n, bytes);
        } else {
            c.probe("failed_closed");
            ensure!(r.entropy_failed, "failed", "{} failed though nothing was wrong: {}", n, r.tail());
            for o in outs {
                let d = get(&w, &j.p(o));
                ensure!(d.is_none(), "wrote_without_entropy", "{} failed for lack of randomness but wrote {} ({:?})", n, o, d.map(|b| hexs(&b)));
            }
        }
    }
    Ok(())
}
fn sensitivity(c: &mut Ctx, wasm: bool) -> R {
    let j = fixed();
    let es = c.seed64();
    let which = c.choose(2);
    // alpha, beta, delta and the nonce when there is one
    let draw = |c: &mut Ctx, flip: Option<u64>| -> R<(Vec<u8>, Vec<u8>, u64)> {
        let mut w = c.world_with(FaultCfg { frozen_clock: true, same_pid: true, entropy_flip: flip, ..Default::default() }, es);
        j.install(&w);
        let (ct, nonce, n) = if wasm {
            let slot: Slot<Vec<u8>> = Slot::new();
            let s = slot.clone();
            let id = w.spawn("wasm", MEM, None, move || {
                let j = fixed();
                s.put(zkenc_js::wasm_encap(&j.files["c.r1cs"], &j.files["w.wtns"]).map_err(|e| e.text())?.ciphertext());
                Ok(())
            });
            c.run(&mut w);
            (slot.take().pop().unwrap_or_default(), vec![], w.with(|g| g.procs[id].entropy_bytes))
        } else if which == 0 {
            let id = spawn(&mut w, "encap", j.encap("c", "k"));
            c.run(&mut w);
            (get(&w, &j.p("c")).unwrap_or_default(), vec![], w.with(|g| g.procs[id].entropy_bytes))
        } else {
            let id = spawn(&mut w, "encrypt", j.encrypt("p"));
            c.run(&mut w);
            let p = Package::parse(&get(&w, &j.p("p")).unwrap_or_default());
            let Some(p) = p else { return viol("failed", "encrypt failed without a fault") };
            (p.key_ct, p.sealed[..12].to_vec(), w.with(|g| g.procs[id].entropy_bytes))
        };
        let d = decode_ct(&ct).map_err(|e| Violation { key: "failed".into(), detail: e })?;
        let mut v = vec![];
        for x in [d.encap_key.alpha_g1.0 .0, d.encap_key.beta_g2.0 .0, d.encap_key.delta_g2.0 .0] {
            v.extend(x.to_le());
        }
        Ok((v, nonce, n))
    };
    let (base, bn, used) = draw(c, None)?;
    let (mut matter, mut nm) = (0, 0);
    for i in (0..used).filter(|i| *i < 1000 || *i + 1000 >= used) {
        let (v, n, _) = draw(c, Some(i))?;
        matter += (v != base) as u64;
        nm += (n != bn) as u64;
    }
    c.evals += 1;
    c.nontrivial = true;
    c.probe(if wasm { "wasm_sensitivity" } else { "cli_sensitivity" });
    // 32 bytes are what a cryptographic generator needs; drawn directly, each of the three
    // parameters takes 32 of its own
    let need = if used < 160 { 32 } else { 90 };
    ensure!(matter >= need, "not_random", "only {} of the {} random bytes drawn influence alpha, beta and delta", matter, used);
    ensure!(bn.is_empty() || nm >= 12, "not_random", "only {} of the {} random bytes drawn influence the nonce", nm, used);
    Ok(())
}
