//! C19: zkenc-core as a library, used directly: circuits of the caller's own making, threads of one process,
//! ciphertexts kept as files.
use crate::common::*;
use ark_bn254::{Bn254, Fr};
use ark_relations::gr1cs::{ConstraintSynthesizer, ConstraintSystemRef, LinearCombination, SynthesisError, Variable};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_std::rand::SeedableRng;
use fr::Fe;
use simkit::model::Lc;
use simkit::*;
use std::sync::Arc;

/// A caller's circuit: public wires first, then the others, constraints as soon as their wires are there or at the end.
#[derive(Clone)]
pub struct Circuit {
    pub f: Arc<Functional>,
    pub values: Vec<Option<Fe>>,
    pub early: bool,
}
impl ConstraintSynthesizer<Fr> for Circuit {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
        let r = &self.f.inst.r1cs;
        let np = r.n_public();
        let mut vars = vec![Variable::One];
        let mut todo: Vec<&[Lc; 3]> = r.constraints.iter().collect();
        let add = |vars: &Vec<Variable>, k: &[Lc; 3]| {
            let lc = |l: &Lc| {
                let mut x = LinearCombination::<Fr>::zero();
                for (i, c) in l {
                    x += (ark_ff::Fp(Fe::from_le_mod(c)), vars[*i as usize]);
                }
                x
            };
            let (a, b, c) = (lc(&k[0]), lc(&k[1]), lc(&k[2]));
            cs.enforce_r1cs_constraint(move || a, move || b, move || c)
        };
        for i in 1..r.n_wires {
            let v = self.values[i as usize];
            let val = || v.map(ark_ff::Fp).ok_or(SynthesisError::AssignmentMissing);
            vars.push(if i <= np { cs.new_input_variable(val)? } else { cs.new_witness_variable(val)? });
            if self.early && i >= np {
                let (now, later): (Vec<_>, Vec<_>) = todo.into_iter().partition(|k| k.iter().flatten().all(|(w, _)| *w <= i));
                todo = later;
                for k in now {
                    add(&vars, k)?;
                }
            }
        }
        for k in todo {
            add(&vars, k)?;
        }
        Ok(())
    }
}

struct Item {
    f: Arc<Functional>,
    early: bool,
    seed: u64,
    compress: bool,
    /// before the first private wire only, or some private values known too
    known: u32,
}
impl Item {
    /// Does the circuit reach a constraint before the first value it does not know?
    fn constraint_first(&self) -> bool {
        let r = &self.f.inst.r1cs;
        let last = r.n_public() + self.known;
        self.early && last >= 1 && r.constraints.iter().any(|k| k.iter().flatten().all(|(w, _)| *w <= last))
    }
}
type Made = Result<(Ct, Vec<u8>), String>;

fn file(k: usize) -> String {
    format!("/work/ct{}", k)
}
fn lists(c: &mut Ctx, p: &[Fe]) -> Vec<(Vec<Fe>, &'static str)> {
    let mut v = vec![(p.to_vec(), "the public inputs")];
    if !p.is_empty() {
        let mut q = p.to_vec();
        let k = c.choose(p.len() as u64) as usize;
        q[k] = q[k].add(&Fe::one());
        v.push((q, "one value changed"));
        let mut q = p.to_vec();
        let k = c.choose(p.len() as u64) as usize;
        q.remove(k);
        v.push((q, "one value left out"));
        let k = c.choose(p.len() as u64) as usize;
        v.push((p[..k].to_vec(), "only the first values"));
        let mut q = p.to_vec();
        q.rotate_left(1);
        v.push((q, "rotated"));
        let mut q = p.to_vec();
        q.reverse();
        v.push((q, "in reverse"));
    }
    for x in [Fe::ZERO, Fe::one(), p.last().copied().unwrap_or(Fe::ZERO)] {
        let mut q = p.to_vec();
        q.push(x);
        v.push((q, "one value more"));
    }
    let mut q = vec![Fe::one()];
    q.extend_from_slice(p);
    v.push((q, "with the constant in front"));
    v
}

pub fn run(c: &mut Ctx) -> R {
    let n = 1 + c.choose(3) as usize;
    let mut items: Vec<Item> = vec![];
    for i in 0..n {
        let f = if i > 0 && c.choose(3) == 2 { items[0].f.clone() } else { Arc::new(functional(c.t(), 6)) };
        let np = f.inst.r1cs.n_public();
        let prv = f.inst.r1cs.n_wires - 1 - np;
        let known = if c.choose(3) == 2 { c.choose(prv as u64) as u32 } else { 0 };
        items.push(Item { f, early: c.choose(4) == 3, seed: c.seed64(), compress: c.choose(2) == 0, known });
    }
    let threads = c.choose(2) == 1;
    let publics: Vec<Vec<Fe>> = items.iter().map(|x| x.f.inst.witness[1..=x.f.inst.r1cs.n_public() as usize].to_vec()).collect();
    // encapsulating: one party each, or one process doing all of it
    let cfg = c.faults(true, false);
    let mut w = c.world(cfg);
    let slot: Slot<(usize, Made)> = Slot::new();
    let make = |k: usize, it: &Item| {
        let np = it.f.inst.r1cs.n_public();
        let values: Vec<Option<Fe>> = it.f.inst.witness.iter().enumerate().map(|(i, v)| (i as u32 <= np + it.known).then_some(*v)).collect();
        let circuit = Circuit { f: it.f.clone(), values, early: it.early };
        let (seed, compress, s) = (it.seed, it.compress, slot.clone());
        move || {
            let mut rng = ark_std::rand::rngs::StdRng::seed_from_u64(seed);
            let r = zkenc_core::encap::<Bn254, _, _>(circuit, &mut rng).map_err(|e| e.to_string());
            let r = r.and_then(|(ct, key)| {
                let f = std::fs::File::create(file(k)).map_err(|e| e.to_string())?;
                let mut o = std::io::BufWriter::new(f);
                if compress { ct.serialize_compressed(&mut o) } else { ct.serialize_uncompressed(&mut o) }.map_err(|e| e.to_string())?;
                std::io::Write::flush(&mut o).map_err(|e| e.to_string())?;
                Ok((ct, key.as_bytes().to_vec()))
            });
            s.put((k, r));
        }
    };
    let mut ids = vec![];
    if threads {
        for (k, it) in items.iter().enumerate() {
            let f = make(k, it);
            ids.push(w.spawn(&format!("maker{}", k), MEM, None, move || {
                f();
                Ok(())
            }));
        }
    } else {
        let fs: Vec<_> = items.iter().enumerate().map(|(k, it)| make(k, it)).collect();
        ids.push(w.spawn("maker", MEM, None, move || {
            for f in fs {
                f();
            }
            Ok(())
        }));
    }
    c.run(&mut w);
    for id in ids {
        let r = res(&w, id);
        ensure!(r.ok(), "encap_crashed", "encap: {}", r.tail());
    }
    let mut made: Vec<(Ct, Vec<u8>)> = vec![];
    let mut got = slot.take();
    got.sort_by_key(|x| x.0);
    for (k, m) in got {
        match m {
            Ok(x) => made.push(x),
            Err(e) => return viol("encap_failed", format!("encap of circuit {} failed: {}", k, e)),
        }
    }
    ensure!(made.len() == n, "encap_crashed", "{} of {} results", made.len(), n);
    let fes = |v: &[Fr]| v.iter().map(|x| x.0).collect::<Vec<_>>();
    for (k, (ct, key)) in made.iter().enumerate() {
        c.evals += 1;
        ensure!(fes(&ct.public_inputs) == publics[k], "public_inputs", "circuit {} has public inputs {:?}, its ciphertext {:?}", k, publics[k].iter().map(|x| x.to_dec()).collect::<Vec<_>>(), ct.public_inputs.iter().map(|x| x.0.to_dec()).collect::<Vec<_>>());
        ensure!(key.len() == 32, "key_length", "key of {} bytes", key.len());
        for (i, (_, k2)) in made.iter().enumerate() {
            ensure!(i == k || items[i].seed == items[k].seed || key != k2, "same_key", "encapsulations {} and {} made the same key", i, k);
        }
    }
    let stored: Vec<Vec<u8>> = (0..n).map(|k| get(&w, &file(k)).unwrap_or_default()).collect();

    // another process: reads them back, verifies, and recovers the keys
    struct Try {
        k: usize,
        values: Vec<Option<Fe>>,
        what: String,
        /// may it open, are its public inputs right, are the constraints met, is it complete
        ok: bool,
        publics: bool,
        sat: bool,
        full: bool,
    }
    let mut tries = vec![];
    for (k, it) in items.iter().enumerate() {
        let base = Try { k, values: it.f.inst.witness.iter().map(|v| Some(*v)).collect(), what: "the witness".into(), ok: true, publics: true, sat: true, full: true };
        tries.push(base);
        for _ in 0..c.choose(4) {
            let (v, mut what) = crate::witness::attempt(c, &it.f);
            let r = &it.f.inst.r1cs;
            let np = r.n_public() as usize;
            let publics = v[1..=np] == it.f.inst.witness[1..=np];
            let sat = simkit::model::satisfies(r, &v);
            let mut values: Vec<Option<Fe>> = v.iter().map(|x| Some(*x)).collect();
            let mut full = true;
            if c.choose(8) == 7 {
                let i = 1 + c.choose(values.len() as u64 - 1) as usize;
                values[i] = None;
                full = false;
                what = format!("{}, without wire {}", what, i);
            }
            tries.push(Try { k, values, what, ok: publics && sat && full, publics, sat, full });
        }
    }
    let checks: Vec<Vec<(Vec<Fe>, &'static str)>> = (0..n).map(|k| lists(c, &publics[k])).collect();
    let cfg = c.faults(true, false);
    let mut w = c.world(cfg);
    w.with(|g| {
        for (k, b) in stored.iter().enumerate() {
            g.put(&file(k), b.clone());
        }
    });
    type Read = Result<(Ct, Vec<bool>), String>;
    let reads: Slot<(usize, Read)> = Slot::new();
    let opens: Slot<(usize, Result<Vec<u8>, zkenc_core::Error>)> = Slot::new();
    let mut ids = vec![];
    for k in 0..n {
        let (compress, s, lists) = (items[k].compress, reads.clone(), checks[k].clone());
        let o = opens.clone();
        let mine: Vec<(usize, Circuit)> = tries.iter().enumerate().filter(|(_, t)| t.k == k).map(|(i, t)| (i, Circuit { f: items[k].f.clone(), values: t.values.clone(), early: items[k].early })).collect();
        ids.push(w.spawn(&format!("reader{}", k), MEM, None, move || {
            let load = || -> Result<Ct, String> {
                let f = std::fs::File::open(file(k)).map_err(|e| e.to_string())?;
                let mut r = std::io::BufReader::new(f);
                let ct = if compress { Ct::deserialize_compressed(&mut r) } else { Ct::deserialize_uncompressed(&mut r) }.map_err(|e| format!("{:?}", e))?;
                let mut rest = vec![];
                std::io::Read::read_to_end(&mut r, &mut rest).map_err(|e| e.to_string())?;
                if rest.is_empty() { Ok(ct) } else { Err(format!("{} bytes left over", rest.len())) }
            };
            match load() {
                Err(e) => s.put((k, Err(e))),
                Ok(ct) => {
                    let v = lists.iter().map(|(l, _)| zkenc_core::verify_ciphertext(&ct, &l.iter().map(|x| ark_ff::Fp(*x)).collect::<Vec<Fr>>())).collect();
                    for (i, circuit) in mine {
                        o.put((i, zkenc_core::decap::<Bn254, _>(circuit, &ct).map(|k| k.as_bytes().to_vec())));
                    }
                    s.put((k, Ok((ct, v))));
                }
            }
            Ok(())
        }));
    }
    c.run(&mut w);
    for id in ids {
        let r = res(&w, id);
        ensure!(r.ok(), "reader_crashed", "reading, verifying or opening: {}", r.tail());
    }
    for (k, r) in reads.take() {
        let (ct, v) = match r {
            Ok(x) => x,
            Err(e) => return viol("stored_unreadable", format!("ciphertext {} cannot be read back: {}", k, e)),
        };
        ensure!(ct == made[k].0, "stored_differs", "ciphertext {} read back differs", k);
        for ((l, what), yes) in checks[k].iter().zip(&v) {
            c.evals += 1;
            let want = *l == publics[k];
            if !want {
                c.nontrivial = true;
            }
            ensure!(*yes == want, if want { "verify_refuses" } else { "verify_accepts" }, "verify_ciphertext says {} to {} ({} values; the ciphertext has {})", yes, what, l.len(), publics[k].len());
        }
    }
    let mut seen = 0;
    for (i, r) in opens.take() {
        seen += 1;
        c.evals += 1;
        let t = &tries[i];
        match (&r, t.ok) {
            (Ok(key), true) => {
                c.probe("opened");
                let class = if items[t.k].constraint_first() { "wrong_key_constraint_before_witness" } else { "wrong_key" };
                ensure!(*key == made[t.k].1, class, "{}: decap gives another key than encap", t.what);
            }
            (Err(e), true) => return viol("valid_refused", format!("{}: decap fails: {}", t.what, e)),
            (Ok(_), false) => return viol("invalid_accepted", format!("{}: decap succeeds", t.what)),
            (Err(e), false) => {
                c.probe("refused");
                use zkenc_core::Error::*;
                let fits = match e {
                    SynthesisError(_) => !t.full,
                    InvalidWitness => t.full && !t.sat,
                    InvalidPublicInputs => t.full && !t.publics,
                    _ => false,
                };
                ensure!(fits, "error_kind", "{} (complete {}, satisfied {}, public inputs equal {}): {}", t.what, t.full, t.sat, t.publics, e);
            }
        }
    }
    ensure!(seen == tries.len(), "reader_crashed", "{} of {} openings answered", seen, tries.len());

    // a file damaged at rest: refused, or read as something that can be handled
    let k = c.choose(n as u64) as usize;
    let mut hurt = vec![];
    for _ in 0..1 + c.choose(4) {
        let mut b = stored[k].clone();
        if c.choose(2) == 0 {
            b.truncate(c.choose(b.len() as u64) as usize);
            c.fault("truncate");
            hurt.push((b, true, "truncated".to_string()));
        } else {
            let what = simkit::gen::damage(c, &mut b, None, None);
            let short = b.len() < stored[k].len() && stored[k].starts_with(&b);
            hurt.push((b, short, what));
        }
    }
    let mut w = c.world(FaultCfg::default());
    let out: Slot<(usize, Option<Ct>)> = Slot::new();
    let mut ids = vec![];
    for (i, (b, _, _)) in hurt.iter().enumerate() {
        let (b, o, compress) = (b.clone(), out.clone(), items[k].compress);
        let circuit = Circuit { f: items[k].f.clone(), values: items[k].f.inst.witness.iter().map(|v| Some(*v)).collect(), early: items[k].early };
        let p: Vec<Fr> = publics[k].iter().map(|x| ark_ff::Fp(*x)).collect();
        ids.push(w.spawn(&format!("damaged{}", i), MEM, None, move || {
            let mut r = &b[..];
            let ct = if compress { Ct::deserialize_compressed(&mut r) } else { Ct::deserialize_uncompressed(&mut r) }.ok();
            if let Some(ct) = &ct {
                let _ = zkenc_core::verify_ciphertext(ct, &p);
                let _ = zkenc_core::decap::<Bn254, _>(circuit, ct);
            }
            o.put((i, ct));
            Ok(())
        }));
    }
    c.run(&mut w);
    for (i, id) in ids.iter().enumerate() {
        let r = res(&w, *id);
        c.evals += 1;
        ensure!(r.ok(), "damaged_crashed", "a ciphertext that was {}: {}", hurt[i].2, r.tail());
    }
    for (i, ct) in out.take() {
        ensure!(ct.is_none() || !hurt[i].1, "truncated_accepted", "a ciphertext cut to {} of {} bytes was read", hurt[i].0.len(), stored[k].len());
    }
    Ok(())
}
