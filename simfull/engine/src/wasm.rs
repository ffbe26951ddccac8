//! C09, C10: the readers that work on witness files from disk, and on both formats from memory.
use crate::common::*;
use fr::Fe;
use ark_serialize::CanonicalSerialize;
use simkit::gen;
use simkit::model::{self, encode_wtns, parse_r1cs, parse_wtns, satisfies, Layout, RefParse, RefWtns};
use simkit::*;
use std::collections::BTreeMap;
use zkenc_cli::witness::WitnessFile;

fn limit(n: usize) -> usize {
    (64 << 20) + 200 * n
}
fn values(c: &mut Ctx) -> Vec<Fe> {
    let n = match c.choose(5) {
        0 => 1,
        1 => 200 + c.choose(400),
        _ => 1 + c.choose(20),
    } as usize;
    let mut p = Prng::new(c.seed64());
    let mut v = vec![Fe::one()];
    for _ in 1..n {
        v.push(match c.choose(4) {
            0 => Fe::from_u64(c.choose(3)),
            1 => Fe::from_i64(-1 - c.choose(300) as i64),
            2 => Fe::from_u64(p.next()),
            _ => Fe::from_canon([p.next(), p.next(), p.next(), p.next() >> 3]),
        });
    }
    v
}
/// A witness file with sections in some order, known and unknown.
fn encoded(c: &mut Ctx, v: &[Fe], any_order: bool) -> (Vec<u8>, Layout) {
    let order = sections(c, any_order);
    let b: Vec<Vec<u8>> = v.iter().map(|x| x.to_le().to_vec()).collect();
    encode_wtns(&fr::p_bytes(), &b, &order)
}
fn sections(c: &mut Ctx, any_order: bool) -> Vec<(u32, Vec<u8>)> {
    let mut order: Vec<(u32, Vec<u8>)> = vec![(1, vec![]), (2, vec![])];
    if c.choose(2) == 1 {
        for _ in 0..1 + c.choose(3) {
            let n = if c.choose(8) == 7 { 9000 } else { c.choose(50) as usize };
            let ty = *c.t().pick(&[0u32, 3, 4, 9, 0xffff_ffff]);
            order.push((ty, vec![c.choose(256) as u8; n]));
        }
        if any_order {
            gen::shuffle(c.t(), &mut order);
        } else {
            let k = c.choose(3);
            order.rotate_left(0);
            if k == 1 {
                let x = order.pop().unwrap();
                order.insert(1, x);
            }
        }
        c.probe("extra_sections");
    } else if any_order && c.choose(3) == 2 {
        order.swap(0, 1);
        c.probe("values_first");
    }
    order
}
fn spoil(c: &mut Ctx, b: &mut Vec<u8>, l: &Layout) -> String {
    let n = b.len();
    let s = if c.choose(3) == 0 {
        let k = if c.choose(2) == 0 && !l.fields.is_empty() {
            let i = c.choose(l.fields.len().min(40) as u64) as usize;
            l.fields[i].0
        } else {
            c.choose(n as u64) as usize
        };
        b.truncate(k);
        c.fault("truncate");
        format!("truncated to {} of {}", k, n)
    } else {
        let mut s = gen::damage(c, b, Some(l), None);
        if c.choose(5) == 4 {
            s += "; ";
            s += &gen::damage(c, b, Some(l), None);
        }
        s
    };
    c.log(&s);
    s
}
fn ended(o: &Outcome, what: &str, n: usize, big: usize) -> R {
    match o {
        Outcome::Ok | Outcome::Err(_) => Ok(()),
        Outcome::OutOfMemory(sz) => viol("memory", format!("{}: the reader asked for {} bytes (largest request {}) for a file of {}", what, sz, big, n)),
        Outcome::Hang => viol("hang", format!("{}: the reader does not end", what)),
        Outcome::Panic(p) => viol("panic", format!("{}: the reader panicked: {}", what, p)),
        o => viol("crash", format!("{}: {:?}", what, o)),
    }
}

/// The command-line reader, from the simulated disk.
pub fn wtns_disk(c: &mut Ctx) -> R {
    let v = values(c);
    let (orig, l) = encoded(c, &v, true);
    let mut b = orig.clone();
    let damaged = c.choose(2) == 1;
    let what = if damaged { spoil(c, &mut b, &l) } else { "intact".into() };
    let damaged = b != orig;
    let hard = !damaged && c.choose(3) == 2;
    let mut cfg = c.faults(true, hard);
    if b.len() > 8000 {
        cfg.short = cfg.short.min(100);
    }
    let n = b.len();
    let mut w = c.world(cfg);
    w.with(|g| {
        g.put("/work/w.wtns", b.clone());
        g.step_limit = 40 * n as u64 + 20_000;
    });
    type Got = Result<(Vec<u8>, u32, BTreeMap<u32, Vec<u8>>, Result<BTreeMap<u32, Fe>, String>), String>;
    let slot: Slot<Got> = Slot::new();
    let s = slot.clone();
    let id = w.spawn("reader", limit(n), None, move || {
        let r = WitnessFile::from_file("/work/w.wtns").map_err(|e| format!("{:#}", e)).map(|f| {
            let fe = f.to_field_elements::<ark_bn254::Fr>().map_err(|e| format!("{:#}", e));
            let nw = f.n_wires();
            assert_eq!(nw, f.n_witness);
            (f.prime.clone(), f.n_witness, f.assignments.clone().into_iter().collect(), fe.map(|m| m.into_iter().map(|(k, v)| (k, v.0)).collect()))
        });
        s.put(r);
        Ok(())
    });
    c.run(&mut w);
    let r = res(&w, id);
    c.evals += 1;
    c.nontrivial |= damaged || r.soft > 0 || !r.hard.is_empty();
    ended(&r.outcome, &what, n, r.big)?;
    let Some(got) = slot.take().pop() else { return viol("crash", r.tail()) };
    let expect = |p: &[u8], vals: &[Vec<u8>], got: &(Vec<u8>, u32, BTreeMap<u32, Vec<u8>>, Result<BTreeMap<u32, Fe>, String>)| -> Option<String> {
        if got.0 != p {
            return Some("prime differs".into());
        }
        if got.1 as usize != vals.len() || got.2.len() != vals.len() {
            return Some(format!("{} wires announced, {} read, file has {}", got.1, got.2.len(), vals.len()));
        }
        for (i, x) in vals.iter().enumerate() {
            if got.2.get(&(i as u32)) != Some(x) {
                return Some(format!("wire {} read as {:?}", i, got.2.get(&(i as u32)).map(|b| hexs(b))));
            }
        }
        if let Ok(m) = &got.3 {
            if m.len() != vals.len() {
                return Some(format!("{} field elements from {} wires", m.len(), vals.len()));
            }
            for (i, x) in vals.iter().enumerate() {
                if m.get(&(i as u32)) != Some(&Fe::from_le_mod(x)) {
                    return Some(format!("wire {} became {:?}", i, m.get(&(i as u32)).map(|f| f.to_dec())));
                }
            }
        }
        None
    };
    let full: Vec<Vec<u8>> = v.iter().map(|x| x.to_le().to_vec()).collect();
    match got {
        Err(e) => {
            c.probe("refused");
            ensure!(damaged || !r.hard.is_empty(), "refused", "a well-formed file of {} bytes was refused: {}", n, e);
        }
        Ok(g) => {
            if !damaged {
                c.probe("read");
                if let Some(d) = expect(&fr::p_bytes(), &full, &g) {
                    return viol("misread", format!("{} (faults {:?})", d, r.hard));
                }
                if let Err(e) = &g.3 {
                    return viol("refused", format!("the values of a well-formed file were refused: {}", e));
                }
            } else if b.len() < orig.len() && orig.starts_with(&b) {
                c.probe("truncated_accepted");
                if let Some(d) = expect(&fr::p_bytes(), &full, &g) {
                    return viol("truncated_accepted", format!("{}: {}", what, d));
                }
            } else {
                match parse_wtns(&b) {
                    RefWtns::Values(p, vals) => {
                        c.probe("read_as_encoded");
                        if let Some(d) = expect(&p, &vals, &g) {
                            return viol("misread", format!("{}: {}", what, d));
                        }
                    }
                    RefWtns::Malformed => return viol("malformed_accepted", format!("{}: an incomplete file gave {} wires", what, g.1)),
                    RefWtns::Ambiguous => c.probe("ambiguous_accepted"),
                }
            }
        }
    }
    Ok(())
}

/// A circuit without constraints that makes the first n wires of a witness visible.
fn probe_circuit(n_public: u32) -> Vec<u8> {
    let r = model::R1cs {
        field_size: 32,
        prime: fr::p_bytes().to_vec(),
        n_wires: n_public + 2,
        n_pub_out: 0,
        n_pub_in: n_public,
        n_prv_in: 1,
        n_labels: (n_public + 2) as u64,
        constraints: vec![],
        wire2label: Some((0..n_public as u64 + 2).collect()),
    };
    r.encode(&[(1, vec![]), (2, vec![]), (3, vec![])]).0
}

/// The reader behind the JavaScript library: the values show up as public inputs of a ciphertext.
pub fn wtns_wasm(c: &mut Ctx) -> R {
    let mut v = values(c);
    if v.len() == 1 {
        v.push(Fe::from_u64(7));
    }
    v.truncate(60);
    let (orig, l) = encoded(c, &v, true);
    let mut b = orig.clone();
    let damaged = c.choose(2) == 1;
    let what = if damaged { spoil(c, &mut b, &l) } else { "intact".into() };
    let damaged = b != orig;
    let n = b.len();
    let np = v.len() as u32 - 1;
    let circuit = probe_circuit(np);
    // a witness of the probe circuit has one more wire
    let mut v2 = v.clone();
    v2.push(Fe::from_u64(5));
    let full: Vec<Vec<u8>> = v2.iter().map(|x| x.to_le().to_vec()).collect();
    let (good, _) = encode_wtns(&fr::p_bytes(), &full, &[(1, vec![]), (2, vec![])]);
    let short_circuit = probe_circuit(np.saturating_sub(1)); // n_wires == v.len()
    let cfg = c.faults(false, false);
    let mut w = c.world(cfg);
    w.with(|g| g.step_limit = 200_000);
    type Got = (Result<Vec<u8>, String>, Option<Result<Vec<u8>, String>>, Result<(Vec<u8>, Vec<u8>), String>);
    let slot: Slot<Got> = Slot::new();
    let (s, b2) = (slot.clone(), b.clone());
    let id = w.spawn("reader", limit(n + circuit.len()), None, move || {
        // 1: encapsulation exposes the values read
        let e = zkenc_js::wasm_encap(&circuit, &b2).map(|e| e.ciphertext()).map_err(|e| e.text());
        // 2: decapsulation with this witness of a ciphertext for the same values
        let ct = zkenc_js::wasm_encap(&short_circuit, &good).map(|e| (e.ciphertext(), e.key())).map_err(|e| e.text());
        let d = ct.as_ref().ok().map(|(ct, _)| zkenc_js::wasm_decap(&short_circuit, &b2, ct).map_err(|e| e.text()));
        s.put((e, d, ct));
        Ok(())
    });
    c.run(&mut w);
    let r = res(&w, id);
    c.evals += 1;
    c.nontrivial |= damaged;
    ended(&r.outcome, &what, n, r.big)?;
    let Some((e, d, ct)) = slot.take().pop() else { return viol("crash", r.tail()) };
    let (_, key) = ct.map_err(|e| Violation { key: "refused".into(), detail: format!("encapsulation with a good witness failed: {}", e) })?;
    let reading: Option<Vec<Fe>> = if !damaged || (b.len() < orig.len() && orig.starts_with(&b)) {
        Some(v.clone())
    } else {
        match parse_wtns(&b) {
            RefWtns::Values(_, vals) => Some(vals.iter().map(|x| Fe::from_le_mod(&x[..x.len().min(32)])).collect()),
            RefWtns::Malformed => None,
            RefWtns::Ambiguous => {
                c.probe("ambiguous");
                return Ok(());
            }
        }
    };
    match e {
        Ok(ct) => {
            let d = decode_ct(&ct).map_err(|e| Violation { key: "bad_ciphertext".into(), detail: e })?;
            let got: Vec<Fe> = d.public_inputs.iter().map(|x| x.0).collect();
            match &reading {
                Some(f) if f.len() > np as usize && got[..] == f[1..=np as usize] => c.probe("read"),
                Some(f) => {
                    let key = if damaged { "damaged_misread" } else { "misread" };
                    return viol(key, format!("{}: the file holds {:?}.. ({} values) but {:?}.. ({}) were used", what, f.iter().take(4).map(|x| x.to_dec()).collect::<Vec<_>>(), f.len(), got.iter().take(4).map(|x| x.to_dec()).collect::<Vec<_>>(), got.len()));
                }
                None => return viol("malformed_accepted", format!("{}: an incomplete file gave a ciphertext for {:?}..", what, got.iter().take(4).map(|x| x.to_dec()).collect::<Vec<_>>())),
            }
        }
        Err(e) => {
            c.probe("refused");
            ensure!(damaged, "refused", "a well-formed witness was refused: {}", e);
        }
    }
    match d {
        Some(Ok(k)) => {
            c.probe("decapsulated");
            ensure!(k == key, "misread", "{}: another key came out", what);
            let np1 = np as usize - 1;
            let fine = reading.as_ref().is_some_and(|f| f.len() == v.len() && f[1..=np1] == v[1..=np1]);
            ensure!(fine, "damaged_misread", "{}: decapsulation succeeded with a witness it does not hold", what);
        }
        Some(Err(e)) => {
            c.probe("not_decapsulated");
            ensure!(damaged, "refused", "decapsulation with a well-formed witness failed: {}", e);
        }
        None => {}
    }
    Ok(())
}

/// The circuit reader behind the JavaScript library, observed through what it lets decapsulate.
pub fn r1cs_wasm(c: &mut Ctx) -> R {
    let f = functional(c.t(), 5);
    let mut r = f.inst.r1cs.clone();
    if c.choose(4) == 3 {
        let fs = *c.t().pick(&[40u32, 48, 64]);
        r.field_size = fs;
        r.prime.resize(fs as usize, 0);
        for k in r.constraints.iter_mut().flatten().flatten() {
            k.1.resize(fs as usize, 0);
        }
        c.probe("wide_field");
    }
    let labels = c.choose(4) != 3;
    if !labels {
        r.wire2label = None;
    }
    let ord = gen::order(c.t(), labels, true);
    let (orig, l) = r.encode(&ord);
    let good = f.inst.witness.clone();
    // assignments around the good one: what the reader dropped or changed shows in a verdict
    let mut tries = vec![good.clone()];
    for _ in 0..4 {
        let mut w = good.clone();
        let i = 1 + c.choose(w.len() as u64 - 1) as usize;
        w[i] = w[i].add(&Fe::from_u64(1 + c.choose(3)));
        tries.push(w);
    }
    let mut b = orig.clone();
    let what = if c.choose(2) == 1 { spoil(c, &mut b, &l) } else { "intact".into() };
    let damaged = b != orig;
    let n = b.len();
    let np = r.n_public() as usize;
    let wf = wtns(c, &good, true);
    let cfg = c.faults(false, false);
    let mut w = c.world(cfg);
    w.with(|g| g.step_limit = 200_000);
    type Got = (Result<Vec<u8>, String>, Vec<Result<Vec<u8>, String>>);
    let slot: Slot<Got> = Slot::new();
    let tf: Vec<Vec<u8>> = tries.iter().map(|t| encode_wtns(&fr::p_bytes(), &t.iter().map(|x| x.to_le().to_vec()).collect::<Vec<_>>(), &[(1, vec![]), (2, vec![])]).0).collect();
    let (s, b2, o2) = (slot.clone(), b.clone(), orig.clone());
    let id = w.spawn("reader", limit(n + orig.len()), None, move || {
        let e = zkenc_js::wasm_encap(&b2, &wf).map(|e| e.ciphertext()).map_err(|e| e.text());
        let ct = zkenc_js::wasm_encap(&o2, &wf).map(|e| e.ciphertext()).map_err(|e| e.text());
        let d = match &ct {
            Ok(ct) => tf.iter().map(|t| zkenc_js::wasm_decap(&b2, t, ct).map_err(|e| e.text())).collect(),
            Err(e) => vec![Err(e.clone())],
        };
        s.put((e, d));
        Ok(())
    });
    c.run(&mut w);
    let rs = res(&w, id);
    c.evals += 1 + tries.len() as u64;
    c.nontrivial |= damaged;
    ended(&rs.outcome, &what, n, rs.big)?;
    let Some((e, ds)) = slot.take().pop() else { return viol("crash", rs.tail()) };
    let truncated = b.len() < orig.len() && orig.starts_with(&b);
    // what these bytes say
    let reading = if !damaged || truncated {
        Some(r.clone())
    } else {
        match parse_r1cs(&b, false) {
            // coefficients that no 32-byte field has are not claimed to be read in any way
            RefParse::Circuit(x) if x.constraints.iter().flatten().flatten().any(|f| f.1.iter().skip(32).any(|&b| b != 0)) => {
                c.probe("oversized_coefficient");
                return Ok(());
            }
            RefParse::Circuit(x) => Some(x),
            RefParse::Malformed => None,
            RefParse::Ambiguous => {
                c.probe("ambiguous");
                return Ok(());
            }
        }
    };
    let cls = |k: &str| if truncated { "truncated_accepted".to_string() } else { k.to_string() };
    match (&e, &reading) {
        (Ok(_), None) => return viol("malformed_accepted", format!("{}: an incomplete circuit was used for encapsulation", what)),
        (Err(e), _) if !damaged => return viol("refused", format!("a well-formed circuit was refused: {}", e)),
        (Ok(ct), Some(x)) => {
            let d = decode_ct(ct).map_err(|e| Violation { key: "bad_ciphertext".into(), detail: e })?;
            let xp = x.n_pub_out as u64 + x.n_pub_in as u64;
            let got: Vec<Fe> = d.public_inputs.iter().map(|v| v.0).collect();
            ensure!(xp < good.len() as u64 && got[..] == good[1..=xp as usize], cls("misread"), "{}: the circuit has {} public wires, {} were bound", what, xp, got.len());
            c.probe("encapsulated");
        }
        _ => {}
    }
    for (t, d) in tries.iter().zip(&ds) {
        match (d, &reading) {
            (Ok(_), None) => return viol("malformed_accepted", format!("{}: an incomplete circuit was used for decapsulation", what)),
            (Ok(_), Some(x)) => {
                c.probe("decapsulated");
                ensure!(satisfies(x, t) && t[1..=np] == good[1..=np], cls("misread"), "{}: an assignment that violates the circuit was accepted", what);
            }
            (Err(e), Some(x)) => {
                c.probe("not_decapsulated");
                if !damaged {
                    ensure!(!satisfies(x, t) || t[1..=np] != good[1..=np], "misread", "{}: a satisfying assignment was refused: {}", what, e);
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// C10: threads of one process reading witness files that come, change and go.
pub fn wtns_threads(c: &mut Ctx) -> R {
    let n = 1 + c.choose(3);
    let mut items: Vec<(Vec<u8>, Vec<Fe>)> = vec![];
    for _ in 0..n {
        let mut v = values(c);
        let order = sections(c, true);
        let enc = |v: &[Fe]| encode_wtns(&fr::p_bytes(), &v.iter().map(|x| x.to_le().to_vec()).collect::<Vec<_>>(), &order).0;
        items.push((enc(&v), v.clone()));
        if c.choose(2) == 1 && !v.is_empty() {
            // the same file but for one value
            let k = c.choose(v.len() as u64) as usize;
            v[k] = v[k].add(&Fe::one());
            items.push((enc(&v), v));
        }
    }
    let size = items.iter().map(|x| x.0.len()).max().unwrap_or(0);
    hist::history(
        c,
        items,
        size,
        hist::Reader {
            write: |x, p| std::fs::write(p, &x.0).map_err(|e| e.to_string()),
            read: |_, p| {
                let f = WitnessFile::from_file(p).map_err(|e| format!("{:#}", e))?;
                let m = f.to_field_elements::<ark_bn254::Fr>().map_err(|e| format!("{:#}", e))?;
                Ok((f.n_witness, m.into_iter().map(|(k, v)| (k, v.0)).collect::<BTreeMap<u32, Fe>>()))
            },
            differs: |g, x| {
                let want: BTreeMap<u32, Fe> = x.1.iter().enumerate().map(|(i, v)| (i as u32, *v)).collect();
                (g.0 as usize != x.1.len() || g.1 != want).then(|| format!("{} of {} wires read", g.1.len(), x.1.len()))
            },
        },
    )
}

/// One process (page, server) that uses the bindings for several circuits and witnesses over its life, on one thread or
/// several: every call answers for the files it is given, whatever was given before.
pub fn wasm_history(c: &mut Ctx) -> R {
    history(c, false)
}
/// The same for the Rust library: circuit and witness files from disk, wires set one by one or all at once.
pub fn lib_history(c: &mut Ctx) -> R {
    history(c, true)
}
type Sealed = (Vec<u8>, Vec<u8>, Vec<Fe>);
fn lib_circuit(k: usize, wi: usize, n: Option<u32>, style: u64) -> Result<zkenc_cli::circuit::CircomCircuit, String> {
    let mut m = WitnessFile::from_file(&format!("/work/w{}_{}", k, wi)).map_err(|e| format!("{:#}", e))?.to_field_elements::<ark_bn254::Fr>().map_err(|e| format!("{:#}", e))?;
    let mut x = zkenc_cli::circuit::CircomCircuit::from_r1cs(format!("/work/c{}", k)).map_err(|e| format!("{:#}", e))?;
    let n = n.map(|_| x.n_public_inputs());
    m.retain(|i, _| n.is_none_or(|n| *i <= n));
    match style {
        0 => x.set_witness(m),
        1 => m.into_iter().for_each(|(i, v)| x.set_wire(i, v)),
        _ => {
            // values of another statement first, then the right ones over them
            x.set_witness(m.keys().map(|i| (*i, ark_bn254::Fr::from(*i as u64 + 3))).collect());
            m.into_iter().for_each(|(i, v)| x.set_wire(i, v));
        }
    }
    Ok(x)
}
fn history(c: &mut Ctx, lib: bool) -> R {
    struct Circuit {
        r: model::R1cs,
        bytes: Vec<u8>,
        wits: Vec<(Vec<Fe>, Vec<u8>)>,
    }
    let mut circuits: Vec<Circuit> = vec![];
    for _ in 0..1 + c.choose(2) {
        let f = functional(c.t(), 4);
        let mut wits = vec![f.inst.witness.clone()];
        for _ in 0..c.choose(3) {
            let mut w = f.inst.witness.clone();
            let i = 1 + c.choose(w.len() as u64 - 1) as usize;
            w[i] = w[i].add(&Fe::from_u64(1 + c.choose(3)));
            if c.choose(2) == 1 {
                f.solve(&mut w);
            }
            wits.push(w);
        }
        let labels = c.choose(2) == 1;
        let order = gen::order(c.t(), labels, true);
        let mut r = f.inst.r1cs.clone();
        if !labels {
            r.wire2label = None;
        }
        let worder = sections(c, true);
        let enc = |w: &Vec<Fe>| encode_wtns(&fr::p_bytes(), &w.iter().map(|x| x.to_le().to_vec()).collect::<Vec<_>>(), &worder).0;
        let wits: Vec<(Vec<Fe>, Vec<u8>)> = wits.into_iter().map(|w| { let b = enc(&w); (w, b) }).collect();
        // circuits that differ from this one in a single coefficient
        let mut kin = vec![r.clone()];
        for _ in 0..c.choose(3) {
            let mut x = r.clone();
            let all: Vec<(usize, usize, usize)> = x.constraints.iter().enumerate().flat_map(|(i, k)| k.iter().enumerate().flat_map(move |(j, l)| (0..l.len()).map(move |m| (i, j, m)))).collect();
            if all.is_empty() {
                break;
            }
            let (i, j, m) = all[c.choose(all.len() as u64) as usize];
            let f = &mut x.constraints[i][j][m];
            f.1 = Fe::from_le_mod(&f.1).add(&Fe::from_u64(1 + c.choose(5))).to_le().to_vec();
            kin.push(x);
        }
        for r in kin {
            let bytes = r.encode(&order).0;
            circuits.push(Circuit { r, bytes, wits: wits.clone() });
        }
    }
    let nc = circuits.len() as u64;
    // (circuit, witness, open one's own latest ciphertext for that circuit?)
    let threads = 1 + c.choose(3);
    let plans: Vec<Vec<(usize, usize, bool)>> = (0..threads)
        .map(|_| {
            (0..2 + c.choose(7))
                .map(|_| {
                    let k = c.choose(nc) as usize;
                    (k, c.choose(circuits[k].wits.len() as u64) as usize, c.choose(2) == 1)
                })
                .collect()
        })
        .collect();
    c.log(format!("{:?}", plans));
    c.nontrivial = true;
    let mem = limit(circuits.iter().map(|x| x.bytes.len() + x.wits.iter().map(|w| w.1.len()).sum::<usize>()).sum::<usize>() * 8);
    let circuits = std::sync::Arc::new(circuits);
    let mut cfg = c.faults(true, false);
    if mem > limit(64_000) {
        cfg.short = cfg.short.min(100);
    }
    let style = c.choose(3);
    let mut w = c.world(cfg);
    if lib {
        w.with(|g| {
            for (k, x) in circuits.iter().enumerate() {
                g.put(&format!("/work/c{}", k), x.bytes.clone());
                for (wi, v) in x.wits.iter().enumerate() {
                    g.put(&format!("/work/w{}_{}", k, wi), v.1.clone());
                }
            }
        });
    }
    #[allow(clippy::type_complexity)]
    let slot: Slot<(usize, usize, Result<(Vec<u8>, Vec<u8>), String>, Option<(Sealed, Result<Vec<u8>, String>)>)> = Slot::new();
    let mut ids = vec![];
    for (i, plan) in plans.iter().cloned().enumerate() {
        let (s, cs) = (slot.clone(), circuits.clone());
        ids.push(w.spawn(&format!("thread{}", i), mem, None, move || {
            let mut held: BTreeMap<usize, Sealed> = BTreeMap::new();
            for (j, (k, wi, open)) in plan.into_iter().enumerate() {
                let x = &cs[k];
                let (vals, wb) = &x.wits[wi];
                let np = x.r.n_public() as usize;
                let e = if lib {
                    lib_circuit(k, wi, Some(np as u32), style).and_then(|x| {
                        let (ct, key) = zkenc_core::encap::<ark_bn254::Bn254, _, _>(x, &mut ark_std::rand::rngs::OsRng).map_err(|e| e.to_string())?;
                        let mut b = vec![];
                        ct.serialize_compressed(&mut b).map_err(|e| format!("{:?}", e))?;
                        Ok((b, key.as_bytes().to_vec()))
                    })
                } else {
                    zkenc_js::wasm_encap(&x.bytes, wb).map(|e| (e.ciphertext(), e.key())).map_err(|e| e.text())
                };
                if let (Ok((ct, key)), false) = (&e, open && held.contains_key(&k)) {
                    held.insert(k, (ct.clone(), key.clone(), vals[1..=np].to_vec()));
                }
                let d = held.get(&k).map(|h| {
                    let r = if lib {
                        lib_circuit(k, wi, None, style).and_then(|x| {
                            let ct = decode_ct(&h.0)?;
                            zkenc_core::decap(x, &ct).map(|k| k.as_bytes().to_vec()).map_err(|e| e.to_string())
                        })
                    } else {
                        zkenc_js::wasm_decap(&x.bytes, wb, &h.0).map_err(|e| e.text())
                    };
                    (h.clone(), r)
                });
                s.put((i, j, e, d));
            }
            Ok(())
        }));
    }
    c.run(&mut w);
    for id in ids {
        let r = res(&w, id);
        ended(&r.outcome, "several circuits in one process", mem, r.big)?;
    }
    let mut got = slot.take();
    got.sort_by_key(|x| (x.0, x.1));
    for (i, j, e, d) in got {
        c.evals += 1;
        let (k, wi, _) = plans[i][j];
        let x = &circuits[k];
        let vals = &x.wits[wi].0;
        let np = x.r.n_public() as usize;
        let (ct, _) = e.map_err(|e| Violation { key: "refused_in_company".into(), detail: format!("thread {} step {}: circuit {} with witness {} is refused: {}", i, j, k, wi, e) })?;
        let ct = decode_ct(&ct).map_err(|e| Violation { key: "bad_ciphertext".into(), detail: e })?;
        let bound: Vec<Fe> = ct.public_inputs.iter().map(|v| v.0).collect();
        ensure!(bound[..] == vals[1..=np], "read_in_company", "thread {} step {}: {} public values bound, not those of witness {} in circuit {}", i, j, bound.len(), wi, k);
        if let Some(((_, key, publics), r)) = d {
            let fine = satisfies(&x.r, vals) && vals[1..=np] == publics[..];
            match r {
                Ok(got) => {
                    c.probe("decapsulated");
                    ensure!(fine, "read_in_company", "thread {} step {}: circuit {} accepts witness {}, which does not satisfy it (or is another statement's)", i, j, k, wi);
                    ensure!(got == key, "wrong_key", "thread {} step {}: circuit {} with witness {} gives another key", i, j, k, wi);
                }
                Err(e) => {
                    c.probe("not_decapsulated");
                    ensure!(!fine, "refused_in_company", "thread {} step {}: the right witness {} of circuit {} is refused: {}", i, j, wi, k, e);
                }
            }
        }
    }
    Ok(())
}
