//! C06: who can decapsulate.
use crate::common::*;
use fr::Fe;
use simkit::gen;
use simkit::model::satisfies;
use simkit::*;

/// An assignment someone might try, and what it is.
pub fn attempt(c: &mut Ctx, f: &Functional) -> (Vec<Fe>, String) {
    let r = &f.inst.r1cs;
    let np = r.n_public() as usize;
    let first_prv = 1 + np as u64;
    let first_mid = first_prv + r.n_prv_in as u64;
    let mut w = f.inst.witness.clone();
    match c.choose(7) {
        0 => (w, "the original witness".into()),
        1 | 2 => {
            // another witness for the same public inputs, when outputs allow it
            for _ in 0..1 + c.choose(2) {
                let i = first_prv + c.choose(r.n_prv_in as u64);
                let s = c.choose(1 << 31);
                w[i as usize] = Fe::from_u64(s);
            }
            f.solve(&mut w);
            (w, "other private inputs".into())
        }
        3 if np > 0 => {
            // honest witness for other public inputs
            let i = 1 + r.n_pub_out as u64 + c.choose(r.n_pub_in.max(1) as u64);
            w[i as usize] = w[i as usize].add(&Fe::from_u64(1 + c.choose(5)));
            f.solve(&mut w);
            (w, "a witness for other public inputs".into())
        }
        4 if np > 0 => {
            // public inputs replaced, the rest kept
            let i = 1 + c.choose(np as u64) as usize;
            w[i] = match c.choose(3) {
                0 => Fe::ZERO,
                1 => w[i].neg(),
                _ => Fe::from_u64(c.choose(1 << 31)),
            };
            (w, format!("public wire {} replaced", i))
        }
        5 if first_mid < r.n_wires as u64 => {
            let i = first_mid + c.choose(r.n_wires as u64 - first_mid);
            w[i as usize] = w[i as usize].add(&Fe::from_u64(1));
            (w, format!("computed wire {} changed", i))
        }
        _ => {
            let i = 1 + c.choose(r.n_wires as u64 - 1) as usize;
            let j = 1 + c.choose(r.n_wires as u64 - 1) as usize;
            w.swap(i, j);
            (w, format!("wires {} and {} exchanged", i, j))
        }
    }
}
fn accept(f: &Functional, w: &[Fe]) -> bool {
    let np = f.inst.r1cs.n_public() as usize;
    satisfies(&f.inst.r1cs, w) && w[1..=np] == f.inst.witness[1..=np]
}
/// A file with fewer values than the circuit has wires, consistently encoded.
fn cut(c: &mut Ctx, w: &mut Vec<Fe>) -> String {
    let k = 1 + c.choose(w.len() as u64 - 1) as usize;
    w.truncate(k);
    format!("only the first {} wires", k)
}

pub fn cli(c: &mut Ctx) -> R {
    let f = functional(c.t(), 5);
    let msg = gen::message(c.t());
    let j = Job::of(c, "u", f.inst.clone(), msg);
    if c.choose(3) == 2 && f.inst.r1cs.n_public() > 0 {
        return incomplete(c, &f, j);
    }
    let made = prepare(c, &[&j], vec![j.encrypt("pkg"), j.encap("ct", "key")])?;
    let key = made[&j.p("key")].clone();
    // the commitment is to every public wire
    let ct = decode_ct(&made[&j.p("ct")]).map_err(|e| Violation { key: "bad_ciphertext".into(), detail: e })?;
    ensure!(ct.public_inputs.len() == f.inst.r1cs.n_public() as usize, "partial_binding", "{} public wires but {} bound", f.inst.r1cs.n_public(), ct.public_inputs.len());
    let n = 1 + c.choose(4) as usize;
    let mut tries = vec![];
    for _ in 0..n {
        let (mut w, mut what) = attempt(c, &f);
        let mut ok = accept(&f, &w);
        if c.choose(8) == 7 {
            what = cut(c, &mut w);
            ok = false;
        }
        let file = wtns(c, &w, false);
        let high = c.choose(2) == 1;
        tries.push((file, what, ok, high));
    }
    let cfg = c.faults(true, false);
    let mut w = c.world(cfg);
    w.with(|g| {
        for (p, d) in &made {
            g.put(p, d.clone());
        }
    });
    let mut ids = vec![];
    for (i, (file, _, _, high)) in tries.iter().enumerate() {
        let (wf, o) = (format!("w{}", i), format!("o{}", i));
        w.with(|g| g.put(&j.p(&wf), file.clone()));
        ids.push(spawn(&mut w, &format!("try{}", i), if *high { j.decrypt(&wf, "pkg", &o) } else { j.decap(&wf, "ct", &o) }));
    }
    c.run(&mut w);
    for (i, id) in ids.iter().enumerate() {
        let (_, what, ok, high) = &tries[i];
        let r = res(&w, *id);
        let out = get(&w, &j.p(&format!("o{}", i)));
        c.evals += 1;
        ensure!(r.clean(), "crashed", "with {}: {}", what, r.tail());
        if *ok {
            c.probe("valid_witness");
            ensure!(r.ok(), "valid_refused", "{} satisfies the circuit for these public inputs but was refused: {}", what, r.tail());
            let want = if *high { &j.msg } else { &key };
            ensure!(out.as_ref() == Some(want), "valid_wrong_result", "{} gave {:?}", what, out.map(|b| hexs(&b)));
        } else {
            c.probe("invalid_witness");
            c.nontrivial = true;
            ensure!(!r.ok(), "invalid_accepted", "{} was accepted; it wrote {:?}", what, out.map(|b| hexs(&b)));
            ensure!(out.is_none(), "invalid_wrote_output", "{} was refused but wrote {:?}", what, out.map(|b| hexs(&b)));
        }
    }
    Ok(())
}

/// Some public signal has no value, or its line is missing from the symbol file.
fn incomplete(c: &mut Ctx, f: &Functional, mut j: Job) -> R {
    let mut ents = public_entries(&f.inst);
    let what;
    if c.choose(2) == 0 {
        // remove one whole stem
        let k = c.choose(ents.len() as u64) as usize;
        let stem = ents[k].0.split('[').next().unwrap().to_string();
        ents.retain(|(n, _)| n.split('[').next().unwrap() != stem);
        if c.choose(2) == 1 {
            ents.push((format!("{}_", stem), Fe::one()));
        }
        let json = gen::input_json(c.t(), &ents);
        what = format!("no value for {} in {}", stem, json);
        j.files.insert("in.json", json.into_bytes());
    } else {
        let k = c.choose(ents.len() as u64) as usize;
        let name = ents[k].0.clone();
        let wire = f.inst.signals.iter().find(|s| s.0 == name).unwrap().1.to_string();
        let sym = String::from_utf8(j.files["c.sym"].clone()).unwrap();
        let keep: Vec<&str> = sym
            .lines()
            .filter(|l| {
                let p: Vec<&str> = l.split(',').collect();
                p.len() != 4 || p[1] != wire
            })
            .collect();
        what = format!("no symbol for public wire {}", wire);
        j.files.insert("c.sym", keep.join("\n").into_bytes());
    }
    let cfg = c.faults(true, false);
    let mut w = c.world(cfg);
    j.install(&w);
    let a = spawn(&mut w, "encrypt", j.encrypt("pkg"));
    let b = spawn(&mut w, "encap", j.encap("ct", "key"));
    c.run(&mut w);
    c.evals += 2;
    c.nontrivial = true;
    c.probe("incomplete_public_inputs");
    for (id, n, outs) in [(a, "encrypt", vec!["pkg"]), (b, "encap", vec!["ct", "key"])] {
        let r = res(&w, id);
        ensure!(r.clean(), "crashed", "{} with {}: {}", n, what, r.tail());
        ensure!(!r.ok(), format!("{}_incomplete_accepted", n), "{} succeeded with {}", n, what);
        for o in outs {
            ensure!(get(&w, &j.p(o)).is_none(), "incomplete_wrote_output", "{} with {} failed but wrote {}", n, what, o);
        }
    }
    Ok(())
}

/// The same, for the Rust functions behind the JavaScript library.
pub fn wasm(c: &mut Ctx) -> R {
    let f = functional(c.t(), 5);
    let ord = gen::order(c.t(), true, true);
    let r1cs = f.inst.r1cs.encode(&ord).0;
    let np = f.inst.r1cs.n_public() as usize;
    // what the library passes: constant, public wires, zeros; or a full witness
    let mut pubw = f.inst.witness.clone();
    match c.choose(3) {
        0 => pubw.truncate(1 + np),
        1 => pubw[1 + np..].fill(Fe::ZERO),
        _ => {}
    }
    let partial = c.choose(4) == 3 && np > 0;
    if partial {
        let k = 1 + c.choose(np as u64) as usize;
        pubw.truncate(k);
        c.probe("incomplete_public_inputs");
    }
    let pubfile = wtns(c, &pubw, false);
    let mut tries = vec![];
    for _ in 0..1 + c.choose(4) {
        let (mut w, mut what) = attempt(c, &f);
        let mut ok = accept(&f, &w);
        if c.choose(8) == 7 {
            what = cut(c, &mut w);
            ok = false;
        }
        tries.push((wtns(c, &w, false), what, ok));
    }
    let mut w = c.world(FaultCfg::default());
    let slot: Slot<(Result<(Vec<u8>, Vec<u8>), String>, Vec<Result<Vec<u8>, String>>)> = Slot::new();
    let s2 = slot.clone();
    let t2: Vec<Vec<u8>> = tries.iter().map(|t| t.0.clone()).collect();
    let id = w.spawn("wasm", MEM, None, move || {
        let e = zkenc_js::wasm_encap(&r1cs, &pubfile).map(|e| (e.ciphertext(), e.key())).map_err(|e| e.text());
        let mut v = vec![];
        if let Ok((ct, _)) = &e {
            for t in &t2 {
                v.push(zkenc_js::wasm_decap(&r1cs, t, ct).map_err(|e| e.text()));
            }
        }
        s2.put((e, v));
        Ok(())
    });
    c.run(&mut w);
    let r = res(&w, id);
    ensure!(r.ok(), "crashed", "{}", r.tail());
    let (e, v) = slot.take().pop().unwrap();
    c.evals += 1;
    if partial {
        c.nontrivial = true;
        ensure!(e.is_err(), "encap_incomplete_accepted", "wasm_encap accepted {} of {} public wires", pubw.len() - 1, np);
        return Ok(());
    }
    let (ct, key) = match e {
        Ok(x) => x,
        Err(e) => return viol("encap_failed", format!("wasm_encap failed: {}", e)),
    };
    let d = decode_ct(&ct).map_err(|e| Violation { key: "bad_ciphertext".into(), detail: e })?;
    let want: Vec<String> = f.inst.witness[1..=np].iter().map(|x| x.to_dec()).collect();
    let got: Vec<String> = d.public_inputs.iter().map(|x| x.0.to_dec()).collect();
    ensure!(want == got, "partial_binding", "public wires {:?} but bound {:?}", want, got);
    ensure!(key.len() == 32, "key_length", "{}", key.len());
    for ((_, what, ok), got) in tries.iter().zip(v) {
        c.evals += 1;
        if *ok {
            c.probe("valid_witness");
            match got {
                Ok(k) => ensure!(k == key, "valid_wrong_result", "{} gave another key", what),
                Err(e) => return viol("valid_refused", format!("{} satisfies the circuit for these public inputs but was refused: {}", what, e)),
            }
        } else {
            c.probe("invalid_witness");
            c.nontrivial = true;
            ensure!(got.is_err(), "invalid_accepted", "{} was accepted", what);
        }
    }
    Ok(())
}
