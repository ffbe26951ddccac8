//! The command-line program: round trips, I/O faults, damaged packages.
use crate::common::*;
use simkit::gen;
use simkit::model::Package;
use simkit::*;

/// C01: several users at once; encrypt/encap, then decrypt/decap; only interruptions and splits.
pub fn roundtrip(c: &mut Ctx) -> R {
    let n = 1 + c.choose(3) as usize;
    let mut jobs = vec![];
    for i in 0..n {
        let msg = if c.choose(60) == 59 {
            c.probe("long_message");
            gen::long_message(c.t())
        } else {
            gen::message(c.t())
        };
        jobs.push(Job::random(c, &format!("u{}", i), msg));
    }
    let in_place = c.choose(8) == 7;
    let out = if in_place { "pkg" } else { "out" };
    let cfg = c.faults(true, false);
    let mut w = c.world(cfg);
    let mut ids = vec![];
    for j in &jobs {
        j.install(&w);
        let stale = w.with(|g| g.tape.choose(4) == 3);
        if stale {
            w.with(|g| {
                g.put(&j.p("pkg"), vec![b'S'; 30_000]);
                g.put(&j.p("key"), vec![b'S'; 77]);
            });
        }
        let mut enc = j.encrypt("pkg");
        if in_place {
            // the package replaces the message
            swap_arg(&mut enc, &j.a("msg.bin"), &j.a("pkg"));
            w.with(|g| g.put(&j.p("pkg"), j.msg.clone()));
            c.probe("in_place");
        }
        let cap = piped(c, &w, j.encap("ct", "key"), j, &["in.json", "c.sym"]);
        let enc = piped(c, &w, enc, j, &["in.json", "c.sym", "msg.bin"]);
        ids.push((spawn(&mut w, &format!("encrypt@{}", j.dir), enc), "encrypt"));
        ids.push((spawn(&mut w, &format!("encap@{}", j.dir), cap), "encap"));
    }
    c.run(&mut w);
    let check = |w: &World, ids: &[(usize, &str)]| -> R<u64> {
        let mut s = 0;
        for (id, n) in ids {
            let r = res(w, *id);
            s += r.soft;
            ensure!(r.ok(), format!("{}_failed", n), "{} failed though nothing was wrong: {}", n, r.tail());
        }
        Ok(s)
    };
    let soft = check(&w, &ids)?;
    if soft > 0 {
        c.nontrivial = true;
    }
    let packages: Vec<Vec<u8>> = jobs.iter().map(|j| get(&w, &j.p("pkg")).unwrap_or_default()).collect();
    c.lend(&mut w);
    let mut ids = vec![];
    for j in &jobs {
        let dec = piped(c, &w, j.decrypt("w.wtns", "pkg", out), j, if in_place { &[] } else { &["pkg"] });
        ids.push((spawn(&mut w, &format!("decrypt@{}", j.dir), dec), "decrypt"));
        ids.push((spawn(&mut w, &format!("decap@{}", j.dir), j.decap("w.wtns", "ct", "key2")), "decap"));
    }
    c.run(&mut w);
    check(&w, &ids)?;
    for (j, p) in jobs.iter().zip(packages) {
        c.evals += 2;
        let out = get(&w, &j.p(out)).unwrap_or_default();
        ensure!(out == j.msg, "message_differs", "decrypted {} instead of {}", hexs(&out), hexs(&j.msg));
        let (k, k2) = (get(&w, &j.p("key")).unwrap_or_default(), get(&w, &j.p("key2")).unwrap_or_default());
        ensure!(k.len() == 32, "key_length", "key file of {} bytes", k.len());
        ensure!(k == k2, "key_differs", "encap wrote {}, decap {}", hexs(&k), hexs(&k2));
        if j.msg.is_empty() {
            c.probe("empty_message");
        }
        if j.inst.r1cs.n_pub_out > 0 {
            c.probe("public_outputs");
        }
        let Some(pk) = Package::parse(&p) else { return viol("package_layout", format!("package does not follow the documented layout: {}", hexs(&p))) };
        ensure!(pk.public.is_some() == j.embed, "embed_flag", "embedding {} but flag {}", j.embed, pk.public.is_some());
        if let Some(b) = &pk.public {
            ensure!(*b == j.files["in.json"], "embedded_differs", "embedded inputs {} instead of the input file", hexs(b));
        }
        ensure!(pk.sealed.len() == j.msg.len() + 28, "sealed_length", "sealed part of {} bytes for a message of {}", pk.sealed.len(), j.msg.len());
    }
    Ok(())
}

fn swap_arg(args: &mut [String], from: &str, to: &str) {
    for a in args.iter_mut() {
        if a == from {
            *a = to.into();
        } else if a.starts_with("--") && a.ends_with(&format!("={}", from)) {
            *a = format!("{}{}", &a[..a.len() - from.len()], to);
        }
    }
}
/// Some of these inputs come through a pipe, as the shell's `<(...)` gives them.
fn piped(c: &mut Ctx, w: &World, mut args: Vec<String>, j: &Job, files: &[&str]) -> Vec<String> {
    for f in files {
        if w.with(|g| g.tape.choose(8)) == 7 {
            let Some(data) = get(w, &j.p(f)) else { continue };
            let path = w.with(|g| {
                let p = format!("/dev/fd/{}", 60 + g.pipes.len());
                g.put_pipe(&p, data);
                p
            });
            swap_arg(&mut args, &j.a(f), &path);
            c.probe("piped_input");
        }
    }
    args
}

struct Cmd {
    kind: &'static str,
    job: usize,
    args: Vec<String>,
    outs: Vec<String>,
}

/// C04: hard faults, malformed inputs, stale outputs.
pub fn faults(c: &mut Ctx) -> R {
    let n = 1 + c.choose(2) as usize;
    let mut jobs = vec![];
    for i in 0..n {
        let m = gen::message(c.t());
        jobs.push(Job::random(c, &format!("u{}", i), m));
    }
    let made = {
        let cmds = jobs.iter().flat_map(|j| [j.encrypt("pkg"), j.encap("ct", "key")]).collect();
        prepare(c, &jobs.iter().collect::<Vec<_>>(), cmds)?
    };
    // one input of one user may be malformed
    let mut bad: Option<(usize, &'static str, String)> = None;
    let mut inputs = made.clone();
    if c.choose(2) == 1 {
        let k = c.choose(n as u64) as usize;
        let f = *c.t().pick(&["c.r1cs", "c.sym", "in.json", "w.wtns", "pkg", "ct", "msg.bin"]);
        let p = jobs[k].p(f);
        let what = if c.choose(4) == 0 {
            inputs.remove(&p);
            c.fault("file_missing");
            "missing".to_string()
        } else {
            let mut d = inputs[&p].clone();
            let w = gen::damage(c, &mut d, None, None);
            inputs.insert(p.clone(), d);
            w
        };
        bad = Some((k, f, what));
    }
    let hard = bad.is_none() || c.choose(2) == 1;
    let cfg = c.faults(true, hard);
    let mut w = c.world(cfg);
    let mut before = inputs.clone();
    let mut cmds = vec![];
    for (i, j) in jobs.iter().enumerate() {
        for kind in ["encrypt", "encap", "decrypt", "decap"] {
            if w.with(|g| g.tape.choose(2)) == 0 {
                continue;
            }
            // the output may take the place of the file it is made from
            let in_place = (kind == "encrypt" || kind == "decrypt") && w.with(|g| g.tape.choose(8)) == 7;
            let (args, outs) = match kind {
                "encrypt" if in_place => {
                    let mut a = j.encrypt("new.pkg");
                    swap_arg(&mut a, &j.a("new.pkg"), &j.a("msg.bin"));
                    (a, vec!["msg.bin"])
                }
                "decrypt" if in_place => (j.decrypt("w.wtns", "pkg", "pkg"), vec!["pkg"]),
                "encrypt" => (j.encrypt("new.pkg"), vec!["new.pkg"]),
                "encap" => (j.encap("new.ct", "new.key"), vec!["new.ct", "new.key"]),
                "decrypt" => (j.decrypt("w.wtns", "pkg", "out"), vec!["out"]),
                _ => (j.decap("w.wtns", "ct", "key2"), vec!["key2"]),
            };
            let outs: Vec<String> = outs.iter().map(|o| j.p(o)).collect();
            for o in &outs {
                if in_place {
                    c.probe("in_place");
                    continue;
                }
                match w.with(|g| g.tape.choose(3)) {
                    1 => {
                        before.insert(o.clone(), vec![b'O'; 50_000]);
                    }
                    2 => {
                        before.insert(o.clone(), b"old".to_vec());
                    }
                    _ => {}
                }
            }
            cmds.push(Cmd { kind, job: i, args, outs });
        }
    }
    w.with(|g| {
        for (p, d) in &before {
            g.put(p, d.clone());
        }
    });
    let ids: Vec<usize> = cmds.iter().map(|x| spawn(&mut w, &format!("{}@{}", x.kind, jobs[x.job].dir), x.args.clone())).collect();
    c.run(&mut w);
    let after = all_files(&w);
    for (p, d) in &inputs {
        if cmds.iter().any(|x| x.outs.contains(p)) {
            continue;
        }
        ensure!(after.get(p) == Some(d), "input_modified", "input file {} was changed", p);
    }
    let mut todo = vec![];
    for (x, id) in cmds.iter().zip(&ids) {
        let r = res(&w, *id);
        c.evals += 1;
        let bad_here = bad.as_ref().filter(|b| b.0 == x.job).map(|b| format!("{} {}", b.1, b.2));
        ensure!(r.clean(), format!("{}_crashed", x.kind), "{} neither succeeded nor reported an error (input {:?}, faults {:?}): {}", x.kind, bad_here, r.hard, r.tail());
        if !r.hard.is_empty() || bad_here.is_some() {
            c.nontrivial = true;
        }
        if r.ok() {
            c.probe("succeeded");
            todo.push((x, bad_here));
        } else {
            c.probe(&format!("{}_failed", x.kind));
            ensure!(!r.hard.is_empty() || bad_here.is_some(), format!("{}_failed", x.kind), "{} failed though nothing was wrong: {}", x.kind, r.tail());
            let wrote = r.hard.iter().any(|h| {
                h.starts_with("enospc") || ((h.starts_with("eio_write") || h.starts_with("open_fail_write")) && x.outs.iter().any(|o| h.contains(o.as_str())))
            }) || w.with(|g| g.capacity.is_some());
            if !wrote {
                for o in &x.outs {
                    ensure!(
                        after.get(o) == before.get(o),
                        format!("{}_touched_output", x.kind),
                        "{} failed before it had its result (input {:?}, faults {:?}: {}) but changed {} from {:?} to {:?}",
                        x.kind, bad_here, r.hard, r.tail(), o, before.get(o).map(|b| hexs(b)), after.get(o).map(|b| hexs(b))
                    );
                }
            }
        }
    }
    // what was reported as success must be complete: use it, on a healthy system
    let mut w = c.world(FaultCfg::default());
    w.with(|g| {
        for (p, d) in made.iter() {
            g.put(p, d.clone());
        }
        for x in &cmds {
            for o in &x.outs {
                if let Some(d) = after.get(o) {
                    g.put(o, d.clone());
                }
            }
        }
    });
    let mut ids = vec![];
    for (x, badin) in &todo {
        let j = &jobs[x.job];
        let o = after.get(&x.outs[0]).cloned();
        let Some(o) = o else { return viol("output_missing", format!("{} succeeded without writing {}", x.kind, x.outs[0])) };
        match x.kind {
            "encrypt" => {
                let msg = inputs.get(&j.p("msg.bin")).cloned().unwrap_or_default();
                let Some(p) = Package::parse(&o) else { return viol("output_incomplete", format!("encrypt succeeded but the package is {}", hexs(&o))) };
                ensure!(decode_ct(&p.key_ct).is_ok() && p.sealed.len() == msg.len() + 28, "output_incomplete", "encrypt succeeded but the package is {}", hexs(&o));
                let content_ok = badin.as_ref().is_none_or(|b| !b.starts_with("c.") && !b.starts_with("in.json"));
                if content_ok {
                    ids.push((x, msg, spawn(&mut w, "verify", j.decrypt("w.wtns", if x.outs[0] == j.p("msg.bin") { "msg.bin" } else { "new.pkg" }, "v.out"))));
                }
            }
            "encap" => {
                let k = after.get(&x.outs[1]).cloned().unwrap_or_default();
                ensure!(k.len() == 32 && decode_ct(&o).is_ok(), "output_incomplete", "encap succeeded but wrote key {} and ciphertext {}", hexs(&k), hexs(&o));
                let content_ok = badin.as_ref().is_none_or(|b| !b.starts_with("c.") && !b.starts_with("in.json"));
                if content_ok {
                    ids.push((x, k, spawn(&mut w, "verify", j.decap("w.wtns", "new.ct", "v.key"))));
                }
            }
            "decrypt" => ensure!(o == j.msg, "output_incomplete", "decrypt (input {:?}) succeeded but wrote {} instead of {}", badin, hexs(&o), hexs(&j.msg)),
            _ => {
                ensure!(o.len() == 32, "output_incomplete", "decap succeeded but wrote {}", hexs(&o));
                if badin.is_none() {
                    ensure!(o == made[&j.p("key")], "output_incomplete", "decap succeeded but wrote a different key");
                }
            }
        }
    }
    c.run(&mut w);
    for (x, want, id) in ids {
        let r = res(&w, id);
        ensure!(r.ok(), "output_incomplete", "{} succeeded but its output cannot be used: {}", x.kind, r.tail());
        let got = get(&w, &jobs[x.job].p(if x.kind == "encrypt" { "v.out" } else { "v.key" })).unwrap_or_default();
        ensure!(got == want, "output_incomplete", "{} succeeded but its output gives {} instead of {}", x.kind, hexs(&got), hexs(&want));
    }
    Ok(())
}

/// C03: what happens to packages between encryption and decryption.
pub fn damage(c: &mut Ctx) -> R {
    let m1 = gen::message(c.t());
    let m2 = gen::message(c.t());
    let mut a = Job::random(c, "a", m1);
    let mut b = a.clone();
    b.dir = "b".into();
    b.msg = m2.clone();
    b.files.insert("msg.bin", m2);
    b.embed = c.choose(2) == 0;
    if c.choose(4) == 3 {
        a.embed = b.embed;
    }
    let made = prepare(c, &[&a, &b], vec![a.encrypt("pkg"), b.encrypt("pkg")])?;
    let (pa, pb) = (made[&a.p("pkg")].clone(), made[&b.p("pkg")].clone());
    let parse = |p: &Vec<u8>| Package::parse(p).ok_or(Violation { key: "package_layout".into(), detail: hexs(p) });
    let (xa, xb) = (parse(&pa)?, parse(&pb)?);
    let n = 1 + c.choose(4) as usize;
    let mut variants: Vec<(Vec<u8>, String)> = vec![];
    for _ in 0..n {
        let mut d = pa.clone();
        let what = match c.choose(6) {
            0 => {
                c.fault("splice");
                let mut y = xa.clone();
                let w = match c.choose(5) {
                    0 => {
                        y.key_ct = xb.key_ct.clone();
                        "key ciphertext of another package"
                    }
                    1 => {
                        y.sealed = xb.sealed.clone();
                        "message part of another package"
                    }
                    2 => {
                        y.public = if y.public.is_some() { None } else { xb.public.clone().or(Some(b"{}".to_vec())) };
                        "public inputs dropped or added"
                    }
                    3 => {
                        y.sealed[..12].copy_from_slice(&xb.sealed[..12]);
                        "nonce of another package"
                    }
                    _ => {
                        y.public = y.public.map(|_| b"{\"a\":1}".to_vec());
                        "other public inputs"
                    }
                };
                d = y.encode();
                w.to_string()
            }
            1 => {
                c.fault("length_overwrite");
                let at = if xa.public.is_some() && c.choose(2) == 1 { 5 + xa.key_ct.len() } else { 1 };
                let v = match c.choose(5) {
                    0 => u32::MAX,
                    1 => 0x8000_0000,
                    2 => c.choose(1 << 16) as u32,
                    3 => (d.len() - at - 4) as u32,
                    _ => u32::from_be_bytes(d[at..at + 4].try_into().unwrap()).wrapping_add(c.choose(65) as u32).wrapping_sub(32),
                };
                d[at..at + 4].copy_from_slice(&v.to_be_bytes());
                format!("length at {} set to {}", at, v)
            }
            2 => {
                c.fault("empty_file");
                d.clear();
                "empty file".into()
            }
            3 => {
                // aimed at the sealed part
                let s = d.len() - xa.sealed.len();
                let i = s + c.choose(xa.sealed.len() as u64) as usize;
                d[i] ^= 1 << c.choose(8);
                c.fault("bit_flip");
                format!("bit flip in the message part at {}", i - s)
            }
            _ => gen::damage(c, &mut d, None, Some(&pb)),
        };
        variants.push((d, what));
    }
    let cfg = c.faults(true, false);
    let mut w = c.world(cfg);
    a.install(&w);
    let mut ids = vec![];
    let mut olds = vec![];
    for (i, (d, _)) in variants.iter().enumerate() {
        let (p, o) = (format!("v{}", i), format!("o{}", i));
        let old = w.with(|g| {
            g.put(&a.p(&p), d.clone());
            let old = (g.tape.choose(2) == 1).then(|| vec![b'O'; 9000]);
            if let Some(x) = &old {
                g.put(&a.p(&o), x.clone());
            }
            old
        });
        olds.push(old);
        ids.push(spawn(&mut w, &format!("decrypt{}", i), a.decrypt("w.wtns", &p, &o)));
    }
    c.run(&mut w);
    for (i, id) in ids.iter().enumerate() {
        let r = res(&w, *id);
        let (d, what) = &variants[i];
        c.evals += 1;
        c.nontrivial = true;
        ensure!(r.clean(), "decrypt_crashed", "decrypting a package with {}: {}", what, r.tail());
        let out = get(&w, &a.p(&format!("o{}", i)));
        if r.ok() {
            c.probe("opened");
            let out = out.unwrap_or_default();
            let fine = (d.ends_with(&xa.sealed) && out == a.msg) || (d.ends_with(&xb.sealed) && out == b.msg);
            ensure!(fine, "damaged_accepted", "a package with {} decrypted to {} (its message was {})", what, hexs(&out), hexs(&a.msg));
        } else {
            c.probe("refused");
            ensure!(*d != pa, "undamaged_refused", "undamaged package refused: {}", r.tail());
            ensure!(out == olds[i], "output_on_failure", "decrypting a package with {} failed ({}) but left {:?} in the output file", what, r.tail(), out.map(|b| hexs(&b)));
        }
    }
    Ok(())
}
