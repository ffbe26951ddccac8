use crate::{Slot, MEM};
use simkit::refaes::*;
use simkit::*;
use zkenc_cli::crypto::{decrypt_ctr, decrypt_gcm, encrypt_ctr, encrypt_gcm};

fn key(c: &mut Ctx) -> [u8; 32] {
    let mut k = [0u8; 32];
    match c.choose(5) {
        0 => k.fill(0),
        1 => k.fill(0xff),
        _ => Prng::new(c.seed64()).fill(&mut k),
    }
    k
}
fn msg(c: &mut Ctx) -> Vec<u8> {
    if c.choose(40) == 39 {
        return gen::long_message(c.t());
    }
    gen::message(c.t())
}
fn short(b: &[u8]) -> String {
    let h: String = b.iter().take(48).map(|x| format!("{:02x}", x)).collect();
    format!("{}{} ({} bytes)", h, if b.len() > 48 { ".." } else { "" }, b.len())
}
fn e(x: anyhow::Error) -> String {
    format!("{:#}", x)
}

#[derive(Clone)]
enum Op {
    GcmRound([u8; 32], Vec<u8>),
    CtrRound([u8; 32], Vec<u8>),
    /// data written by a peer that follows the documented format
    GcmPeer([u8; 32], [u8; 12], Vec<u8>),
    CtrPeer([u8; 32], [u8; 16], Vec<u8>),
    GcmWrongKey([u8; 32], [u8; 32], Vec<u8>),
    BadKeyLen(Vec<u8>, Vec<u8>),
    TooShort([u8; 32], Vec<u8>),
}
type Res = (Op, Vec<(&'static str, Result<Vec<u8>, String>)>);

fn run_op(op: &Op) -> Vec<(&'static str, Result<Vec<u8>, String>)> {
    match op {
        Op::GcmRound(k, m) => {
            let s = encrypt_gcm(k, m).map_err(e);
            let back = s.as_ref().ok().map(|s| decrypt_gcm(k, s).map_err(e));
            std::iter::once(("seal", s)).chain(back.map(|b| ("open", b))).collect()
        }
        Op::CtrRound(k, m) => {
            let s = encrypt_ctr(k, m).map_err(e);
            let back = s.as_ref().ok().map(|s| decrypt_ctr(k, s).map_err(e));
            std::iter::once(("seal", s)).chain(back.map(|b| ("open", b))).collect()
        }
        Op::GcmPeer(k, n, m) => vec![("open", decrypt_gcm(k, &gcm_seal(k, n, m)).map_err(e))],
        Op::CtrPeer(k, iv, m) => {
            let mut d = iv.to_vec();
            d.extend(ctr64(k, iv, m));
            vec![("open", decrypt_ctr(k, &d).map_err(e))]
        }
        Op::GcmWrongKey(k, k2, m) => {
            let s = encrypt_gcm(k, m).map_err(e);
            let back = s.as_ref().ok().map(|s| decrypt_gcm(k2, s).map_err(e));
            std::iter::once(("seal", s)).chain(back.map(|b| ("open", b))).collect()
        }
        Op::BadKeyLen(k, d) => vec![
            ("encrypt_gcm", encrypt_gcm(k, d).map_err(e)),
            ("encrypt_ctr", encrypt_ctr(k, d).map_err(e)),
            ("decrypt_gcm", decrypt_gcm(k, d).map_err(e)),
            ("decrypt_ctr", decrypt_ctr(k, d).map_err(e)),
        ],
        Op::TooShort(k, d) => {
            let mut v = vec![];
            if d.len() < 28 {
                v.push(("decrypt_gcm", decrypt_gcm(k, d).map_err(e)));
            }
            if d.len() < 16 {
                v.push(("decrypt_ctr", decrypt_ctr(k, d).map_err(e)));
            }
            v
        }
    }
}

/// C17: threads use the helpers in any interleaving; every result is judged against an
/// implementation of the documented format written from the standards.
pub fn roundtrip(c: &mut Ctx) -> R {
    let nproc = 1 + c.choose(3) as usize;
    let mut cfg = FaultCfg { preempt: *c.t().pick(&[0, 64, 200]), alloc_gap: *c.t().pick(&simos::ALLOC_GAPS), ..Default::default() };
    if c.choose(2) == 1 {
        cfg.entropy_short = 300;
        cfg.eintr = 100;
    }
    cfg.entropy_bias = *c.t().pick(&[0, 0, 1, 2, 3]);
    let mut plan: Vec<Vec<Op>> = vec![];
    for _ in 0..nproc {
        let mut ops = vec![];
        for _ in 0..1 + c.choose(5) {
            ops.push(match c.choose(8) {
                0 | 1 => Op::GcmRound(key(c), msg(c)),
                2 | 3 => Op::CtrRound(key(c), msg(c)),
                4 => {
                    let mut n = [0u8; 12];
                    match c.choose(3) {
                        0 => n.fill(0xff),
                        _ => Prng::new(c.seed64()).fill(&mut n),
                    }
                    Op::GcmPeer(key(c), n, gen::message(c.t()))
                }
                5 => {
                    // Counters about to wrap, in 32, 64 and 128 bits, and ordinary ones
                    let mut iv = [0u8; 16];
                    Prng::new(c.seed64()).fill(&mut iv);
                    match c.choose(5) {
                        0 => iv.fill(0xff),
                        1 => iv[8..].fill(0xff),
                        2 => iv[12..].fill(0xff),
                        3 => iv.fill(0),
                        _ => {}
                    }
                    if iv[15] == 0xff {
                        iv[15] -= c.choose(4) as u8;
                    }
                    Op::CtrPeer(key(c), iv, gen::message(c.t()))
                }
                6 => {
                    let k = key(c);
                    let mut k2 = k;
                    k2[c.choose(32) as usize] ^= 1 << c.choose(8);
                    Op::GcmWrongKey(k, k2, gen::message(c.t()))
                }
                _ => {
                    if c.choose(2) == 0 {
                        let mut n = *c.t().pick(&[0u64, 1, 15, 16, 24, 31, 33, 48, 64, 256]) as usize;
                        if c.choose(4) == 0 {
                            n = c.choose(100) as usize;
                        }
                        if n == 32 {
                            n = 33
                        }
                        let d = gen::message(c.t());
                        Op::BadKeyLen(vec![7; n], d)
                    } else {
                        Op::TooShort(key(c), vec![c.choose(256) as u8; c.choose(28) as usize])
                    }
                }
            });
        }
        plan.push(ops);
    }
    let slot: Slot<Res> = Slot::new();
    let mut w = c.world(cfg);
    for (i, ops) in plan.into_iter().enumerate() {
        let s = slot.clone();
        w.spawn(&format!("t{}", i), MEM, None, move || {
            for op in ops {
                let r = run_op(&op);
                s.put((op, r));
            }
            Ok(())
        });
    }
    c.run(&mut w);
    w.with(|g| -> R {
        for p in &g.procs {
            ensure!(p.outcome == Some(Outcome::Ok), "aes_helper_crash", "helper ended with {:?} (no fault was injected that it may fail on)", p.outcome);
        }
        Ok(())
    })?;
    for (op, r) in slot.take() {
        c.evals += 1;
        c.log(format!("{:?}", r.iter().map(|(n, x)| (n, x.as_ref().map(|v| short(v)))).collect::<Vec<_>>()));
        let get = |n: &str| r.iter().find(|x| x.0 == n).map(|x| &x.1);
        match &op {
            Op::GcmRound(k, m) => {
                let s = get("seal").unwrap();
                ensure!(s.is_ok(), "gcm_encrypt_refused", "encrypt_gcm failed: {:?}", s);
                let s = s.as_ref().unwrap();
                ensure!(s.len() == m.len() + 28, "gcm_format", "sealed length {} for a message of {}", s.len(), m.len());
                let o = get("open").unwrap();
                ensure!(o.as_ref().ok() == Some(m), "gcm_roundtrip", "decrypt_gcm returned {:?} for a message of {} bytes", o.as_ref().map(|v| short(v)), m.len());
                if m.len() < 70_000 {
                    ensure!(gcm_open(k, s).as_ref() == Some(m), "gcm_format", "the documented-format peer cannot open {}", short(s));
                    c.probe("peer_opened_gcm");
                }
                c.nontrivial = true;
            }
            Op::CtrRound(k, m) => {
                let s = get("seal").unwrap();
                ensure!(s.is_ok(), "ctr_encrypt_refused", "encrypt_ctr failed: {:?}", s);
                let s = s.as_ref().unwrap();
                ensure!(s.len() == m.len() + 16, "ctr_format", "output length {} for a message of {}", s.len(), m.len());
                let iv: [u8; 16] = s[..16].try_into().unwrap();
                ensure!(ctr64(k, &iv, &s[16..]) == *m, "ctr_format", "the documented-format peer reads something else from {}", short(s));
                let o = get("open").unwrap();
                ensure!(o.as_ref().ok() == Some(m), "ctr_roundtrip", "decrypt_ctr returned {:?}", o.as_ref().map(|v| short(v)));
                c.nontrivial = true;
            }
            Op::GcmPeer(_, n, m) => {
                let o = get("open").unwrap();
                ensure!(o.as_ref().ok() == Some(m), "gcm_peer", "data sealed by a peer with nonce {} opened as {:?}", short(n), o.as_ref().map(|v| short(v)));
                c.probe("opened_peer_gcm");
            }
            Op::CtrPeer(_, iv, m) => {
                let o = get("open").unwrap();
                ensure!(o.as_ref().ok() == Some(m), "ctr_peer", "data from a peer with IV {} opened as {:?}, wanted {}", short(iv), o.as_ref().map(|v| short(v)), short(m));
                c.probe("opened_peer_ctr");
            }
            Op::GcmWrongKey(..) => {
                let o = get("open").unwrap();
                ensure!(o.is_err(), "gcm_wrong_key", "a wrong key gave {:?}", o.as_ref().map(|v| short(v)));
                c.probe("wrong_key_refused");
            }
            Op::BadKeyLen(k, _) => {
                for (n, x) in &r {
                    ensure!(x.is_err(), "bad_key_length_accepted", "{} accepted a key of {} bytes", n, k.len());
                }
                c.probe("bad_key_length_refused");
            }
            Op::TooShort(_, d) => {
                for (n, x) in &r {
                    ensure!(x.is_err(), "short_data_accepted", "{} accepted {} bytes of data", n, d.len());
                }
                c.probe("short_data_refused");
            }
        }
    }
    Ok(())
}

/// C03: stored ciphertexts are damaged at rest, then opened.
pub fn damage(c: &mut Ctx) -> R {
    let k = key(c);
    let m1 = gen::message(c.t());
    let m2 = gen::message(c.t());
    let sealed: Slot<Vec<u8>> = Slot::new();
    let mut w = c.world(FaultCfg::default());
    {
        let (s, a, b) = (sealed.clone(), m1.clone(), m2.clone());
        w.spawn("seal", MEM, None, move || {
            s.put(encrypt_gcm(&k, &a).map_err(e)?);
            s.put(encrypt_gcm(&k, &b).map_err(e)?);
            Ok(())
        });
    }
    c.run(&mut w);
    let s = sealed.take();
    ensure!(s.len() == 2, "gcm_encrypt_refused", "encryption failed without a fault");
    let mut d = s[0].clone();
    let layout = model::Layout { fields: vec![(0, 12, "nonce"), (12, d.len() - 28, "ciphertext"), (d.len() - 16, 16, "tag")] };
    let mut what = vec![gen::damage(c, &mut d, Some(&layout), Some(&s[1]))];
    if c.choose(4) == 0 {
        what.push(gen::damage(c, &mut d, None, Some(&s[1])));
    }
    let kk = if c.choose(10) == 9 {
        what.push("and a different key".into());
        let mut x = k;
        x[3] ^= 1;
        x
    } else {
        k
    };
    c.log(what.join("; "));
    let out: Slot<Result<Vec<u8>, String>> = Slot::new();
    c.lend(&mut w);
    {
        let (o, d) = (out.clone(), d.clone());
        w.spawn("open", MEM, None, move || {
            o.put(decrypt_gcm(&kk, &d).map_err(e));
            Ok(())
        });
    }
    c.run(&mut w);
    c.evals += 1;
    let end = w.with(|g| g.procs[1].outcome.clone());
    ensure!(end == Some(Outcome::Ok), "damaged_data_crash", "decrypt_gcm ended with {:?} on {}", end, what.join("; "));
    let o = out.take().remove(0);
    if d != s[0] {
        c.nontrivial = true;
    }
    match o {
        Err(x) => {
            c.probe("refused");
            c.log(format!("refused: {}", x));
            ensure!(d != s[0] || kk != k, "gcm_roundtrip", "undamaged data refused: {}", x);
        }
        Ok(m) => {
            c.probe("opened");
            ensure!(kk == k, "gcm_wrong_key", "a different key gave {}", short(&m));
            let ok = (d == s[0] && m == m1) || (d == s[1] && m == m2);
            ensure!(ok, "damaged_data_opened", "after {} decryption returned {} (message was {})", what.join("; "), short(&m), short(&m1));
        }
    }
    Ok(())
}

const FIXED_MSG: &[u8] = b"the same message in every execution of this component";

/// C05: same key, message, clock and pid in every execution; only the random source differs.
/// Every nonce and IV is kept for the batch check.
pub fn fresh(c: &mut Ctx) -> R {
    let k = [9u8; 32];
    let np = 1 + c.choose(3) as usize;
    let cfg = FaultCfg {
        frozen_clock: true,
        same_pid: true,
        preempt: *c.t().pick(&[0, 100]),
        alloc_gap: *c.t().pick(&simos::ALLOC_GAPS),
        entropy_short: *c.t().pick(&[0, 200]),
        ..Default::default()
    };
    // now and then a process that encrypts for a long time
    let rounds = match c.choose(120) {
        119 => 1500,
        115..=118 => 300,
        _ => 2,
    };
    let slot: Slot<(usize, bool, Vec<u8>)> = Slot::new();
    let mut w = c.world(cfg);
    for i in 0..np {
        let s = slot.clone();
        w.spawn(&format!("p{}", i), MEM, None, move || {
            for _ in 0..rounds {
                s.put((i, true, encrypt_gcm(&k, FIXED_MSG).map_err(e)?));
                s.put((i, false, encrypt_ctr(&k, FIXED_MSG).map_err(e)?));
            }
            Ok(())
        });
    }
    c.run(&mut w);
    let v = slot.take();
    ensure!(v.len() == np * 2 * rounds, "gcm_encrypt_refused", "encryption failed without a fault: {} outputs", v.len());
    c.nontrivial = true;
    if rounds > 2 {
        c.probe("long_process");
    }
    let mut seen = std::collections::BTreeMap::new();
    let mut last: std::collections::BTreeMap<(usize, bool), Vec<u8>> = Default::default();
    for (j, (i, gcm, d)) in v.into_iter().enumerate() {
        c.evals += 1;
        c.log(short(&d));
        let n = if gcm { 12 } else { 16 };
        let x = d[..n].to_vec();
        if let Some(j0) = seen.insert((gcm, x.clone()), j) {
            return viol("nonce_reused", format!("encryptions {} and {} of one run both used {} {}", j0, j, if gcm { "nonce" } else { "IV" }, short(&x)));
        }
        if rounds == 2 {
            // what the second nonce of a process adds to its first must be random as well
            if let Some(p) = last.insert((i, gcm), x.clone()) {
                let mut y = vec![2 + gcm as u8];
                y.extend(x.iter().zip(&p).map(|(a, b)| a ^ b));
                c.collected.push(y);
            }
            let mut y = vec![gcm as u8];
            y.extend(x);
            c.collected.push(y);
        }
    }
    Ok(())
}
pub fn fresh_batch(all: &[Vec<u8>]) -> R {
    let mut seen = std::collections::BTreeMap::new();
    for (i, v) in all.iter().enumerate() {
        if let Some(j) = seen.insert(v.clone(), i) {
            let key = if v[0] < 2 { "nonce_reused" } else { "nonce_not_random" };
            return viol(key, format!("draws {} and {} of {} both gave {} {}", j, i, all.len(), ["IV", "nonce", "IV difference", "nonce difference"][v[0] as usize], short(&v[1..])));
        }
    }
    for gcm in [0u8, 1, 2, 3] {
        let s: Vec<&Vec<u8>> = all.iter().filter(|v| v[0] == gcm).collect();
        // Below ~200 draws a byte position could look poor by chance.
        if s.len() < 200 {
            continue;
        }
        for pos in 1..s[0].len() {
            let mut set = std::collections::BTreeSet::new();
            for v in &s {
                set.insert(v[pos]);
            }
            if set.len() < 64 {
                return viol(
                    "nonce_not_random",
                    format!("byte {} of the {} took only {} values in {} draws that differ in the random source alone", pos - 1, ["IV", "nonce", "difference of two IVs of a process", "difference of two nonces of a process"][gcm as usize], set.len(), s.len()),
                );
            }
        }
    }
    Ok(())
}

/// C05: (a) a failing random source must fail the operation; (b) flipping one byte of what the
/// source delivers, with everything else equal, must change the nonce: as many bytes must matter
/// as the nonce has.
pub fn entropy(c: &mut Ctx) -> R {
    let k = key(c);
    let gcm = c.choose(2) == 1;
    let m = gen::message(c.t());
    let one = move |m: &[u8]| if gcm { encrypt_gcm(&k, m).map_err(e) } else { encrypt_ctr(&k, m).map_err(e) };
    let need = if gcm { 12 } else { 16 };
    if c.choose(2) == 0 {
        let rate = *c.t().pick(&[1024u64, 1024, 400]);
        let n = 1 + c.choose(4);
        let eintr = *c.t().pick(&[0, 200]);
        let mut w = c.world(FaultCfg { entropy_fail: rate, eintr, ..Default::default() });
        let slot: Slot<Result<Vec<u8>, String>> = Slot::new();
        let s = slot.clone();
        w.spawn("p", MEM, None, move || {
            for _ in 0..n {
                s.put(one(&m));
            }
            Ok(())
        });
        c.run(&mut w);
        let outs = slot.take();
        let (failed, bytes) = w.with(|g| (g.procs[0].entropy_failed, g.procs[0].entropy_bytes));
        let good: Vec<_> = outs.iter().filter_map(|o| o.as_ref().ok()).collect();
        c.evals += 1;
        c.log(format!("failed={} bytes={} outputs={}", failed, bytes, good.len()));
        if failed {
            c.nontrivial = true;
        }
        if !good.is_empty() {
            c.probe("some_ok");
            ensure!(
                bytes >= need,
                "ciphertext_without_entropy",
                "{} ciphertexts emitted although the random source had delivered only {} bytes (failed: {})", good.len(), bytes, failed
            );
            for i in 0..good.len() {
                for j in 0..i {
                    ensure!(good[i][..need as usize] != good[j][..need as usize], "nonce_reused", "two encryptions used {}", short(&good[i][..need as usize]));
                }
            }
        } else {
            c.probe("failed_closed");
        }
        return Ok(());
    }
    let es = c.seed64();
    let draw = |c: &mut Ctx, flip: Option<u64>| -> R<(Vec<u8>, u64)> {
        let mut w = c.world_with(FaultCfg { frozen_clock: true, same_pid: true, entropy_flip: flip, ..Default::default() }, es);
        let slot: Slot<Vec<u8>> = Slot::new();
        let (s, m) = (slot.clone(), m.clone());
        w.spawn("p", MEM, None, move || {
            s.put(one(&m)?);
            Ok(())
        });
        c.run(&mut w);
        let v = slot.take();
        ensure!(v.len() == 1, "gcm_encrypt_refused", "encryption failed without a fault");
        Ok((v[0][..need as usize].to_vec(), w.with(|g| g.procs[0].entropy_bytes)))
    };
    let (base, used) = draw(c, None)?;
    let mut matter = 0;
    for i in 0..used.min(64) {
        if draw(c, Some(i))?.0 != base {
            matter += 1;
        }
    }
    c.evals += 1;
    c.nontrivial = true;
    c.probe("sensitivity");
    ensure!(matter >= need, "nonce_not_random", "only {} of the {} random bytes drawn influence the {} bytes of the nonce", matter, used, need);
    Ok(())
}

/// C07 by comparison: the helpers with other keys and messages, everything else the same.
pub fn twins(c: &mut Ctx) -> R {
    fn once(c: &mut Ctx, salt: u64) -> R<(Vec<String>, Vec<(Option<Outcome>, Vec<u8>, Vec<u8>)>)> {
        let mut cfg = FaultCfg { preempt: *c.t().pick(&[0, 64, 200]), ..Default::default() };
        if c.choose(2) == 1 {
            cfg.entropy_short = 300;
            cfg.eintr = 100;
            cfg.entropy_fail = *c.t().pick(&[0, 0, 200]);
        }
        fn secret(c: &mut Ctx, salt: u64, n: usize) -> Vec<u8> {
            let mut v = vec![0; n];
            Prng::new(c.seed64() ^ salt.wrapping_mul(0x9e37_79b9_7f4a_7c15)).fill(&mut v);
            v
        }
        let mut plan = vec![];
        for _ in 0..1 + c.choose(2) {
            let mut ops = vec![];
            for _ in 0..1 + c.choose(4) {
                let kn = *c.t().pick(&[32usize, 32, 32, 32, 0, 1, 16, 31, 33, 64]);
                let k = secret(c, salt, kn);
                let n = gen::message(c.t()).len();
                let m = secret(c, salt, n);
                let mut nonce = [0u8; 12];
                Prng::new(c.seed64()).fill(&mut nonce);
                // what is to be opened: sealed under this key, damaged, too short, or under another
                let k32: [u8; 32] = if kn == 32 { k.clone().try_into().unwrap() } else { [9; 32] };
                let mut d = gcm_seal(&k32, &nonce, &m[..m.len().min(5000)]);
                match c.choose(4) {
                    0 => {
                        let i = d.len() - 1 - c.choose(16) as usize;
                        d[i] ^= 1 << c.choose(8);
                    }
                    1 => {
                        let k = c.choose(d.len() as u64) as usize;
                        d.truncate(k);
                    }
                    2 => d = secret(c, salt, d.len()),
                    _ => {}
                }
                ops.push((k, m, d));
            }
            plan.push(ops);
        }
        let slot: Slot<(usize, String)> = Slot::new();
        let mut w = c.world(cfg);
        for (i, ops) in plan.into_iter().enumerate() {
            let s = slot.clone();
            w.spawn(&format!("t{}", i), MEM, None, move || {
                for (k, m, d) in ops {
                    let show = |n: &str, x: anyhow::Result<Vec<u8>>| match x {
                        Ok(v) => format!("{}: {} bytes", n, v.len()),
                        Err(e) => format!("{}: {:#} / {:?}", n, e, e.chain().collect::<Vec<_>>()),
                    };
                    for t in [show("encrypt_gcm", encrypt_gcm(&k, &m)), show("encrypt_ctr", encrypt_ctr(&k, &m)), show("decrypt_gcm", decrypt_gcm(&k, &d)), show("decrypt_ctr", decrypt_ctr(&k, &d))] {
                        s.put((i, t));
                    }
                }
                Ok(())
            });
        }
        c.run(&mut w);
        let mut t = slot.take();
        t.sort_by_key(|x| x.0);
        let p = w.with(|g| g.procs.iter().map(|p| (p.outcome.clone(), p.stdout.clone(), p.stderr.clone())).collect());
        Ok((t.into_iter().map(|x| x.1).collect(), p))
    }
    let start = c.t().rec.len();
    let a = once(c, 0)?;
    let rest = c.t().rec[start..].to_vec();
    let b = once(&mut Ctx::new(Tape::replay(rest), false), 1)?;
    c.evals += a.0.len() as u64;
    c.nontrivial = a.0.iter().any(|x| x.contains('/'));
    for (x, y) in a.0.iter().zip(&b.0) {
        c.probe(if x.contains('/') { "same_failure" } else { "same_success" });
        ensure!(x == y, "secret_dependent_error", "{:?}, with other secrets {:?}", x, y);
    }
    ensure!(a.0.len() == b.0.len() && a.1 == b.1, "secret_dependent_output", "the output or end of a process depends on keys or messages");
    Ok(())
}
