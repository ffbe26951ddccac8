//! C08: what a party computes who sees ciphertexts only.
use crate::common::*;
use fr::Fe;
use simkit::*;

/// The key derived from a target-group element given by its logarithm.
fn key_of(s: Fe) -> Vec<u8> {
    use ark_serialize::CanonicalSerialize;
    let t = ark_ec::pairing::PairingOutput::<ark_bn254::Bn254>::from_log(ark_ff::Fp(s));
    let mut b = vec![];
    t.serialize_compressed(&mut b).expect("serialize");
    blake3::hash(&b).as_bytes().to_vec()
}

/// All pairings and sums over the published elements that a passive party would try first.
fn candidates(ct: &Ct, other: &Ct) -> Vec<(String, Vec<u8>)> {
    let (e, o) = (&ct.encap_key, &other.encap_key);
    let mut v = vec![];
    let one = Fe::one();
    let g1: Vec<(String, Fe)> = {
        let mut g = vec![("g1".to_string(), one), ("alpha_g1".into(), e.alpha_g1.0 .0)];
        let sum = |q: &Vec<ark_bn254::G1Affine>| {
            let mut s = q.first().map(|x| x.0 .0).unwrap_or(Fe::ZERO);
            for (x, a) in q.iter().skip(1).zip(&ct.public_inputs) {
                s = s.add(&x.0 .0.mul(&a.0));
            }
            s
        };
        g.push(("public part of r_u_query_g1".into(), sum(&e.r_u_query_g1)));
        g.push(("public part of phi_delta_query_g1".into(), sum(&e.phi_delta_query_g1)));
        for (n, q) in [("r_u_query_g1", &e.r_u_query_g1), ("phi_delta_query_g1", &e.phi_delta_query_g1), ("h_query_g1", &e.h_query_g1)] {
            for (i, x) in q.iter().enumerate().take(8) {
                g.push((format!("{}[{}]", n, i), x.0 .0));
            }
        }
        g.push(("the other ciphertext's alpha_g1".into(), o.alpha_g1.0 .0));
        g
    };
    let g2: Vec<(String, Fe)> = {
        let mut g = vec![("g2".to_string(), one), ("beta_g2".into(), e.beta_g2.0 .0), ("delta_g2".into(), e.delta_g2.0 .0)];
        g.push(("the other ciphertext's beta_g2".into(), o.beta_g2.0 .0));
        g.push(("the other ciphertext's delta_g2".into(), o.delta_g2.0 .0));
        for (i, x) in e.r_v_query_g2.iter().enumerate().take(8) {
            g.push((format!("r_v_query_g2[{}]", i), x.0 .0));
        }
        g
    };
    // single pairings, then a pairing plus or minus another one
    let mut single = vec![];
    for (n1, a) in &g1 {
        for (n2, b) in &g2 {
            single.push((format!("e({}, {})", n1, n2), a.mul(b)));
        }
    }
    let ab = e.alpha_g1.0 .0.mul(&e.beta_g2.0 .0);
    for (n, s) in &single {
        v.push((n.clone(), key_of(*s)));
    }
    for (n, s) in &single {
        if !s.is_zero() {
            v.push((format!("e(alpha_g1, beta_g2) + {}", n), key_of(ab.add(s))));
            v.push((format!("e(alpha_g1, beta_g2) - {}", n), key_of(ab.sub(s))));
        }
    }
    v
}

pub fn run(c: &mut Ctx) -> R {
    let f = functional(c.t(), 5);
    let wasm = c.choose(2) == 1;
    c.nontrivial = true;
    let msg = simkit::gen::message(c.t());
    let j = Job::of(c, "u", f.inst.clone(), msg);
    let (ct, key, second) = if wasm {
        let mut w = c.world(FaultCfg::default());
        let slot: Slot<Result<(Vec<u8>, Vec<u8>), String>> = Slot::new();
        let (s, a, b) = (slot.clone(), j.files["c.r1cs"].clone(), j.files["w.wtns"].clone());
        w.spawn("wasm", MEM, None, move || {
            for _ in 0..2 {
                s.put(zkenc_js::wasm_encap(&a, &b).map(|e| (e.ciphertext(), e.key())).map_err(|e| e.text()));
            }
            Ok(())
        });
        c.run(&mut w);
        let mut r = slot.take();
        match (r.pop(), r.pop()) {
            (Some(Ok(y)), Some(Ok(x))) => (x.0, x.1, y.0),
            o => return viol("encap_failed", format!("{:?}", o)),
        }
    } else {
        let m = prepare(c, &[&j], vec![j.encap("ct", "key"), j.encap("ct2", "key2")])?;
        (m[&j.p("ct")].clone(), m[&j.p("key")].clone(), m[&j.p("ct2")].clone())
    };
    c.evals += 1;
    // the store holds the ciphertext; the key bytes must not be in it
    ensure!(!ct.windows(32).any(|w| w == &key[..]), "key_in_ciphertext", "the key itself is part of the ciphertext");
    let d = decode_ct(&ct).map_err(|e| Violation { key: "bad_ciphertext".into(), detail: e })?;
    let d2 = decode_ct(&second).map_err(|e| Violation { key: "bad_ciphertext".into(), detail: e })?;
    c.probe(if wasm { "wasm" } else { "cli" });
    if key == blake3::hash(&ct).as_bytes().to_vec() {
        return viol("key_is_hash_of_ciphertext", "the key is the hash of the ciphertext");
    }
    ensure!(!key.windows(8).any(|k| ct.windows(8).any(|w| w == k)), "key_in_ciphertext", "part of the key is in the ciphertext");
    for (n, k) in [("zeros", vec![0u8; 32]), ("the hash of nothing", blake3::hash(b"").as_bytes().to_vec())] {
        ensure!(k != key, "key_is_constant", "the key is {}", n);
    }
    for e in ct.chunks(1).enumerate().map(|(i, _)| &ct[i..(i + 32).min(ct.len())]) {
        ensure!(blake3::hash(e).as_bytes()[..] != key[..], "key_is_hash_of_part", "the key is the hash of 32 bytes of the ciphertext");
    }
    let mut last = None;
    for (n, k) in candidates(&d, &d2) {
        if k == key {
            if n == "e(alpha_g1, beta_g2)" {
                last = Some(n);
            } else {
                return viol("key_from_other_elements", format!("the key is H({}), computed from the ciphertext alone without a witness", n));
            }
        }
    }
    // the recorded finding comes last: it must not hide another violation
    if let Some(n) = last {
        return viol("key_from_alpha_g1_beta_g2", format!("the key is H({}), computed from the ciphertext alone without a witness", n));
    }
    Ok(())
}
