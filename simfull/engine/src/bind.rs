//! C11: which wire gets which value, in the command-line program.
use crate::common::*;
use fr::Fe;
use simkit::gen;
use simkit::*;

fn dec_plus_p(v: &Fe, k: u64) -> String {
    // v + k·p in decimal
    let p = fr::p_bytes();
    let mut acc = [0u64; 6];
    let mut add = |b: &[u8]| {
        let mut c = 0u128;
        for i in 0..6 {
            let mut x = [0u8; 8];
            for j in 0..8 {
                x[j] = *b.get(8 * i + j).unwrap_or(&0);
            }
            c += acc[i] as u128 + u64::from_le_bytes(x) as u128;
            acc[i] = c as u64;
            c >>= 64;
        }
    };
    add(&v.to_le());
    for _ in 0..k {
        add(&p);
    }
    let mut s = vec![];
    while acc.iter().any(|&x| x != 0) {
        let mut r = 0u128;
        for i in (0..6).rev() {
            let cur = r << 64 | acc[i] as u128;
            acc[i] = (cur / 10) as u64;
            r = cur % 10;
        }
        s.push(b'0' + r as u8);
    }
    if s.is_empty() {
        s.push(b'0');
    }
    s.reverse();
    String::from_utf8(s).unwrap()
}
/// One value as some JSON scalar that denotes it.
fn scalar(t: &mut Tape, v: &Fe) -> String {
    let c = v.canon();
    let small = c[1] == 0 && c[2] == 0 && c[3] == 0;
    let n = v.neg().canon();
    let nsmall = n[1] == 0 && n[2] == 0 && n[3] == 0 && n[0] > 0 && n[0] <= 1 << 63;
    match t.choose(6) {
        0 | 1 if small => format!("{}", c[0]),
        0 | 1 if nsmall => format!("-{}", n[0]),
        2 => format!("\"{}\"", dec_plus_p(v, 1 + t.choose(3))),
        3 if !v.is_zero() => format!("\"-{}\"", v.neg().to_dec()),
        _ => format!("\"{}\"", v.to_dec()),
    }
}
fn value(t: &mut Tape) -> Fe {
    match t.choose(6) {
        0 => Fe::from_u64(t.choose(12)),
        1 => Fe::from_i64(-(1 + t.choose(1 << 31) as i64)),
        2 => Fe::from_u64((1 << 53) + t.choose(5)),
        3 => Fe::from_u64(u64::MAX - t.choose(3)),
        4 => Fe::from_i64(i64::MIN + t.choose(3) as i64),
        _ => {
            let mut p = Prng::new(t.choose(1 << 31));
            Fe::from_canon([p.next(), p.next(), p.next(), p.next() >> 3])
        }
    }
}
enum Node {
    Leaf(Fe),
    Arr(Vec<Node>),
}
fn render(t: &mut Tape, n: &Node) -> String {
    let sp = if t.choose(4) == 3 { "\n " } else { "" };
    match n {
        Node::Leaf(v) => scalar(t, v),
        Node::Arr(a) => {
            let v: Vec<String> = a.iter().map(|x| render(t, x)).collect();
            format!("[{}{}]", sp, v.join(&format!(",{}", sp)))
        }
    }
}
fn shape(t: &mut Tape, left: &mut u32, depth: u64) -> Option<Node> {
    if *left == 0 {
        return None;
    }
    if depth == 3 || t.choose(3) == 0 {
        *left -= 1;
        return Some(Node::Leaf(value(t)));
    }
    let n = 1 + t.choose(12);
    let mut a = vec![];
    for _ in 0..n {
        match shape(t, left, depth + 1) {
            Some(x) => a.push(x),
            None => break,
        }
    }
    Some(Node::Arr(a))
}
fn leaves(n: &Node, name: String, out: &mut Vec<(String, Fe)>) {
    match n {
        Node::Leaf(v) => out.push((name, *v)),
        Node::Arr(a) => a.iter().enumerate().for_each(|(i, x)| leaves(x, format!("{}[{}]", name, i), out)),
    }
}

pub fn run(c: &mut Ctx) -> R {
    // public signals of any array shape, wires assigned in any order
    let n_out;
    let mut sigs: Vec<(String, Fe)> = vec![];
    let mut tops: Vec<(String, Node)> = vec![];
    {
        let t = c.t();
        let mut left = 1 + t.choose(16) as u32;
        let stems = ["a", "b", "a1", "in", "out", "main", "x_1", "R8x", "a_0", "puzzle", "length", "constructor", "signal"];
        let mut k = t.choose(13);
        while left > 0 {
            let s = stems[k as usize % 13].to_string();
            k += 1;
            let name = if k > 13 { format!("{}{}", s, k) } else { s };
            let n = shape(t, &mut left, 0).unwrap();
            leaves(&n, name.clone(), &mut sigs);
            tops.push((name, n));
        }
        n_out = t.choose(sigs.len() as u64 + 1) as u32;
    }
    let np = sigs.len() as u32;
    let n_prv = 1 + c.choose(3) as u32;
    let mut wires: Vec<u32> = (1..=np).collect();
    gen::shuffle(c.t(), &mut wires);
    let signals: Vec<(String, u32)> = sigs.iter().zip(&wires).map(|(s, w)| (s.0.clone(), *w)).collect();
    let mut want = vec![Fe::ZERO; np as usize];
    for (s, w) in sigs.iter().zip(&wires) {
        want[*w as usize - 1] = s.1;
    }
    let n_wires = 1 + np + n_prv + c.choose(3) as u32;
    let one = (0u32, Fe::one().to_le().to_vec());
    let r1cs = simkit::model::R1cs {
        field_size: 32,
        prime: fr::p_bytes().to_vec(),
        n_wires,
        n_pub_out: n_out,
        n_pub_in: np - n_out,
        n_prv_in: n_prv,
        n_labels: n_wires as u64,
        constraints: vec![[vec![one.clone()], vec![one.clone()], vec![one]]],
        wire2label: Some((0..n_wires as u64).collect()),
    };
    // symbol file: public signals, private ones, signals without a wire, internal ones
    let mut lines: Vec<String> = vec![];
    for (i, (n, w)) in signals.iter().enumerate() {
        lines.push(format!("{},{},{},main.{}", i + 1, w, 1 + c.choose(5), n));
    }
    let mut noise: Vec<String> = vec![];
    for i in 0..n_prv {
        let n = format!("secret{}", i);
        lines.push(format!("{},{},3,main.{}", 500 + i, np + 1 + i, n));
        noise.push(n);
    }
    for i in 0..c.choose(3) {
        let n = format!("gone{}", i);
        lines.push(format!("{},-1,3,main.{}", 600 + i, n));
        noise.push(n);
    }
    for i in 0..c.choose(3) {
        let w = c.choose(n_wires as u64);
        lines.push(format!("{},{},9,main.sub{}.in", 700 + i, w, i));
        if c.choose(2) == 0 {
            // an inner signal's own name, and the name without its component, mean nothing
            noise.push("in_".into());
        }
    }
    if c.choose(3) == 2 {
        lines.push(format!("800,{},9,other.zz", 1 + c.choose(np as u64)));
        noise.push("zz".into());
    }
    if c.choose(2) == 1 {
        gen::shuffle(c.t(), &mut lines);
    }
    let eol = if c.choose(4) == 3 { "\r\n" } else { "\n" };
    let mut sym = lines.join(eol);
    if c.choose(2) == 0 {
        sym += eol;
    }
    noise.push("nosuch".into());
    noise.push((*c.t().pick(gen::FOREIGN)).into());
    // input file
    let mut bad: Option<String> = None;
    let spoil = c.choose(5) == 4;
    let at = c.choose(tops.len() as u64) as usize;
    let mut parts: Vec<String> = vec![];
    for (i, (n, v)) in tops.iter().enumerate() {
        let mut x = render(c.t(), v);
        if spoil && i == at {
            let b = *c.t().pick(&["true", "false", "null", "1.5", "-0.25", "1e400", "{}", "{\"a\":1}", "\"\"", "\"abc\"", "\"0x1g\"", "\"1 2\"", "[null]", "[[true]]", "[{}]", "\"1.0\"", "\"--1\""]);
            x = match v {
                Node::Arr(a) if a.len() > 1 && c.choose(2) == 1 => {
                    let mut it: Vec<String> = a.iter().map(|y| render(c.t(), y)).collect();
                    let k = c.choose(it.len() as u64) as usize;
                    it[k] = b.into();
                    format!("[{}]", it.join(","))
                }
                _ => b.to_string(),
            };
            bad = Some(format!("{} = {}", n, x));
        }
        let n = gen::json_name(c.t(), n);
        parts.push(format!("\"{}\":{}", n, x));
    }
    for n in &noise {
        if c.choose(2) == 1 {
            let v = value(c.t());
            parts.push(format!("\"{}\":{}", n, scalar(c.t(), &v)));
            c.probe("ineffective_names");
        }
    }
    gen::shuffle(c.t(), &mut parts);
    let json = format!("{{{}}}", parts.join(","));
    let ord = gen::order(c.t(), true, true);
    let mut j = Job {
        dir: "u".into(),
        inst: simkit::gen::Instance { r1cs: r1cs.clone(), witness: vec![], signals },
        files: std::collections::BTreeMap::from([
            ("c.r1cs", r1cs.encode(&ord).0),
            ("c.sym", sym.clone().into_bytes()),
            ("in.json", json.clone().into_bytes()),
            ("msg.bin", b"m".to_vec()),
        ]),
        msg: b"m".to_vec(),
        style: c.choose(15),
        embed: true,
        place: 0,
    };
    let cfg = c.faults(true, false);
    let mut w = c.world(cfg);
    j.install(&w);
    // processes differ in their hash seeds
    let mut ids = vec![];
    for i in 0..2 {
        ids.push((spawn(&mut w, "encap", j.encap(&format!("ct{}", i), &format!("key{}", i))), "encap", format!("ct{}", i)));
        j.embed = i == 0;
        ids.push((spawn(&mut w, "encrypt", j.encrypt(&format!("pkg{}", i))), "encrypt", format!("pkg{}", i)));
    }
    c.run(&mut w);
    c.nontrivial = true;
    c.log(format!("{} {}", json, sym));
    for (id, n, o) in ids {
        let r = res(&w, id);
        c.evals += 1;
        ensure!(r.clean(), "crashed", "{}: {}\ninputs {}", n, r.tail(), json);
        let out = get(&w, &j.p(&o));
        if let Some(b) = &bad {
            c.probe("not_an_integer");
            ensure!(!r.ok(), "bad_value_accepted", "{} accepted {}", n, b);
            ensure!(out.is_none(), "bad_value_wrote_output", "{} refused {} but wrote {}", n, b, o);
            continue;
        }
        ensure!(r.ok(), "refused", "{} failed: {}\ninputs {}\nsymbols {}", n, r.tail(), json, sym);
        let d = out.unwrap_or_default();
        let ct = if n == "encap" { d } else { simkit::model::Package::parse(&d).map(|p| p.key_ct).unwrap_or_default() };
        let d = decode_ct(&ct).map_err(|e| Violation { key: "bad_ciphertext".into(), detail: e })?;
        let got: Vec<Fe> = d.public_inputs.iter().map(|x| x.0).collect();
        ensure!(
            got == want,
            "wrong_binding",
            "{} bound {:?} instead of {:?}\ninputs {}\nsymbols {}", n,
            got.iter().map(|x| x.to_dec()).collect::<Vec<_>>(), want.iter().map(|x| x.to_dec()).collect::<Vec<_>>(), json, sym
        );
    }
    Ok(())
}
