//! Random circuits with witnesses, messages, storage faults.
use crate::model::{Layout, Lc, R1cs};
use crate::Ctx;
use fr::Fe;
use simos::{Prng, Tape};

#[derive(Clone, Debug)]
pub struct Instance {
    pub r1cs: R1cs,
    pub witness: Vec<Fe>,
    /// name (without "main."), wire
    pub signals: Vec<(String, u32)>,
}

fn small_or_big(t: &mut Tape) -> Fe {
    match t.choose(6) {
        0 => Fe::from_u64(t.choose(10)),
        1 => Fe::ZERO,
        2 => Fe::from_u64(t.choose(1 << 31) << 31 | t.choose(1 << 31)),
        3 => Fe::from_i64(-(t.choose(100) as i64)),
        4 => {
            let mut p = Prng::new(t.choose(1 << 31));
            Fe::from_canon([p.next(), p.next(), p.next(), p.next() >> 3])
        }
        _ => Fe::from_u64(1),
    }
}
fn coeff(t: &mut Tape) -> Fe {
    let c = small_or_big(t);
    if c.is_zero() { Fe::one() } else { c }
}

pub struct Shape {
    pub max_pub: u64,
    pub allow_no_private: bool,
}

/// Now and then a circuit is large in one way: (public inputs, private inputs, inner wires, terms) to add.
pub fn large(t: &mut Tape) -> (u32, u32, u32, u64) {
    if t.choose(96) != 95 {
        return (0, 0, 0, 0);
    }
    match t.choose(4) {
        0 => (250 + t.choose(1200) as u32, 0, 0, 0),
        1 => (0, 250 + t.choose(1200) as u32, 0, 0),
        2 => (0, 0, 200 + t.choose(500) as u32, 0),
        _ => (0, 0, 0, 200 + t.choose(300)),
    }
}

/// A circuit and a satisfying witness. Wires: 0 = one, outputs, public inputs, private inputs, rest.
pub fn instance(t: &mut Tape, sh: &Shape) -> Instance {
    let (more_in, more_prv, more_mid, terms) = large(t);
    let n_in = t.choose(sh.max_pub + 1) as u32 + more_in;
    let n_out = if t.choose(3) == 0 { 0 } else { t.choose(3) as u32 };
    let mut n_prv = 1 + t.choose(4) as u32 + more_prv;
    if sh.allow_no_private && t.choose(8) == 7 {
        n_prv = 0;
    }
    let n_mid = t.choose(5) as u32 + more_mid;
    let n_wires = 1 + n_out + n_in + n_prv + n_mid;
    let mut w = vec![Fe::ZERO; n_wires as usize];
    w[0] = Fe::one();
    let first_in = 1 + n_out;
    for i in first_in..first_in + n_in + n_prv {
        w[i as usize] = small_or_big(t);
    }
    let mut known: Vec<u32> = std::iter::once(0).chain(first_in..first_in + n_in + n_prv).collect();
    let mut cons = vec![];
    let ev = |lc: &Vec<(u32, Fe)>, w: &Vec<Fe>| lc.iter().fold(Fe::ZERO, |a, (i, c)| a.add(&c.mul(&w[*i as usize])));
    let raw = |lc: &Vec<(u32, Fe)>| -> Lc { lc.iter().map(|(i, c)| (*i, c.to_le().to_vec())).collect() };
    let mut targets: Vec<u32> = (first_in + n_in + n_prv..n_wires).chain(1..1 + n_out).collect();
    targets.reverse();
    while let Some(x) = targets.pop() {
        let mk = |t: &mut Tape, known: &Vec<u32>| -> Vec<(u32, Fe)> {
            let n = 1 + t.choose(3) + terms;
            (0..n).map(|_| (known[t.choose(known.len() as u64) as usize], coeff(t))).collect()
        };
        let a = mk(t, &known);
        let b = mk(t, &known);
        let mut c = vec![(x, Fe::one())];
        w[x as usize] = ev(&a, &w).mul(&ev(&b, &w));
        if t.choose(3) == 2 {
            // A*B = k*x + other
            let k = coeff(t);
            let o = mk(t, &known);
            let v = ev(&a, &w).mul(&ev(&b, &w)).sub(&ev(&o, &w));
            w[x as usize] = v.mul(&k.inv().unwrap());
            c = vec![(x, k)];
            c.extend(o);
        }
        cons.push([raw(&a), raw(&b), raw(&c)]);
        known.push(x);
    }
    // Relations among what is already known, true by construction.
    for _ in 0..1 + t.choose(3) {
        let i = known[t.choose(known.len() as u64) as usize];
        let j = known[t.choose(known.len() as u64) as usize];
        let v = w[i as usize].mul(&w[j as usize]);
        let c = vec![(0u32, v)];
        cons.push([raw(&vec![(i, Fe::one())]), raw(&vec![(j, Fe::one())]), raw(&c)]);
    }
    if t.choose(4) == 3 {
        cons.push([vec![], raw(&vec![(0, Fe::from_u64(3))]), vec![]]);
    }
    let labels: Vec<u64> = {
        let mut cur = 0;
        (0..n_wires as u64)
            .map(|_| {
                let v = cur;
                cur += 1 + t.choose(2);
                v
            })
            .collect()
    };
    let n_labels = labels.last().copied().unwrap_or(0) + 1;
    let r1cs = R1cs {
        field_size: 32,
        prime: fr::p_bytes().to_vec(),
        n_wires,
        n_pub_out: n_out,
        n_pub_in: n_in,
        n_prv_in: n_prv,
        n_labels,
        constraints: cons,
        wire2label: Some(labels),
    };
    let signals = names(t, &r1cs);
    Instance { r1cs, witness: w, signals }
}

/// Signal names for every wire: scalars, arrays and matrices over consecutive wires.
pub fn names(t: &mut Tape, r: &R1cs) -> Vec<(String, u32)> {
    let mut out = vec![];
    let groups = [(1, r.n_pub_out), (1 + r.n_pub_out, r.n_pub_in), (1 + r.n_pub_out + r.n_pub_in, r.n_prv_in)];
    let stems = ["out", "a", "puzzle", "x_1", "R8x", "msg", "root", "leaf", "Z", "in"];
    let mut k = t.choose(stems.len() as u64);
    let mut uniq = 0;
    for (start, n) in groups {
        let mut i = 0;
        while i < n {
            let stem = format!("{}{}", stems[(k % stems.len() as u64) as usize], if uniq >= stems.len() { uniq.to_string() } else { String::new() });
            k += 1;
            uniq += 1;
            let left = n - i;
            match t.choose(4) {
                1 if left >= 2 => {
                    let m = 2 + t.choose(left as u64 - 1) as u32;
                    for j in 0..m {
                        out.push((format!("{}[{}]", stem, j), start + i + j));
                    }
                    i += m;
                }
                2 if left >= 4 => {
                    for j in 0..4 {
                        out.push((format!("{}[{}][{}]", stem, j / 2, j % 2), start + i + j));
                    }
                    i += 4;
                }
                _ => {
                    out.push((stem, start + i));
                    i += 1;
                }
            }
        }
    }
    let first_mid = 1 + r.n_pub_out + r.n_pub_in + r.n_prv_in;
    // inner signals; the subcomponent may be called main itself and reuse the outer names
    let named_main = t.choose(3) == 2;
    for (j, wq) in (first_mid..r.n_wires).enumerate() {
        match out.get(j).filter(|_| named_main).map(|(n, _)| n.clone()) {
            Some(n) => out.push((format!("main.{}", n), wq)),
            None => out.push((format!("sub[{}].t{}", j, j), wq)),
        }
    }
    out
}

/// A section order and extra sections for an encoded circuit.
pub fn order(t: &mut Tape, labels: bool, allow_unknown: bool) -> Vec<(u32, Vec<u8>)> {
    let mut v: Vec<(u32, Vec<u8>)> = vec![(1, vec![]), (2, vec![])];
    if labels {
        v.push((3, vec![]));
    }
    if allow_unknown {
        for _ in 0..t.choose(3) {
            let n = t.choose(40) as usize;
            let ty = 4 + t.choose(6) as u32;
            let b = (0..n).map(|_| t.choose(256) as u8).collect();
            v.push((ty, b));
        }
    }
    shuffle(t, &mut v);
    v
}
pub fn shuffle<T>(t: &mut Tape, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = t.choose(i as u64 + 1) as usize;
        v.swap(i, i - j);
    }
}

pub fn sym_file(t: &mut Tape, signals: &[(String, u32)], r: &R1cs) -> String {
    let mut lines: Vec<String> = vec![];
    for (i, (n, w)) in signals.iter().enumerate() {
        lines.push(format!("{},{},{},main.{}", i + 1, w, 1 + t.choose(5), n));
    }
    // signals without a wire, and names of other components on known wires
    for i in 0..t.choose(4) {
        lines.push(format!("{},-1,{},main.gone{}", 900 + i, t.choose(9), i));
    }
    if r.n_wires > 1 && t.choose(2) == 1 {
        let w = 1 + t.choose(r.n_wires as u64 - 1);
        lines.push(format!("950,{},7,main.sub.alias[0]", w));
    }
    if t.choose(3) == 2 {
        shuffle(t, &mut lines);
    }
    let nl = if t.choose(4) == 3 { "\r\n" } else { "\n" };
    let mut s = lines.join(nl);
    if t.choose(4) != 3 {
        s.push_str(nl);
    }
    if t.choose(8) == 7 {
        s.push_str(nl);
    }
    s
}

/// A JSON tree of name -> value for some signals, keys in random order, values as numbers or strings.
pub fn input_json(t: &mut Tape, entries: &[(String, Fe)]) -> String {
    // group by stem
    let mut stems: Vec<(String, Vec<(Vec<usize>, Fe)>)> = vec![];
    for (n, v) in entries {
        let (stem, rest) = match n.find('[') {
            Some(i) => (&n[..i], &n[i..]),
            None => (&n[..], ""),
        };
        let idx: Vec<usize> = rest.split(|c| c == '[' || c == ']').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        match stems.iter_mut().find(|(s, _)| s == stem) {
            Some((_, l)) => l.push((idx, *v)),
            None => stems.push((stem.to_string(), vec![(idx, *v)])),
        }
    }
    shuffle(t, &mut stems);
    let mut parts = vec![];
    for (s, l) in &stems {
        let txt = if l[0].0.is_empty() {
            scalar(t, &l[0].1)
        } else if l[0].0.len() == 1 {
            let mut v = vec![String::new(); l.len()];
            for (i, x) in l {
                v[i[0]] = scalar(t, x);
            }
            format!("[{}]", v.join(","))
        } else {
            let mut rows: Vec<Vec<String>> = vec![vec![]; 2];
            let mut l2 = l.clone();
            l2.sort_by_key(|x| x.0.clone());
            for (i, x) in &l2 {
                rows[i[0]].push(scalar(t, x));
            }
            format!("[{}]", rows.iter().map(|r| format!("[{}]", r.join(","))).collect::<Vec<_>>().join(","))
        };
        let sp = if t.choose(2) == 0 { "" } else { " " };
        parts.push(format!("\"{}\":{}{}", json_name(t, s), sp, txt));
    }
    // names the circuit does not have, in any script
    if t.choose(3) == 2 {
        for _ in 0..1 + t.choose(2) {
            let n = *t.pick(FOREIGN);
            let v = t.choose(1000);
            let at = t.choose(parts.len() as u64 + 1) as usize;
            parts.insert(at, format!("\"{}\":{}", n, v));
        }
    }
    // a text longer than any buffer or narrow length field
    if t.choose(24) == 23 {
        let n = *t.pick(&[500u64, 4090, 8190, 32760, 65530, 70000]) + t.choose(20);
        let at = t.choose(parts.len() as u64 + 1) as usize;
        let pad = match t.choose(3) {
            0 => format!("\"padding\":{}7", " ".repeat(n as usize)),
            1 => format!("\"padding\":[{}0]", "1,".repeat(n as usize / 2)),
            _ => format!("\"{}\":7", "\u{e9}".repeat(n as usize / 2)),
        };
        parts.insert(at, pad);
    }
    let sep = if t.choose(3) == 2 { ",\n  " } else { "," };
    let (before, after) = *t.pick(&[("", ""), ("", ""), ("", "\n"), (" \n", "\r\n"), ("\t", "  "), ("", "\n\n")]);
    format!("{}{{{}}}{}", before, parts.join(sep), after)
}
/// Names no circuit has: other scripts, escapes, spaces, the empty name.
pub const FOREIGN: &[&str] = &["\u{540d}\u{524d}", "\u{e9}t\u{e9}", "\u{1f511}", "\\u00e9", "\\ud83d\\udd11", "no such", "", "__proto__", "a.b", "\\\"q", "\u{202e}x"];
/// A signal name as a JSON string body, now and then with an escaped character.
pub fn json_name(t: &mut Tape, n: &str) -> String {
    if n.is_empty() || t.choose(8) != 7 {
        return n.to_string();
    }
    let c = n.as_bytes()[0];
    format!("\\u{:04x}{}", c, &n[1..])
}
/// One value as JSON: decimal string, or an integer literal when it is small (possibly negative).
pub fn scalar(t: &mut Tape, v: &Fe) -> String {
    let c = v.canon();
    let small = c[1] == 0 && c[2] == 0 && c[3] == 0 && c[0] < (1 << 53);
    let n = v.neg().canon();
    let nsmall = n[1] == 0 && n[2] == 0 && n[3] == 0 && n[0] < (1 << 53) && n[0] > 0;
    match t.choose(4) {
        0 | 1 if small => format!("{}", c[0]),
        0 if nsmall => format!("-{}", n[0]),
        1 if nsmall => format!("\"-{}\"", n[0]),
        _ => format!("\"{}\"", v.to_dec()),
    }
}

/// Messages of many buffers: some megabytes, or just at, before or after a round number of bytes.
pub fn long_message(t: &mut Tape) -> Vec<u8> {
    let n = match t.choose(8) {
        0..=2 => 1_000_000 + t.choose(3_000_000),
        3..=6 => (1u64 << (16 + t.choose(7))) + t.choose(5) - 2,
        _ => (1u64 << 24) + t.choose(4_000_000) * t.choose(2),
    };
    let mut m = vec![0; n as usize];
    Prng::new(t.choose(1 << 31)).fill(&mut m);
    m
}
pub fn message(t: &mut Tape) -> Vec<u8> {
    let n = match t.choose(8) {
        0 => t.choose(40),
        1 => 0,
        2 => 16 * t.choose(5),
        3 => 4096 + t.choose(3),
        4 => t.choose(20_000),
        5 => 8192 * (1 + t.choose(4)),
        6 => 1,
        _ => t.choose(300),
    } as usize;
    let mut p = Prng::new(t.choose(1 << 31));
    let mut b = vec![0u8; n];
    if n > 0 && n < 9000 && t.choose(4) == 3 {
        return text(t, n);
    }
    match t.choose(4) {
        0 => p.fill(&mut b),
        1 => b.iter_mut().enumerate().for_each(|(i, x)| *x = b'a' + (i % 26) as u8),
        2 => {} // zeros
        _ => b.fill(0xff),
    }
    b
}
/// Text as people keep it in files: byte-order marks, line ends of all kinds, blanks at both ends, other scripts.
fn text(t: &mut Tape, n: usize) -> Vec<u8> {
    let words: &[&str] = &["secret", " ", "\n", "\r\n", "\t", "\u{e9}", "\u{5bc6}\u{7801}", "\u{1f511}", "0", "\0", "{\"a\":1}", "\u{feff}", "\r", "=", "\u{85}"];
    let mut s: Vec<u8> = vec![];
    let lead: &[&str] = &["", "", "\u{feff}", " ", "\n", "\0", "\r\n"];
    s.extend(t.pick(lead).as_bytes());
    let mut p = Prng::new(t.choose(1 << 31));
    while s.len() < n {
        s.extend(words[p.next() as usize % words.len()].as_bytes());
    }
    let end: &[&str] = &["", "\n", "\r\n", " ", "\0", "\n\n", "\u{1a}"];
    s.extend(t.pick(end).as_bytes());
    s
}
/// A message that can be recognised anywhere (at least 24 random bytes).
pub fn marked_message(t: &mut Tape) -> Vec<u8> {
    let mut m = message(t);
    if m.len() < 32 {
        let mut p = Prng::new(t.choose(1 << 31) ^ 0x5ca1ab1e);
        m = vec![0; 32];
        p.fill(&mut m);
    } else {
        let mut p = Prng::new(t.choose(1 << 31) ^ 0x5ca1ab1e);
        p.fill(&mut m[..32]);
    }
    m
}

/// What storage or transport can do to a file at rest. Returns what happened.
pub fn damage(c: &mut Ctx, data: &mut Vec<u8>, layout: Option<&Layout>, other: Option<&[u8]>) -> String {
    let n = data.len() as u64;
    if n == 0 {
        data.push(c.choose(256) as u8);
        c.fault("append");
        return "one byte appended to an empty file".into();
    }
    let kind = c.choose(9);
    match kind {
        0 => {
            let k = 1 + c.choose(3);
            let mut d = vec![];
            for _ in 0..k {
                let i = c.choose(n) as usize;
                let b = c.choose(8);
                data[i] ^= 1 << b;
                d.push(format!("{}.{}", i, b));
            }
            c.fault("bit_flip");
            format!("bit flips at {}", d.join(","))
        }
        1 => {
            let k = c.choose(n) as usize;
            data.truncate(k);
            c.fault("truncate");
            format!("truncated to {} of {}", k, n)
        }
        2 => {
            let s = (c.choose(n) as usize) & !511;
            let e = (s + 512).min(n as usize);
            data[s..e].fill(0);
            c.fault("lost_sector");
            format!("sector at {} reads as zeros", s)
        }
        3 => {
            let k = 1 + c.choose(40) as usize;
            for _ in 0..k {
                let b = c.choose(256) as u8;
                data.push(b);
            }
            c.fault("append");
            format!("{} bytes appended", k)
        }
        4 if other.is_some() => {
            let o = other.unwrap();
            let at = c.choose(n) as usize;
            if at < o.len() {
                data.truncate(at);
                data.extend_from_slice(&o[at..]);
            } else {
                data.truncate(o.len());
            }
            c.fault("splice");
            format!("tail from {} on replaced by another file's", at)
        }
        5 if layout.is_some() => {
            let l = layout.unwrap();
            let cands: Vec<_> = l.fields.iter().filter(|f| f.1 > 0 && f.0 + f.1.min(8) <= data.len()).collect();
            if cands.is_empty() {
                data.push(0);
                c.fault("append");
                return "one zero byte appended".into();
            }
            let f = **c.t().pick(&cands);
            let mut d = String::new();
            let small = f.1.min(8);
            let v: u64 = match c.choose(7) {
                0 => 0,
                1 => u64::MAX,
                2 => 0x7fff_ffff,
                3 => 1 << 63,
                4 => c.choose(1 << 20),
                5 => 0x8000_0000,
                _ => u64::MAX - c.choose(64),
            };
            data[f.0..f.0 + small].copy_from_slice(&v.to_le_bytes()[..small]);
            d.push_str(&format!("field {} at {} overwritten with {:#x}", f.2, f.0, v));
            c.fault("field_overwrite");
            d
        }
        6 => {
            // torn write: a tail of the file was never written
            let s = c.choose(n) as usize;
            data[s..].fill(0);
            c.fault("torn_tail");
            format!("bytes from {} on read as zeros", s)
        }
        7 => {
            let i = c.choose(n) as usize;
            data.remove(i);
            c.fault("byte_lost");
            format!("byte {} lost", i)
        }
        _ => {
            let i = c.choose(n) as usize;
            let v = data[i];
            let nv = c.choose(256) as u8;
            data[i] = if nv == v { !v } else { nv };
            c.fault("byte_changed");
            format!("byte {} changed", i)
        }
    }
}
