//! C07: where keys, messages and private inputs show up.
use crate::common::*;
use fr::Fe;
use simkit::gen;
use simkit::*;
use std::collections::{BTreeSet, HashMap};

/// What an output shows to someone who reads it as bytes, hex, base64, a list of numbers or digits.
struct Seen {
    /// every 8 consecutive bytes of it, under each reading
    bytes: Vec<(&'static str, Vec<u8>)>,
    digits: Vec<String>,
}
fn decode(h: &[u8]) -> Seen {
    let mut bytes: Vec<(&'static str, Vec<u8>)> = vec![("raw", h.to_vec())];
    let mut digits = vec![];
    let hexval = |b: u8| (b as char).to_digit(16).map(|x| x as u8);
    let b64val = |b: u8| match b {
        b'A'..=b'Z' => Some(b - b'A'),
        b'a'..=b'z' => Some(b - b'a' + 26),
        b'0'..=b'9' => Some(b - b'0' + 52),
        b'+' | b'-' => Some(62),
        b'/' | b'_' => Some(63),
        _ => None,
    };
    // runs of hexadecimal and base64 characters, at every alignment
    for (name, val, per) in [("hexadecimal", &hexval as &dyn Fn(u8) -> Option<u8>, 2usize), ("base64", &b64val, 4)] {
        let mut i = 0;
        while i < h.len() {
            let st = i;
            let mut v = vec![];
            while i < h.len() {
                match val(h[i]) {
                    Some(x) => v.push(x),
                    None => break,
                }
                i += 1;
            }
            if i == st {
                i += 1;
            }
            if v.len() >= 12 {
                for sh in 0..per {
                    let mut out = vec![];
                    for ch in v[sh..].chunks_exact(per) {
                        if per == 2 {
                            out.push(ch[0] << 4 | ch[1]);
                        } else {
                            let x = (ch[0] as u32) << 18 | (ch[1] as u32) << 12 | (ch[2] as u32) << 6 | ch[3] as u32;
                            out.extend_from_slice(&[(x >> 16) as u8, (x >> 8) as u8, x as u8]);
                        }
                    }
                    bytes.push((name, out));
                }
            }
        }
    }
    // numbers: small ones in a row are a byte list, large ones are limbs or decimal values
    let mut list = vec![];
    let mut i = 0;
    while i < h.len() {
        if h[i].is_ascii_digit() {
            let st = i;
            while i < h.len() && h[i].is_ascii_digit() {
                i += 1;
            }
            let t = std::str::from_utf8(&h[st..i]).unwrap();
            if let Ok(b) = t.parse::<u8>() {
                list.push(b);
                continue;
            }
            if t.len() >= 18 {
                digits.push(t.to_string());
            }
            if let Ok(x) = t.parse::<u64>() {
                bytes.push(("number", x.to_le_bytes().to_vec()));
            }
        } else if matches!(h[i], b',' | b' ' | b'\n' | b'\r' | b'\t' | b':' | b'-') {
            i += 1;
            continue;
        } else {
            i += 1;
        }
        if list.len() >= 8 {
            bytes.push(("number list", std::mem::take(&mut list)));
        }
        list.clear();
    }
    bytes.push(("number list", list));
    Seen { bytes, digits }
}
fn telling(w: &[u8]) -> bool {
    w.iter().collect::<BTreeSet<_>>().len() >= 5
}
#[derive(Default, Clone)]
struct Needles {
    bytes: HashMap<[u8; 8], usize>,
    digits: HashMap<[u8; 18], usize>,
}
impl Needles {
    fn add(&mut self, who: usize, b: &[u8]) {
        let mut r = b.to_vec();
        r.reverse();
        for b in [b, &r] {
            for w in b.windows(8) {
                if telling(w) {
                    self.bytes.insert(w.try_into().unwrap(), who);
                }
            }
        }
    }
    /// A field element in every form: canonical and Montgomery bytes, decimal text.
    fn add_value(&mut self, who: usize, v: &Fe) {
        self.add(who, &v.to_le());
        self.add(who, &v.0.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
        for w in v.to_dec().as_bytes().windows(18) {
            if telling(w) {
                self.digits.insert(w.try_into().unwrap(), who);
            }
        }
    }
    fn minus(&mut self, o: &Needles) {
        self.bytes.retain(|k, _| !o.bytes.contains_key(k));
        self.digits.retain(|k, _| !o.digits.contains_key(k));
    }
    fn find(&self, s: &Seen) -> Option<(usize, &'static str)> {
        for (n, b) in &s.bytes {
            for w in b.windows(8) {
                if let Some(i) = self.bytes.get(w) {
                    return Some((*i, n));
                }
            }
        }
        for d in &s.digits {
            for w in d.as_bytes().windows(18) {
                if let Some(i) = self.digits.get(w) {
                    return Some((*i, "decimal"));
                }
            }
        }
        None
    }
}

pub fn run(c: &mut Ctx) -> R {
    let mut f = functional(c.t(), 4);
    // private inputs that can be recognised
    let r = f.inst.r1cs.clone();
    let first = 1 + r.n_public() as usize;
    let mut w0 = f.inst.witness.clone();
    for i in first..first + r.n_prv_in as usize {
        let mut p = Prng::new(c.seed64());
        w0[i] = Fe::from_canon([p.next(), p.next(), p.next(), p.next() >> 3]);
    }
    f.solve(&mut w0);
    f.inst.witness = w0.clone();
    let big = |v: &Fe| v.canon()[2] != 0 || v.canon()[3] != 0;
    let publics: Vec<Fe> = w0[..first].to_vec();
    let private: Vec<Fe> = w0[first..].iter().filter(|v| big(v) && !publics.contains(v) && !publics.contains(&v.neg())).cloned().collect();
    let msg = gen::marked_message(c.t());
    let mark = msg[..24].to_vec();
    let mut j = Job::of(c, "u", f.inst.clone(), msg);
    let made = prepare(c, &[&j], vec![j.encrypt("pkg"), j.encap("ct", "key")])?;
    let key = made[&j.p("key")].clone();
    // the package's own key: the system's random source is the same for a repetition
    // what goes wrong this time
    let mut inputs = made.clone();
    let what = match c.choose(6) {
        0 | 1 => "nothing",
        2 => {
            let mut w = f.inst.witness.clone();
            let i = 1 + c.choose(w.len() as u64 - 1) as usize;
            w[i] = w[i].add(&Fe::one());
            let d = wtns(c, &w, true);
            inputs.insert(j.p("w.wtns"), d);
            "unsatisfying witness"
        }
        3 => {
            let mut d = inputs[&j.p("pkg")].clone();
            let n = d.len();
            let i = n - 1 - c.choose(20.min(n as u64)) as usize;
            d[i] ^= 1;
            inputs.insert(j.p("pkg"), d);
            "tampered package"
        }
        4 => {
            let fl = *c.t().pick(&["w.wtns", "in.json", "c.sym", "c.r1cs"]);
            let mut d = inputs[&j.p(fl)].clone();
            gen::damage(c, &mut d, None, None);
            inputs.insert(j.p(fl), d);
            "damaged input file"
        }
        _ => "I/O faults",
    };
    let hard = what == "I/O faults";
    let cfg = c.faults(true, hard);
    let mut w = c.world(cfg);
    w.with(|g| {
        for (p, d) in &inputs {
            g.put(p, d.clone());
        }
    });
    let mut ids = vec![];
    let all: [(&str, Vec<String>, Vec<&str>); 4] = [
        ("encrypt", j.encrypt("new.pkg"), vec!["new.pkg"]),
        ("encap", j.encap("new.ct", "new.key"), vec!["new.ct", "new.key"]),
        ("decrypt", j.decrypt("w.wtns", "pkg", "out"), vec!["out"]),
        ("decap", j.decap("w.wtns", "ct", "key2"), vec!["key2"]),
    ];
    for (n, a, outs) in all {
        if what == "nothing" || w.with(|g| g.tape.choose(2)) == 1 {
            ids.push((n, spawn(&mut w, n, a), outs));
        }
    }
    c.run(&mut w);
    let after = all_files(&w);
    c.evals += ids.len() as u64;
    if what != "nothing" {
        c.nontrivial = true;
    }
    c.probe(what);
    let newkey = after.get(&j.p("new.key")).filter(|k| k.len() == 32).cloned();
    let mut secrets: Vec<(&str, Vec<u8>)> = vec![("message", mark.clone()), ("key", key.clone())];
    if let Some(k) = &newkey {
        secrets.push(("key", k.clone()));
    }
    // the key inside the encrypted package, recovered on the side
    let side = {
        let pk = simkit::model::Package::parse(&made[&j.p("pkg")]);
        let mut keys = vec![];
        for p in [made.get(&j.p("pkg")), after.get(&j.p("new.pkg"))].into_iter().flatten() {
            if let Some(x) = simkit::model::Package::parse(p) {
                keys.push(x.key_ct);
            }
        }
        let _ = pk;
        let mut w2 = c.world(FaultCfg::default());
        w2.with(|g| {
            for (p, d) in &made {
                g.put(p, d.clone());
            }
        });
        let mut ids = vec![];
        for (i, k) in keys.iter().enumerate() {
            w2.with(|g| g.put(&j.p(&format!("k{}", i)), k.clone()));
            ids.push(spawn(&mut w2, "side", j.decap("w.wtns", &format!("k{}", i), &format!("kk{}", i))));
        }
        c.run(&mut w2);
        (0..keys.len()).filter_map(|i| get(&w2, &j.p(&format!("kk{}", i)))).collect::<Vec<_>>()
    };
    for k in side {
        if k.len() == 32 {
            secrets.push(("key", k));
        }
    }
    let (mut msgs, mut keys, mut prv, mut known) = (Needles::default(), Needles::default(), Needles::default(), Needles::default());
    for (n, s) in &secrets {
        if *n == "key" { &mut keys } else { &mut msgs }.add(0, s);
    }
    for v in &publics {
        known.add_value(0, v);
        known.add_value(0, &v.neg());
    }
    for (i, v) in private.iter().enumerate() {
        prv.add_value(i, v);
    }
    // what the public values show is not private
    prv.minus(&known);
    let look = |place: &str, d: &[u8], allow_key: bool, allow_msg: bool| -> R {
        let seen = decode(d);
        for (n, s, allowed) in [("key", &keys, allow_key), ("message", &msgs, allow_msg)] {
            if !allowed {
                if let Some((_, f)) = s.find(&seen) {
                    return viol(format!("{}_leaked", n), format!("part of the {} appears ({}) in {} ({})", n, f, place, what));
                }
            }
        }
        if let Some((i, f)) = prv.find(&seen) {
            return viol("private_input_leaked", format!("part of private value {} appears ({}) in {} ({})", private[i].to_dec(), f, place, what));
        }
        Ok(())
    };
    for (n, id, _) in &ids {
        let r = res(&w, *id);
        look(&format!("the terminal output of {}", n), &r.out, false, false)?;
        look(&format!("the error output of {}", n), &r.raw_err, false, false)?;
        if let Outcome::Panic(p) = &r.outcome {
            look("a panic message", p.as_bytes(), false, false)?;
        }
        if r.ok() {
            c.probe("succeeded");
        } else {
            c.probe("failed");
        }
    }
    for (p, d) in &after {
        if inputs.get(p) == Some(d) {
            continue; // an input, or an output of the first phase
        }
        let allow_key = *p == j.p("new.key") || *p == j.p("key2");
        let allow_msg = *p == j.p("out");
        look(&format!("file {}", p), d, allow_key, allow_msg)?;
    }
    // the first phase's outputs
    for p in ["pkg", "ct"] {
        look(&format!("file {}", p), &made[&j.p(p)], false, false)?;
    }
    // no copy of the public-input file when embedding is off
    if !j.embed {
        let json = j.files.remove("in.json").unwrap();
        for p in [made.get(&j.p("pkg")), after.get(&j.p("new.pkg"))].into_iter().flatten() {
            if json.len() > 6 && p.windows(json.len()).any(|w| w == &json[..]) {
                return viol("public_inputs_embedded", "embedding is off but the package holds the input file");
            }
            if !p.is_empty() {
                ensure!(p[0] == 0, "public_inputs_embedded", "embedding is off but the package is flagged");
            }
        }
    }
    Ok(())
}

/// One execution of a scenario: what an observer sees of each command. None: the statement itself differs.
struct Observed {
    publics: Vec<Fe>,
    /// the witness, changed as it may be, satisfies the circuit
    holds: bool,
    seen: Vec<(&'static str, Outcome, Vec<u8>, Vec<u8>)>,
    files: Vec<(String, usize)>,
    open: Vec<(String, Vec<u8>)>,
    what: &'static str,
}
fn once(c: &mut Ctx, salt: u64) -> R<Observed> {
    let mut f = functional(c.t(), 4);
    let r = f.inst.r1cs.clone();
    let first = 1 + r.n_public() as usize;
    let secret = |c: &mut Ctx| Prng::new(c.seed64() ^ salt.wrapping_mul(0x9e37_79b9_7f4a_7c15));
    let mut w = f.inst.witness.clone();
    // bits and digits leave more to chance (whether a changed circuit or witness is satisfied)
    let small = c.choose(2) == 1;
    for i in first..first + r.n_prv_in as usize {
        let kind = if small { c.choose(4) } else { 0 };
        let mut p = secret(c);
        w[i] = match kind {
            0 | 1 => Fe::from_canon([p.next(), p.next(), p.next(), p.next() >> 3]),
            2 => Fe::from_u64(p.next() & 1),
            _ => Fe::from_u64(p.next() % 10),
        };
    }
    f.solve(&mut w);
    f.inst.witness = w.clone();
    let mut msg = gen::message(c.t());
    secret(c).fill(&mut msg);
    let j = Job::of(c, "u", f.inst.clone(), msg);
    // other randomness, so other keys; the packages have the same form
    let es = c.seed64() ^ salt;
    let made = {
        // on a tape of its own: sampling takes more or fewer draws
        let mut c = Ctx::new(Tape::replay(vec![]), false);
        let mut w = c.world_with(FaultCfg::default(), es);
        j.install(&w);
        for (i, a) in [j.encrypt("pkg"), j.encap("ct", "key")].into_iter().enumerate() {
            if i > 0 {
                c.lend(&mut w);
            }
            let id = spawn(&mut w, "prepare", a);
            c.run(&mut w);
            let r = res(&w, id);
            ensure!(r.ok(), "prepare_failed", "a fault-free command failed: {}", r.tail());
        }
        all_files(&w)
    };
    let mut inputs = made.clone();
    let len = |inputs: &std::collections::BTreeMap<String, Vec<u8>>, f: &str| inputs[&j.p(f)].len();
    let mut holds = true;
    let what = match c.choose(8) {
        0 | 1 => "nothing",
        2 => {
            let mut w = f.inst.witness.clone();
            let i = 1 + c.choose(w.len() as u64 - 1) as usize;
            w[i] = w[i].add(&Fe::one());
            holds = simkit::model::satisfies(&r, &w);
            let d = wtns(c, &w, true);
            inputs.insert(j.p("w.wtns"), d);
            "unsatisfying witness"
        }
        3 => {
            let n = len(&inputs, "pkg");
            let i = n - 1 - c.choose(20.min(n as u64)) as usize;
            inputs.get_mut(&j.p("pkg")).unwrap()[i] ^= 1 << c.choose(8);
            "tampered message part"
        }
        4 => {
            let fl = *c.t().pick(&["w.wtns", "pkg", "ct", "w.wtns"]);
            let k = c.choose(len(&inputs, fl) as u64 + 1) as usize;
            inputs.get_mut(&j.p(fl)).unwrap().truncate(k);
            "truncated file"
        }
        5 => {
            let fl = *c.t().pick(&["in.json", "c.sym", if small { "c.sym" } else { "c.r1cs" }]);
            let mut d = inputs[&j.p(fl)].clone();
            gen::damage(c, &mut d, None, None);
            inputs.insert(j.p(fl), d);
            "damaged public file"
        }
        6 => {
            // a witness of another length, or the header of another file
            let mut d = wtns(c, &f.inst.witness, true);
            if c.choose(2) == 0 {
                // not the lengths of the sections: what is read after those may be a private value
                let i = *c.t().pick(&[0, 1, 4, 5, 8, 9, 12, 13, 24, 25, 28, 29, 40, 59, 60, 61, 64, 65]);
                d[i] ^= 1 << c.choose(8);
            } else {
                let mut w = f.inst.witness.clone();
                let n = w.len() as u64;
                if c.choose(2) == 0 { w.truncate(c.choose(n) as usize) } else { w.push(secret(c).next().into_fe()) }
                d = wtns(c, &w, true);
            }
            inputs.insert(j.p("w.wtns"), d);
            "odd witness file"
        }
        _ => "I/O faults",
    };
    let mut cfg = c.faults(true, what == "I/O faults");
    cfg.alloc_gap = 0; // allocations may depend on values
    let mut w = c.world(cfg);
    w.with(|g| {
        for (p, d) in &inputs {
            g.put(p, d.clone());
        }
    });
    let mut ids = vec![];
    for (n, a) in [("encrypt", j.encrypt("new.pkg")), ("encap", j.encap("new.ct", "new.key")), ("decrypt", j.decrypt("w.wtns", "pkg", "out")), ("decap", j.decap("w.wtns", "ct", "key2"))] {
        if what == "nothing" || w.with(|g| g.tape.choose(2)) == 1 {
            ids.push((n, spawn(&mut w, n, a)));
        }
    }
    // the bindings, with the same circuit, witness and ciphertext
    let slot: Slot<String> = Slot::new();
    let s = slot.clone();
    let (x, y, z) = (inputs[&j.p("c.r1cs")].clone(), inputs[&j.p("w.wtns")].clone(), inputs[&j.p("ct")].clone());
    ids.push(("bindings", w.spawn("bindings", MEM, None, move || {
        s.put(format!("wasm_encap: {:?}", zkenc_js::wasm_encap(&x, &y).map(|e| (e.ciphertext().len(), e.key().len())).map_err(|e| e.text())));
        s.put(format!("wasm_decap: {:?}", zkenc_js::wasm_decap(&x, &y, &z).map(|k| k.len()).map_err(|e| e.text())));
        Ok(())
    })));
    c.run(&mut w);
    let after = all_files(&w);
    let texts = slot.take().join("\n");
    let seen = ids.iter().map(|(n, id)| { let r = res(&w, *id); (*n, r.outcome, r.out, if *n == "bindings" { [&r.raw_err[..], texts.as_bytes()].concat() } else { r.raw_err }) }).collect();
    let files = after.iter().map(|(p, d)| (p.clone(), d.len())).collect();
    let mut open = vec![];
    for n in ["pkg", "new.pkg"] {
        if let Some(p) = after.get(&j.p(n)).and_then(|d| simkit::model::Package::parse(d)) {
            open.push((n.to_string(), p.public.unwrap_or_default()));
        }
    }
    Ok(Observed { publics: f.inst.witness[..first].to_vec(), holds, seen, files, open, what })
}
trait IntoFe {
    fn into_fe(self) -> Fe;
}
impl IntoFe for u64 {
    fn into_fe(self) -> Fe {
        Fe::from_u64(self)
    }
}
/// C07 by comparison: the same execution with other secrets looks the same from outside.
pub fn twins(c: &mut Ctx) -> R {
    let start = c.t().rec.len();
    let a = once(c, 0)?;
    let rest = c.t().rec[start..].to_vec();
    let mut sub = Ctx::new(Tape::replay(rest), false);
    let b = once(&mut sub, 1)?;
    if a.publics != b.publics || a.holds != b.holds {
        c.probe("outputs_depend_on_private_inputs");
        return Ok(());
    }
    c.evals += a.seen.len() as u64;
    c.nontrivial = a.what != "nothing";
    c.probe(a.what);
    let show = |x: &[u8]| String::from_utf8_lossy(x).trim().chars().take(300).collect::<String>();
    for (x, y) in a.seen.iter().zip(&b.seen) {
        c.probe(if x.1 == Outcome::Ok { "same_success" } else { "same_failure" });
        ensure!(x.1 == y.1, "secret_dependent_outcome", "{} ends with {:?}, with other secrets {:?} ({})", x.0, x.1, y.1, a.what);
        ensure!(x.2 == y.2, "secret_dependent_output", "{} prints {:?}, with other secrets {:?} ({})", x.0, show(&x.2), show(&y.2), a.what);
        ensure!(x.3 == y.3, "secret_dependent_error", "{} reports {:?}, with other secrets {:?} ({})", x.0, show(&x.3), show(&y.3), a.what);
    }
    for (x, y) in a.files.iter().zip(&b.files) {
        ensure!(x == y, "secret_dependent_files", "file {:?}, with other secrets {:?} ({})", x, y, a.what);
    }
    ensure!(a.files.len() == b.files.len(), "secret_dependent_files", "{} files, with other secrets {} ({})", a.files.len(), b.files.len(), a.what);
    for (x, y) in a.open.iter().zip(&b.open) {
        ensure!(x == y, "secret_dependent_package", "open part of {} {:?}, with other secrets {:?}", x.0, show(&x.1), show(&y.1));
    }
    Ok(())
}
