use crate::{Slot, MEM};
use simkit::*;
use std::collections::{BTreeMap, HashMap};
use zkenc_cli::circom::{load_circom_circuit, parse_inputs};

fn jstr(t: &mut Tape) -> (String, String) {
    let parts: [(&str, &str); 12] = [
        ("a", "a"), ("0", "0"), ("12345678901234567890123456789", "12345678901234567890123456789"),
        ("\\n", "\n"), ("\\u00e9", "é"), ("漢", "漢"), (" ", " "), ("\\\"", "\""), ("\\\\", "\\"), ("-1", "-1"), ("{", "{"), ("x_1", "x_1"),
    ];
    let n = t.choose(4);
    let (mut raw, mut val) = (String::new(), String::new());
    for _ in 0..n {
        let p = parts[t.choose(12) as usize];
        raw.push_str(p.0);
        val.push_str(p.1);
    }
    (format!("\"{}\"", raw), val)
}
/// JSON text and the scalars it holds in document order.
fn value(t: &mut Tape, depth: u64) -> (String, Vec<String>) {
    let k = t.choose(if depth == 0 { 6 } else { 10 });
    match k {
        0 => {
            let v = t.choose(1 << 31) * t.choose(1 << 31);
            (v.to_string(), vec![v.to_string()])
        }
        1 => (
            "18446744073709551615".into(),
            vec!["18446744073709551615".into()],
        ),
        2 => {
            let v = -(t.choose(1 << 31) as i64) - 1;
            (v.to_string(), vec![v.to_string()])
        }
        3 => {
            let (a, b) = jstr(t);
            (a, vec![b])
        }
        4 => {
            let b = t.choose(2) == 1;
            (b.to_string(), vec![if b { "1".into() } else { "0".into() }])
        }
        5 => ("null".into(), vec!["0".into()]),
        9 => ("{\"in\": [1, {\"x\": 2}], \"y\": 3}".into(), vec![]),
        _ => {
            let n = t.choose(5);
            let (mut s, mut v) = (vec![], vec![]);
            for _ in 0..n {
                let (a, b) = value(t, depth - 1);
                s.push(a);
                v.extend(b);
            }
            let sep = *t.pick(&[",", ", ", " ,\n\t"]);
            (format!("[{}]", s.join(sep)), v)
        }
    }
}

/// A JSON object and what its loader has to report.
fn document(t: &mut Tape) -> (String, BTreeMap<String, Vec<String>>) {
    let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut items = vec![];
    let n = t.choose(7);
    for i in 0..n {
        let (mut kraw, mut k) = jstr(t);
        if want.contains_key(&k) {
            k = format!("{}{}", k, i);
            kraw = format!("{}{}\"", &kraw[..kraw.len() - 1], i);
        }
        if want.contains_key(&k) {
            continue;
        }
        let (a, b) = value(t, 3);
        items.push(format!("{}:{}", kraw, a));
        want.insert(k, b);
    }
    if t.choose(8) == 7 {
        // longer than any read buffer
        let m = 500 + t.choose(4000);
        items.push(format!("\"long\":[{}]", (0..m).map(|i| format!("\"{}\"", i)).collect::<Vec<_>>().join(",")));
        want.insert("long".into(), (0..m).map(|i| i.to_string()).collect());
    }
    let sep = *t.pick(&[",", ",\n  "]);
    let text = format!("{{{}}}", items.join(sep));
    (text, want)
}

/// C18: JSON inputs under I/O faults and damage.
pub fn inputs(c: &mut Ctx) -> R {
    let (text, want) = document(c.t());
    let t = c.t();
    let mut bytes = text.clone().into_bytes();
    let mut must_fail = None;
    let what = match t.choose(8) {
        0 => {
            let k = t.choose(bytes.len() as u64) as usize;
            bytes.truncate(k);
            must_fail = Some("json_truncated_accepted");
            c.fault("truncate");
            "truncated"
        }
        1 => {
            // an invalid byte inside
            let i = t.choose(bytes.len() as u64) as usize;
            bytes[i] = 0xff;
            must_fail = Some("json_not_utf8_accepted");
            c.fault("byte_changed");
            "non-UTF-8 byte"
        }
        2 => {
            bytes = t.pick(&["[1,2]", "5", "\"x\"", "null", "", "  ", "[{\"a\":1}]"]).as_bytes().to_vec();
            must_fail = Some("json_non_object_accepted");
            "not an object"
        }
        3 => {
            let k = 1 + t.choose(3) as usize;
            bytes.extend(std::iter::repeat(b'}').take(k));
            must_fail = Some("json_trailing_accepted");
            c.fault("append");
            "trailing bytes"
        }
        _ => "intact",
    };
    let missing = c.choose(20) == 19;
    let hard = c.choose(4) == 3;
    let cfg = c.faults(true, hard);
    let np = 1 + c.choose(2);
    let mut w = c.world(cfg);
    w.with(|g| {
        if !missing {
            g.put("/work/in.json", bytes.clone())
        }
    });
    let slot: Slot<(usize, Result<HashMap<String, Vec<String>>, String>)> = Slot::new();
    for i in 0..np as usize {
        let s = slot.clone();
        w.spawn(&format!("p{}", i), MEM, None, move || {
            s.put((i, parse_inputs("/work/in.json").map_err(|e| format!("{:#}", e))));
            Ok(())
        });
    }
    c.run(&mut w);
    c.log(format!("{} {}", what, text));
    let faults: Vec<(Option<Outcome>, Vec<String>, u64)> = w.with(|g| g.procs.iter().map(|p| (p.outcome.clone(), p.hard_faults.clone(), p.soft_faults)).collect());
    for (o, ..) in &faults {
        ensure!(*o == Some(Outcome::Ok), "json_crash", "loading ended with {:?} on {} {}", o, what, text);
    }
    for (i, r) in slot.take() {
        c.evals += 1;
        let (_, hardf, soft) = &faults[i];
        if *soft > 0 || !hardf.is_empty() {
            c.nontrivial = true;
        }
        match r {
            Ok(m) => {
                c.probe("loaded");
                ensure!(!missing, "json_missing_accepted", "a missing file gave {:?}", m);
                if let Some(k) = must_fail {
                    return viol(k, format!("{} input file {:?} gave {:?}", what, String::from_utf8_lossy(&bytes), m));
                }
                let m: BTreeMap<_, _> = m.into_iter().collect();
                ensure!(m == want, "json_misread", "read {:?} from {} (want {:?}; faults {:?})", m, text, want, hardf);
            }
            Err(e) => {
                c.probe("refused");
                ensure!(missing || must_fail.is_some() || !hardf.is_empty(), "json_refused", "{} refused: {}", text, e);
            }
        }
    }
    Ok(())
}

/// C18: loading a circuit needs both files; the report depends on their contents only.
pub fn load(c: &mut Ctx) -> R {
    let n1 = c.choose(20_000) as usize;
    let n2 = c.choose(20_000) as usize;
    let (mut a, mut b) = (vec![0u8; n1], vec![0u8; n2]);
    Prng::new(c.choose(1 << 31)).fill(&mut a);
    Prng::new(c.choose(1 << 31)).fill(&mut b);
    let mut seen: Vec<(usize, usize, usize)> = vec![];
    for round in 0..3 {
        let miss = if round == 0 { 0 } else { c.choose(5) };
        let (which, how, at) = if miss == 4 { (c.choose(2), c.choose(3), c.choose(20_000)) } else { (0, 0, 0) };
        let cfg = if round == 0 { FaultCfg::default() } else { c.faults(true, true) };
        let mut w = c.world(cfg);
        let (d1, d2) = if round == 1 { ("/work", "/tmp") } else { ("/out", "/out") };
        let (p1, p2) = (format!("{}/c{}.r1cs", d1, round), format!("{}/c.wasm", d2));
        w.with(|g| {
            if miss != 2 {
                g.put(&p1, a.clone());
            }
            if miss != 3 {
                g.put(&p2, b.clone());
            }
        });
        // there, but not readable: no permission, a bad sector, a directory
        let mut spoilt = "";
        if miss == 4 {
            let (p, n) = if which == 0 { (&p1, n1) } else { (&p2, n2) };
            spoilt = if p.ends_with(".r1cs") { ".r1cs" } else { ".wasm" };
            match how {
                0 if n > 0 => w.with(|g| g.spoil(p, Some(at % n as u64))),
                1 => w.with(|g| {
                    g.remove(p);
                    g.dirs.insert(p.clone());
                }),
                _ => w.with(|g| g.spoil(p, None)),
            }
            c.probe("unreadable_file");
        }
        let slot: Slot<Result<(usize, usize, usize), String>> = Slot::new();
        let s = slot.clone();
        w.spawn("p", MEM, None, move || {
            s.put(load_circom_circuit(&p1, &p2).map_err(|e| format!("{:#}", e)));
            Ok(())
        });
        c.run(&mut w);
        c.evals += 1;
        let (o, hardf, soft) = w.with(|g| (g.procs[0].outcome.clone(), g.procs[0].hard_faults.clone(), g.procs[0].soft_faults));
        ensure!(o == Some(Outcome::Ok), "circuit_load_crash", "ended with {:?}", o);
        if soft > 0 || !hardf.is_empty() {
            c.nontrivial = true;
        }
        match slot.take().remove(0) {
            Ok(x) => {
                c.probe("loaded");
                ensure!(miss != 4, "circuit_unreadable_accepted", "loading succeeded although the {} file cannot be read", spoilt);
                ensure!(miss < 2, "circuit_missing_accepted", "a circuit without its {} file gave {:?}", if miss == 2 { ".r1cs" } else { ".wasm" }, x);
                ensure!(hardf.is_empty(), "circuit_unreadable_accepted", "loading succeeded although {:?} hit it", hardf);
                seen.push(x);
            }
            Err(e) => {
                c.probe("refused");
                ensure!(miss >= 2 || !hardf.is_empty(), "circuit_refused", "refused without a cause: {}", e);
            }
        }
    }
    ensure!(seen.windows(2).all(|p| p[0] == p[1]), "circuit_report_varies", "the same contents were reported as {:?}", seen);
    Ok(())
}

/// C18: threads of one process loading inputs that come, change and go.
pub fn threads(c: &mut Ctx) -> R {
    let n = 1 + c.choose(3);
    let mut items: Vec<(String, BTreeMap<String, Vec<String>>)> = vec![];
    for _ in 0..n {
        let (text, want) = document(c.t());
        if c.choose(2) == 1 && !want.contains_key("k") {
            // the same document but for one value
            for v in ["10", "01", "23"] {
                let mut want = want.clone();
                want.insert("k".into(), vec![v.into()]);
                items.push((format!("{{\"k\":\"{}\"{}{}", v, if want.len() == 1 { "" } else { "," }, &text[1..]), want));
            }
        }
        items.push((text, want));
    }
    let size = items.iter().map(|x| x.0.len()).max().unwrap_or(0);
    hist::history(
        c,
        items,
        size,
        hist::Reader {
            write: |x, p| std::fs::write(p, &x.0).map_err(|e| e.to_string()),
            read: |_, p| parse_inputs(p).map(|m| m.into_iter().collect::<BTreeMap<_, _>>()).map_err(|e| format!("{:#}", e)),
            differs: |g, x| (*g != x.1).then(|| format!("read {:?} from {}", g, x.0)),
        },
    )
}
