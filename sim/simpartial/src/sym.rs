use crate::{Slot, MEM};
use simkit::*;
use std::collections::{BTreeMap, HashMap};
use zkenc_cli::sym_parser::{get_input_signals, parse_sym_file};

type Names = BTreeMap<String, u32>;
fn reference(text: &str, max: Option<u32>) -> (Names, Names) {
    // reference: label,wire,component,name
    let mut all = BTreeMap::new();
    for l in text.split('\n').map(|l| l.trim_end_matches('\r')) {
        let p: Vec<&str> = l.split(',').collect();
        if p.len() == 4 {
            let w: i64 = p[1].parse().unwrap();
            if w >= 0 {
                all.insert(p[3].to_string(), w as u32);
            }
        }
    }
    let inputs: BTreeMap<String, u32> = all
        .iter()
        .filter(|(n, w)| n.starts_with("main.") && max.map_or(true, |m| **w <= m))
        .map(|(n, w)| (n["main.".len()..].to_string(), *w))
        .collect();
    (all, inputs)
}

/// Symbol files of circuits far larger than the one generated: high wire numbers, many lines.
fn stretch(c: &mut Ctx, text: String, max: &mut Option<u32>) -> String {
    let base = if c.choose(3) > 0 { 0 } else { *c.t().pick(&[100u64, 200, 250, 32_700, 65_500, 70_000, 1 << 24, (1 << 31) - 200_000]) };
    let more = if c.choose(150) < 149 { 0 } else { *c.t().pick(&[255usize, 256, 257, 1000, 4096, 4097, 10_000, 65_536, 70_000]) };
    if base == 0 && more == 0 {
        return text;
    }
    let crlf = text.contains("\r\n");
    let mut lines: Vec<String> = vec![];
    for l in text.split('\n') {
        let mut p: Vec<String> = l.trim_end_matches('\r').split(',').map(String::from).collect();
        match p.get(1).and_then(|x| x.parse::<i64>().ok()) {
            Some(w) if p.len() == 4 && w >= 0 => p[1] = (w as u64 + base).to_string(),
            _ => {}
        }
        lines.push(p.join(","));
    }
    let last = lines.pop().filter(|l| !l.is_empty());
    for i in 0..more {
        lines.push(format!("{},{},{},main.zz[{}]", 5000 + i, base + 4000 + i as u64, if i % 7 == 6 { 9 } else { 0 }, i));
    }
    lines.extend(last);
    if let Some(m) = max {
        *m += base as u32 + if c.choose(2) == 1 { more as u32 } else { 0 };
    }
    lines.join(if crlf { "\r\n" } else { "\n" }) + if crlf { "\r\n" } else { "\n" }
}

/// C11: every process (with hash seeds of its own) reads the same names as the reference.
pub fn parse(c: &mut Ctx) -> R {
    let inst = gen::instance(c.t(), &gen::Shape { max_pub: 12, allow_no_private: true });
    let text = gen::sym_file(c.t(), &inst.signals, &inst.r1cs);
    let mut max = match c.choose(3) {
        0 => None,
        _ => Some(c.choose(inst.r1cs.n_wires as u64 + 2) as u32),
    };
    let text = stretch(c, text, &mut max);
    let (all, inputs) = reference(&text, max);
    let slot: Slot<(Result<HashMap<String, u32>, String>, HashMap<String, u32>)> = Slot::new();
    let mut w = c.world(FaultCfg::default());
    for i in 0..1 + c_n(&text) {
        let (s, t) = (slot.clone(), text.clone());
        w.spawn(&format!("p{}", i), MEM, None, move || {
            let m = parse_sym_file(&t).map_err(|e| format!("{:#}", e));
            let sig = m.as_ref().map(|m| get_input_signals(m, max)).unwrap_or_default();
            s.put((m, sig));
            Ok(())
        });
    }
    c.run(&mut w);
    c.log(&text);
    let bad = w.with(|g| g.procs.iter().find(|p| p.outcome != Some(Outcome::Ok)).map(|p| format!("{:?}", p.outcome)));
    ensure!(bad.is_none(), "sym_crash", "symbol parser ended with {:?} on\n{}", bad, text);
    c.nontrivial = true;
    for (m, sig) in slot.take() {
        c.evals += 1;
        let m: BTreeMap<String, u32> = match m {
            Ok(m) => m.into_iter().collect(),
            Err(e) => return viol("sym_refused", format!("a well-formed symbol file was refused: {}\n{}", e, text)),
        };
        ensure!(m == all, "sym_misread", "read {:?}, file says {:?}", m, all);
        let sig: BTreeMap<String, u32> = sig.into_iter().collect();
        ensure!(sig == inputs, "sym_inputs", "input signals up to wire {:?}: {:?}, expected {:?}", max, sig, inputs);
    }
    Ok(())
}
fn c_n(t: &str) -> usize {
    t.len() % 2
}

/// C11: threads of one process parsing files that come, change and go.
pub fn threads(c: &mut Ctx) -> R {
    let n = 1 + c.choose(3);
    let mut items: Vec<(String, Option<u32>, Names, Names)> = vec![];
    for _ in 0..n {
        let inst = gen::instance(c.t(), &gen::Shape { max_pub: 12, allow_no_private: true });
        let text = gen::sym_file(c.t(), &inst.signals, &inst.r1cs);
        let max = if c.choose(3) == 0 { None } else { Some(c.choose(inst.r1cs.n_wires as u64 + 2) as u32) };
        let (a, b) = reference(&text, max);
        if c.choose(2) == 1 {
            // the same file with the wires of two names exchanged
            let mut lines: Vec<Vec<String>> = text.split('\n').map(|l| l.split(',').map(String::from).collect()).collect();
            let at: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].len() == 4).collect();
            if !at.is_empty() {
                let (i, j) = (at[c.choose(at.len() as u64) as usize], at[c.choose(at.len() as u64) as usize]);
                let x = std::mem::take(&mut lines[i][1]);
                let y = std::mem::replace(&mut lines[j][1], x);
                lines[i][1] = if i == j { lines[i][1].clone() } else { y };
                let text: String = lines.iter().map(|l| l.join(",")).collect::<Vec<_>>().join("\n");
                let (a, b) = reference(&text, max);
                items.push((text, max, a, b));
            }
        }
        items.push((text, max, a, b));
    }
    hist::history(
        c,
        items,
        0,
        hist::Reader {
            write: |x, p| std::fs::write(p, &x.0).map_err(|e| e.to_string()),
            read: |x, p| {
                let m = std::fs::read_to_string(p).map_err(|e| e.to_string()).and_then(|t| parse_sym_file(&t).map_err(|e| format!("{:#}", e)))?;
                let sig = get_input_signals(&m, x.1);
                Ok((m.into_iter().collect::<Names>(), sig.into_iter().collect::<Names>()))
            },
            differs: |g, x| (g.0 != x.2 || g.1 != x.3).then(|| format!("read {:?} from {}", g, x.0)),
        },
    )
}
