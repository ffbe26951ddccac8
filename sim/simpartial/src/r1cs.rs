use crate::Slot;
use simkit::model::{self, Layout, RefParse};
use simkit::*;
use zkenc_cli::r1cs::{LinearCombination, R1csFile};

fn lc(x: &LinearCombination) -> model::Lc {
    x.factors.clone()
}
/// Difference between what was read and what the file encodes.
fn differs(got: &R1csFile, want: &model::R1cs) -> Option<String> {
    macro_rules! f { ($a:expr, $b:expr, $n:expr) => { if $a != $b { return Some(format!("{}: read {:?}, file has {:?}", $n, $a, $b)); } } }
    f!(got.field_size, want.field_size, "field size");
    f!(got.prime, want.prime, "prime");
    f!(got.n_wires, want.n_wires, "wires");
    f!(got.n_pub_out, want.n_pub_out, "public outputs");
    f!(got.n_pub_in, want.n_pub_in, "public inputs");
    f!(got.n_prv_in, want.n_prv_in, "private inputs");
    f!(got.n_labels, want.n_labels, "labels");
    f!(got.n_constraints as usize, want.constraints.len(), "constraint count");
    f!(got.constraints.len(), want.constraints.len(), "constraints read");
    for (i, (g, w)) in got.constraints.iter().zip(&want.constraints).enumerate() {
        for (k, (g, w)) in [&g.a, &g.b, &g.c].iter().zip(w.iter()).enumerate() {
            if lc(g) != *w {
                return Some(format!("constraint {} part {}: read {:?}, file has {:?}", i, k, lc(g), w));
            }
        }
    }
    match &want.wire2label {
        Some(l) => f!(got.wire2label, *l, "wire labels"),
        None => f!(got.wire2label, (0..want.n_wires as u64).collect::<Vec<_>>(), "default wire labels"),
    }
    None
}

pub fn fixtures() -> &'static [(Vec<u8>, model::R1cs)] {
    static F: std::sync::OnceLock<Vec<(Vec<u8>, model::R1cs)>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let mut v = vec![];
        for f in ["zkenc-cli/tests/r1cs/sudoku.r1cs", "zkenc-js/tests/fixtures/merkle_membership.r1cs"] {
            if let Ok(b) = std::fs::read(format!("/repo/packages/{}", f)) {
                if let RefParse::Circuit(c) = model::parse_r1cs(&b, true) {
                    v.push((b, c));
                }
            }
        }
        v
    })
}

fn circuit(c: &mut Ctx) -> (Vec<u8>, Layout, model::R1cs, bool) {
    circuit_or(c, true)
}
fn circuit_or(c: &mut Ctx, fixture: bool) -> (Vec<u8>, Layout, model::R1cs, bool) {
    if fixture && !fixtures().is_empty() && c.choose(25) == 24 {
        let i = c.choose(fixtures().len() as u64) as usize;
        let (b, m) = &fixtures()[i];
        return (b.clone(), Layout::default(), m.clone(), true);
    }
    let (r, order) = built(c);
    let (b, l) = r.encode(&order);
    (b, l, r, false)
}
/// A circuit file's content and the order of its sections.
fn built(c: &mut Ctx) -> (model::R1cs, Vec<(u32, Vec<u8>)>) {
    let inst = gen::instance(c.t(), &gen::Shape { max_pub: 6, allow_no_private: true });
    let mut r = inst.r1cs;
    // other field widths: the same numbers, padded or cut
    if c.choose(3) == 2 {
        let fs = *c.t().pick(&[8u32, 4, 48, 64, 1]);
        r.field_size = fs;
        r.prime.resize(fs as usize, 0);
        for k in r.constraints.iter_mut() {
            for l in k.iter_mut() {
                for f in l.iter_mut() {
                    f.1.resize(fs as usize, 0);
                }
            }
        }
    }
    // something larger than the reader's buffer now and then
    if c.choose(6) == 5 {
        let n = 20 + c.choose(400);
        let one = r.constraints[0].clone();
        for i in 0..n {
            let mut x = one.clone();
            x[0].iter_mut().for_each(|f| f.0 = (f.0 + i as u32) % r.n_wires);
            r.constraints.push(x);
        }
    }
    if c.choose(12) == 11 {
        r.constraints.clear();
    }
    let labels = c.choose(4) != 3;
    if !labels {
        r.wire2label = None;
    }
    let order = gen::order(c.t(), labels, true);
    (r, order)
}

struct Got {
    r: Result<R1csFile, String>,
}

fn read_it(c: &mut Ctx, bytes: Vec<u8>, cfg: FaultCfg, limit: usize) -> (Option<Outcome>, Option<Result<R1csFile, String>>, Vec<String>, u64, usize) {
    let mut w = c.world(cfg);
    let len = bytes.len();
    w.with(|g| {
        g.put("/work/c.r1cs", bytes);
        g.step_limit = 40 * len as u64 + 20_000;
    });
    let slot: Slot<Got> = Slot::new();
    let s = slot.clone();
    let path = *c_path();
    w.spawn("reader", limit, None, move || {
        let r = R1csFile::from_file(path).map_err(|e| format!("{:#}", e));
        s.put(Got { r });
        Ok(())
    });
    c.run(&mut w);
    let (o, h, soft, big) = w.with(|g| {
        let p = &g.procs[0];
        (p.outcome.clone(), p.hard_faults.clone(), p.soft_faults, p.biggest_alloc)
    });
    (o, slot.take().pop().map(|g| g.r), h, soft, big)
}
fn c_path() -> &'static &'static str {
    &"/work/c.r1cs"
}

/// C09: intact files, split, interrupted and failing reads.
pub fn disk(c: &mut Ctx) -> R {
    let (b, _, m, fixture) = circuit(c);
    let hard = c.choose(3) == 2;
    let mut cfg = c.faults(true, hard);
    if fixture {
        // keep long files affordable
        cfg.short = cfg.short.min(100);
    }
    let n = b.len();
    let (o, r, hardf, soft, _) = read_it(c, b, cfg, 64 << 20);
    c.evals += 1;
    if soft > 0 || !hardf.is_empty() {
        c.nontrivial = true;
    }
    ensure!(o == Some(Outcome::Ok), "r1cs_reader_crash", "reading a well-formed file of {} bytes ended with {:?}", n, o);
    match r.unwrap() {
        Ok(g) => {
            c.probe(if hardf.is_empty() { "read" } else { "read_after_hard_fault" });
            if let Some(d) = differs(&g, &m) {
                return viol("r1cs_misread", format!("{} (file of {} bytes, faults {:?}, {} soft)", d, n, hardf, soft));
            }
            let ser = g.to_serializable();
            let same = ser.constraints.len() == m.constraints.len()
                && ser.n_wires == m.n_wires
                && ser.n_pub_in == m.n_pub_in
                && ser.n_pub_out == m.n_pub_out
                && ser.n_prv_in == m.n_prv_in
                && ser.field_size == m.field_size
                && ser.prime_bytes == m.prime
                && ser.n_constraints as usize == m.constraints.len()
                && ser.constraints.iter().zip(&m.constraints).all(|(s, w)| {
                    [&s.a, &s.b, &s.c].iter().zip(w.iter()).all(|(l, w)| {
                        l.factors.len() == w.len() && l.factors.iter().zip(w).all(|(f, w)| f.wire_id == w.0 && f.coefficient_bytes == w.1)
                    })
                });
            ensure!(same, "r1cs_export_differs", "to_serializable differs from the circuit read");
        }
        Err(e) => {
            c.probe("refused");
            ensure!(!hardf.is_empty(), "r1cs_refused", "a well-formed file of {} bytes was refused: {}", n, e);
        }
    }
    Ok(())
}

/// C09: truncated and corrupted files.
pub fn damaged(c: &mut Ctx) -> R {
    let (orig, l, m, _) = circuit(c);
    let mut b = orig.clone();
    let what = if c.choose(3) == 0 {
        let k = if c.choose(3) == 0 && !l.fields.is_empty() {
            // at a field boundary
            let i = c.choose(l.fields.len() as u64) as usize;
            l.fields[i].0
        } else {
            c.choose(b.len() as u64) as usize
        };
        b.truncate(k);
        c.fault("truncate");
        format!("truncated to {} of {}", k, orig.len())
    } else {
        let lay = if l.fields.is_empty() { None } else { Some(&l) };
        let mut s = gen::damage(c, &mut b, lay, None);
        if c.choose(5) == 4 && lay.is_some() {
            s += "; ";
            s += &gen::damage(c, &mut b, lay, None);
        }
        s
    };
    c.log(&what);
    let truncated = b.len() < orig.len() && orig.starts_with(&b);
    let soft = c.choose(2) == 1;
    let mut cfg = c.faults(soft, false);
    if b.len() > 20_000 {
        cfg.short = 0;
    }
    // Defaulted labels are 8 bytes per declared wire by definition of the result.
    let has3 = m.wire2label.is_some();
    let declared = match model::parse_r1cs(&b, false) {
        RefParse::Circuit(x) => x.n_wires as usize,
        _ => 0,
    };
    let limit = (64 << 20) + 200 * b.len();
    if declared > (1 << 20) && !has3 {
        return Ok(());
    }
    let n = b.len();
    let (o, r, _, _, big) = read_it(c, b.clone(), cfg, limit);
    c.evals += 1;
    c.nontrivial = true;
    match &o {
        Some(Outcome::Ok) => {}
        Some(Outcome::OutOfMemory(sz)) => {
            // A file without labels may declare any number of wires (see DESIGN.md).
            if matches!(model::parse_r1cs(&b, true), RefParse::Circuit(_) | RefParse::Ambiguous) && labelless(&b) {
                return Ok(());
            }
            return viol("r1cs_memory", format!("{}: the reader asked for {} bytes (largest request {}) for a file of {}", what, sz, big, n));
        }
        Some(Outcome::Hang) => return viol("r1cs_hang", format!("{}: the reader does not end", what)),
        Some(Outcome::Panic(p)) => return viol("r1cs_panic", format!("{}: the reader panicked: {}", what, p)),
        o => return viol("r1cs_reader_crash", format!("{}: {:?}", what, o)),
    }
    match r.unwrap() {
        Err(_) => {
            c.probe("refused");
            // refusing a file that is corrupted is always allowed
        }
        Ok(g) => {
            if truncated {
                if let Some(d) = differs(&g, &m) {
                    return viol("r1cs_truncated_accepted", format!("{}: {}", what, d));
                }
                c.probe("truncated_but_complete");
                return Ok(());
            }
            match model::parse_r1cs(&b, true) {
                RefParse::Circuit(x) => {
                    if let Some(d) = differs(&g, &x) {
                        return viol("r1cs_misread", format!("{}: {}", what, d));
                    }
                    c.probe("read_as_encoded");
                }
                RefParse::Malformed => return viol("r1cs_malformed_accepted", format!("{}: an incomplete file gave a circuit of {} constraints", what, g.constraints.len())),
                RefParse::Ambiguous => c.probe("ambiguous_accepted"),
            }
        }
    }
    Ok(())
}
fn labelless(b: &[u8]) -> bool {
    match model::parse_r1cs(b, true) {
        RefParse::Circuit(x) => x.wire2label.is_none(),
        _ => true,
    }
}

/// C09: threads of one process reading files that come, change and go.
pub fn threads(c: &mut Ctx) -> R {
    let n = 1 + c.choose(3);
    let mut items: Vec<(Vec<u8>, model::R1cs)> = vec![];
    for _ in 0..n {
        let (mut r, order) = built(c);
        items.push((r.encode(&order).0, r.clone()));
        if c.choose(2) == 1 && !r.constraints.is_empty() {
            // the same file but for one number
            let k = c.choose(r.constraints.len() as u64) as usize;
            match r.constraints[k].iter_mut().flatten().last() {
                Some(f) => f.1[0] = f.1[0].wrapping_add(1),
                None => r.n_prv_in ^= 1,
            }
            items.push((r.encode(&order).0, r));
        }
    }
    let size = items.iter().map(|x| x.0.len()).max().unwrap_or(0);
    hist::history(
        c,
        items,
        size,
        hist::Reader {
            write: |x, p| std::fs::write(p, &x.0).map_err(|e| e.to_string()),
            read: |_, p| R1csFile::from_file(p).map_err(|e| format!("{:#}", e)),
            differs: |g, x| differs(g, &x.1),
        },
    )
}
