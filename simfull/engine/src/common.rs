use fr::Fe;
use simkit::gen::{self, Instance, Shape};
use simkit::model::encode_wtns;
use simkit::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, OnceLock};

pub const MEM: usize = 1 << 30;

/// A place where a simulated process leaves its results for the checker.
pub struct Slot<T>(Arc<Mutex<Vec<T>>>);
impl<T> Clone for Slot<T> {
    fn clone(&self) -> Self {
        Slot(self.0.clone())
    }
}
impl<T> Slot<T> {
    pub fn new() -> Self {
        Slot(Arc::new(Mutex::new(vec![])))
    }
    pub fn put(&self, v: T) {
        self.0.lock().unwrap().push(v)
    }
    pub fn take(&self) -> Vec<T> {
        std::mem::take(&mut *self.0.lock().unwrap())
    }
}

/// A circuit whose non-input wires are computed from the inputs, so that other witnesses exist.
#[derive(Clone)]
pub struct Functional {
    pub inst: Instance,
    /// constraint index -> wire it defines, in order of computation
    pub defines: Vec<(usize, u32)>,
}
impl Functional {
    /// Recompute every defined wire from the inputs in w.
    pub fn solve(&self, w: &mut [Fe]) {
        let ev = |lc: &simkit::model::Lc, w: &[Fe], skip: Option<u32>| {
            lc.iter().filter(|(i, _)| Some(*i) != skip).fold(Fe::ZERO, |a, (i, c)| a.add(&Fe::from_le_mod(c).mul(&w[*i as usize])))
        };
        for (k, x) in &self.defines {
            let [a, b, c] = &self.inst.r1cs.constraints[*k];
            let v = ev(a, w, None).mul(&ev(b, w, None)).sub(&ev(c, w, Some(*x)));
            let k = c.iter().filter(|(i, _)| i == x).fold(Fe::ZERO, |s, (_, c)| s.add(&Fe::from_le_mod(c)));
            w[*x as usize] = v.mul(&k.inv().expect("coefficient"));
        }
    }
}
pub fn functional(t: &mut Tape, max_pub: u64) -> Functional {
    let (more_in, more_prv, more_mid, terms) = gen::large(t);
    let n_in = t.choose(max_pub + 1) as u32 + more_in;
    let n_out = if t.choose(3) == 2 { 1 + t.choose(2) as u32 } else { 0 };
    let n_prv = 1 + t.choose(4) as u32 + more_prv;
    let n_mid = t.choose(5) as u32 + more_mid;
    let n_wires = 1 + n_out + n_in + n_prv + n_mid;
    let first_in = 1 + n_out;
    let mut w = vec![Fe::ZERO; n_wires as usize];
    w[0] = Fe::one();
    let val = |t: &mut Tape| match t.choose(4) {
        0 => Fe::from_u64(t.choose(10)),
        1 => Fe::from_u64(1 + t.choose(1 << 30)),
        2 => Fe::from_i64(-(t.choose(1000) as i64)),
        _ => {
            let mut p = Prng::new(t.choose(1 << 31));
            Fe::from_canon([p.next(), p.next(), p.next(), p.next() >> 3])
        }
    };
    for i in first_in..first_in + n_in + n_prv {
        w[i as usize] = val(t);
    }
    let raw = |lc: Vec<(u32, Fe)>| -> simkit::model::Lc { lc.iter().map(|(i, c)| (*i, c.to_le().to_vec())).collect() };
    let nz = |t: &mut Tape| {
        let v = match t.choose(3) {
            0 => Fe::from_u64(1),
            1 => Fe::from_i64(-1),
            _ => val(t),
        };
        if v.is_zero() { Fe::one() } else { v }
    };
    let mut cons = vec![];
    let mut defines = vec![];
    let publics: Vec<u32> = std::iter::once(0).chain(first_in..first_in + n_in).collect();
    let mut known: Vec<u32> = std::iter::once(0).chain(first_in..first_in + n_in + n_prv).collect();
    for x in (first_in + n_in + n_prv..n_wires).chain(1..1 + n_out) {
        // some outputs depend on public inputs only, so that several private inputs give them
        let src = if x <= n_out && t.choose(2) == 0 { &publics } else { &known };
        let mk = |t: &mut Tape| -> Vec<(u32, Fe)> {
            let n = 1 + t.choose(3) + terms;
            (0..n).map(|_| (src[t.choose(src.len() as u64) as usize], nz(t))).collect()
        };
        let (a, b) = (mk(t), mk(t));
        let mut c = vec![(x, nz(t))];
        if t.choose(3) == 2 {
            c.extend(mk(t));
        }
        defines.push((cons.len(), x));
        cons.push([raw(a), raw(b), raw(c)]);
        known.push(x);
    }
    let mut labels = vec![];
    let mut cur = 0;
    for _ in 0..n_wires {
        labels.push(cur);
        cur += 1 + t.choose(2);
    }
    let r1cs = simkit::model::R1cs {
        field_size: 32,
        prime: fr::p_bytes().to_vec(),
        n_wires,
        n_pub_out: n_out,
        n_pub_in: n_in,
        n_prv_in: n_prv,
        n_labels: cur,
        constraints: cons,
        wire2label: Some(labels),
    };
    let signals = gen::names(t, &r1cs);
    let mut f = Functional { inst: Instance { r1cs, witness: w, signals }, defines };
    let mut w = f.inst.witness.clone();
    f.solve(&mut w);
    f.inst.witness = w;
    // a boolean-style constraint on a private input that happens to hold
    f
}

/// One user's circuit, inputs and message.
#[derive(Clone)]
pub struct Job {
    pub dir: String,
    pub inst: Instance,
    pub files: BTreeMap<&'static str, Vec<u8>>,
    pub msg: Vec<u8>,
    pub embed: bool,
    /// how the command line is spelled
    pub style: u64,
    /// where its files are and how their paths are spelled
    pub place: u64,
}
pub fn wtns(c: &mut Ctx, w: &[Fe], plain: bool) -> Vec<u8> {
    let mut order: Vec<(u32, Vec<u8>)> = vec![(1, vec![]), (2, vec![])];
    if !plain && c.choose(4) == 3 {
        let n = c.choose(30) as usize;
        order.push((3 + c.choose(5) as u32, vec![7; n]));
        gen::shuffle(c.t(), &mut order);
    }
    let v: Vec<Vec<u8>> = w.iter().map(|x| x.to_le().to_vec()).collect();
    encode_wtns(&fr::p_bytes(), &v, &order).0
}
pub fn public_entries(inst: &Instance) -> Vec<(String, Fe)> {
    let np = inst.r1cs.n_public();
    inst.signals.iter().filter(|(_, w)| *w >= 1 && *w <= np).map(|(n, w)| (n.clone(), inst.witness[*w as usize])).collect()
}
const PLACES: u64 = 9;
impl Job {
    pub fn of(c: &mut Ctx, dir: &str, inst: Instance, msg: Vec<u8>) -> Job {
        let ord = gen::order(c.t(), true, true);
        let r1cs = inst.r1cs.encode(&ord).0;
        let sym = gen::sym_file(c.t(), &inst.signals, &inst.r1cs);
        let json = gen::input_json(c.t(), &public_entries(&inst));
        let w = wtns(c, &inst.witness, false);
        let embed = c.choose(2) == 0;
        let style = c.choose(15);
        let place = c.choose(PLACES);
        Job {
            dir: dir.into(),
            place,
            files: BTreeMap::from([
                ("c.r1cs", r1cs),
                ("c.sym", sym.into_bytes()),
                ("in.json", json.into_bytes()),
                ("w.wtns", w),
                ("msg.bin", msg.clone()),
            ]),
            inst,
            msg,
            embed,
            style,
        }
    }
    pub fn random(c: &mut Ctx, dir: &str, msg: Vec<u8>) -> Job {
        if c.choose(40) == 39 {
            return Job::sudoku(c, dir, msg);
        }
        let inst = gen::instance(c.t(), &Shape { max_pub: 5, allow_no_private: false });
        Job::of(c, dir, inst, msg)
    }
    /// The repository's own sudoku circuit, symbols, inputs and witness.
    pub fn sudoku(c: &mut Ctx, dir: &str, msg: Vec<u8>) -> Job {
        let f = sudoku_files();
        let simkit::model::RefParse::Circuit(r) = simkit::model::parse_r1cs(&f["c.r1cs"], true) else { panic!("fixture") };
        let simkit::model::RefWtns::Values(_, v) = simkit::model::parse_wtns(&f["w.wtns"]) else { panic!("fixture") };
        let mut files = f.clone();
        files.insert("msg.bin", msg.clone());
        let witness = v.iter().map(|b| Fe::from_le_mod(b)).collect();
        let np = r.n_public();
        let signals = String::from_utf8_lossy(&f["c.sym"])
            .lines()
            .filter_map(|l| {
                let p: Vec<&str> = l.split(',').collect();
                let w: i64 = p[1].parse().ok()?;
                (w >= 1 && w <= np as i64).then(|| (p[3].strip_prefix("main.").unwrap().to_string(), w as u32))
            })
            .collect();
        c.probe("sudoku_circuit");
        Job { dir: dir.into(), inst: Instance { r1cs: r, witness, signals }, files, msg, embed: c.choose(2) == 0, style: c.choose(15), place: c.choose(PLACES) }
    }
    pub fn p(&self, f: &str) -> String {
        simos::norm(&self.a(f))
    }
    /// The path as it is given on the command line.
    pub fn a(&self, f: &str) -> String {
        let d = &self.dir;
        match self.place {
            1 => format!("{}/{}", d, f),
            2 => format!("/work/all/{}.{}", d, f),
            3 => format!("{}.{}", d, f),
            4 => format!("./\u{e4} b/{} {}", d, f),
            5 => format!("/work//{}/../{}/./{}", d, d, f),
            6 => format!("{}-{}", f.replace('.', "_"), d),
            _ => format!("/work/{}/{}", d, f),
        }
    }
    pub fn install(&self, w: &World) {
        w.with(|g| {
            for (n, d) in &self.files {
                g.put(&self.p(n), d.clone());
            }
        });
    }
    pub fn encrypt(&self, out: &str) -> Vec<String> {
        let mut v = argv("encrypt", self.style, &[("circuit", self.a("c.r1cs")), ("sym", self.a("c.sym")), ("input", self.a("in.json")), ("message", self.a("msg.bin")), ("output", self.a(out))]);
        if !self.embed {
            v.push("--no-public-input".into());
        }
        v
    }
    pub fn encap(&self, ct: &str, key: &str) -> Vec<String> {
        argv("encap", self.style, &[("circuit", self.a("c.r1cs")), ("sym", self.a("c.sym")), ("input", self.a("in.json")), ("ciphertext", self.a(ct)), ("key", self.a(key))])
    }
    pub fn decrypt(&self, wtns: &str, package: &str, out: &str) -> Vec<String> {
        argv("decrypt", self.style, &[("circuit", self.a("c.r1cs")), ("witness", self.a(wtns)), ("ciphertext", self.a(package)), ("output", self.a(out))])
    }
    pub fn decap(&self, wtns: &str, ct: &str, key: &str) -> Vec<String> {
        argv("decap", self.style, &[("circuit", self.a("c.r1cs")), ("witness", self.a(wtns)), ("ciphertext", self.a(ct)), ("key", self.a(key))])
    }
}
pub fn argv(cmd: &str, style: u64, opts: &[(&str, String)]) -> Vec<String> {
    let mut v = vec![cmd.to_string()];
    let mut opts: Vec<_> = opts.iter().collect();
    let n = opts.len();
    opts.rotate_left((style / 3) as usize % n);
    for (k, x) in opts {
        match style % 3 {
            1 => v.push(format!("--{}={}", k, x)),
            2 if *k != "ciphertext" => {
                v.push(format!("-{}", &k[..1]));
                v.push(x.clone());
            }
            _ => {
                v.push(format!("--{}", k));
                v.push(x.clone());
            }
        }
    }
    v
}
pub fn sudoku_files() -> &'static BTreeMap<&'static str, Vec<u8>> {
    static F: OnceLock<BTreeMap<&'static str, Vec<u8>>> = OnceLock::new();
    F.get_or_init(|| {
        let d = "/repo/packages/zkenc-cli/tests/";
        let rd = |p: &str| std::fs::read(format!("{}{}", d, p)).expect("fixture");
        let mut m = BTreeMap::from([
            ("c.r1cs", rd("r1cs/sudoku.r1cs")),
            ("c.sym", rd("r1cs/sudoku.sym")),
            ("w.wtns", rd("inputs/sudoku_sudoku_basic.wtns")),
        ]);
        // the puzzle part only: what the encryptor knows
        let v: serde_json::Value = serde_json::from_slice(&rd("inputs/sudoku_basic.json")).expect("fixture");
        let p = serde_json::json!({ "puzzle": v["puzzle"] });
        m.insert("in.json", p.to_string().into_bytes());
        m
    })
}

/// Start the zkenc program as a simulated process.
pub fn spawn(w: &mut World, name: &str, args: Vec<String>) -> usize {
    w.spawn(name, MEM, None, move || {
        if !zkenc_bin::run_zkenc(args) {
            use std::io::Write;
            let _ = std::io::stdout().flush();
            simos::end_process(1);
        }
        Ok(())
    })
}
#[derive(Clone, Debug)]
pub struct Res {
    pub outcome: Outcome,
    pub hard: Vec<String>,
    pub soft: u64,
    pub err: String,
    pub out: Vec<u8>,
    pub raw_err: Vec<u8>,
    pub entropy_failed: bool,
    pub big: usize,
}
impl Res {
    pub fn ok(&self) -> bool {
        self.outcome == Outcome::Ok
    }
    /// Ended by itself, with success or an error.
    pub fn clean(&self) -> bool {
        // a random source that does not answer may also end the process (rand's OsRng panics)
        matches!(self.outcome, Outcome::Ok | Outcome::Err(_)) || (self.entropy_failed && matches!(self.outcome, Outcome::Panic(_)))
    }
    pub fn tail(&self) -> String {
        let e = self.err.trim();
        format!("{:?} {}", self.outcome, e.chars().take(400).collect::<String>())
    }
}
pub fn res(w: &World, id: usize) -> Res {
    w.with(|g| {
        let p = &g.procs[id];
        Res {
            outcome: p.outcome.clone().unwrap_or(Outcome::Hang),
            hard: p.hard_faults.clone(),
            soft: p.soft_faults,
            err: String::from_utf8_lossy(&p.stderr).to_string(),
            out: p.stdout.clone(),
            raw_err: p.stderr.clone(),
            entropy_failed: p.entropy_failed,
            big: p.biggest_alloc,
        }
    })
}
pub fn get(w: &World, path: &str) -> Option<Vec<u8>> {
    w.with(|g| g.get(path).cloned())
}
pub fn all_files(w: &World) -> BTreeMap<String, Vec<u8>> {
    w.with(|g| g.files.iter().map(|(p, i)| (p.clone(), g.inodes[*i].clone())).collect())
}
/// Run commands one after another in a world without faults; every one must succeed.
pub fn prepare(c: &mut Ctx, jobs: &[&Job], cmds: Vec<Vec<String>>) -> R<BTreeMap<String, Vec<u8>>> {
    let mut w = c.world(FaultCfg::default());
    for j in jobs {
        j.install(&w);
    }
    let ids: Vec<(usize, String)> = cmds.into_iter().map(|a| { let n = a[0].clone(); (spawn(&mut w, &n, a), n) }).collect();
    c.run(&mut w);
    for (id, n) in ids {
        let r = res(&w, id);
        ensure!(r.ok(), "prepare_failed", "{} failed without a fault: {}", n, r.tail());
    }
    Ok(all_files(&w))
}
pub fn hexs(b: &[u8]) -> String {
    let h: String = b.iter().take(40).map(|x| format!("{:02x}", x)).collect();
    format!("{}{} ({} bytes)", h, if b.len() > 40 { ".." } else { "" }, b.len())
}
pub type Ct = zkenc_core::Ciphertext<ark_bn254::Bn254>;
pub fn decode_ct(b: &[u8]) -> Result<Ct, String> {
    use ark_serialize::CanonicalDeserialize;
    let mut r = b;
    let v = Ct::deserialize_compressed(&mut r).map_err(|e| format!("{:?}", e))?;
    if !r.is_empty() {
        return Err(format!("{} bytes after the ciphertext", r.len()));
    }
    Ok(v)
}
