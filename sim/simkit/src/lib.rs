//! Runner for simulated executions: seeds, recording, replay, shrinking, evidence counters.
pub mod gen;
pub mod hist;
pub mod model;
pub mod refaes;

use serde_json::{json, Value};
pub use simos::{FaultCfg, Inner, Outcome, Prng, Stats, Tape, World};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Violation {
    /// Class of the violation; stable, names the specific input/site/history kind.
    pub key: String,
    pub detail: String,
}
pub type R<T = ()> = Result<T, Violation>;

pub fn viol<T>(key: impl Into<String>, detail: impl Into<String>) -> R<T> {
    Err(Violation { key: key.into(), detail: detail.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($d:tt)*) => {
        if !($c) { return Err($crate::Violation { key: $key.to_string(), detail: format!($($d)*) }); }
    };
}

pub struct Ctx {
    tape: Option<Tape>,
    /// the world that has the tape at the moment
    holder: Option<World>,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub stats: Stats,
    pub probes: BTreeMap<String, u64>,
    pub evals: u64,
    pub nontrivial: bool,
    pub sample: Option<String>,
    pub findings: Vec<Violation>,
    /// Values collected over all runs of a batch (e.g. nonces), checked at the end.
    pub collected: Vec<Vec<u8>>,
}

fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for &c in b {
        h ^= c as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl Ctx {
    pub fn new(tape: Tape, trace_on: bool) -> Ctx {
        Ctx {
            tape: Some(tape),
            holder: None,
            trace_on,
            trace: vec![],
            trace_hash: 0xcbf29ce484222325,
            sched_hash: 0xcbf29ce484222325,
            stats: Stats::default(),
            probes: BTreeMap::new(),
            evals: 0,
            nontrivial: false,
            sample: None,
            findings: vec![],
            collected: vec![],
        }
    }
    pub fn t(&mut self) -> &mut Tape {
        self.tape.as_mut().expect("tape is inside a world")
    }
    pub fn choose(&mut self, n: u64) -> u64 {
        self.t().choose(n)
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        self.t().range(lo, hi)
    }
    pub fn chance(&mut self, a: u64, b: u64) -> bool {
        self.t().chance(a, b)
    }
    pub fn seed64(&mut self) -> u64 {
        let a = self.choose(1 << 31);
        let b = self.choose(1 << 31);
        a << 31 | b
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn log(&mut self, s: impl AsRef<str>) {
        self.trace_hash = fnv(self.trace_hash, s.as_ref().as_bytes());
        if self.trace_on {
            self.trace.push(format!("-- {}", s.as_ref()));
        }
    }
    pub fn fault(&mut self, k: &'static str) {
        self.stats.hit(k);
    }
    pub fn world(&mut self, cfg: FaultCfg) -> World {
        let es = self.seed64();
        self.world_with(cfg, es)
    }
    pub fn world_with(&mut self, cfg: FaultCfg, entropy_seed: u64) -> World {
        self.log(format!("world {:?} entropy={:x}", cfg, entropy_seed));
        let w = World::new(self.tape.take().unwrap(), cfg, entropy_seed, self.trace_on);
        self.holder = Some(w.again());
        w
    }
    /// Run the world to the end and take the tape and the counters back.
    pub fn run(&mut self, w: &mut World) {
        w.run();
        self.absorb(w);
    }
    pub fn absorb(&mut self, w: &mut World) {
        self.holder = None;
        w.with(|g| {
            self.tape = Some(std::mem::replace(&mut g.tape, Tape::replay(vec![])));
            for (k, v) in std::mem::take(&mut g.stats.fired) {
                *self.stats.fired.entry(k).or_insert(0) += v;
            }
            self.stats.syscalls += std::mem::take(&mut g.stats.syscalls);
            self.stats.switches += std::mem::take(&mut g.stats.switches);
            self.stats.sim_ns += std::mem::take(&mut g.stats.sim_ns);
            self.trace_hash = fnv(self.trace_hash, &g.trace_hash.to_le_bytes());
            self.sched_hash = fnv(self.sched_hash, &g.sched_hash.to_le_bytes());
            self.trace.append(&mut g.trace);
        });
    }
    /// Lend the tape to a world again for a further phase.
    pub fn lend(&mut self, w: &mut World) {
        let t = self.tape.take().unwrap();
        w.with(|g| g.tape = t);
        self.holder = Some(w.again());
    }
    /// Random fault configuration: a random subset of the allowed kinds at random rates.
    pub fn faults(&mut self, soft: bool, hard: bool) -> FaultCfg {
        let mut c = FaultCfg::default();
        let rate = |s: &mut Self, lo: u64, hi: u64| -> u64 {
            if s.choose(2) == 1 {
                *s.t().pick(&[lo, (lo + hi) / 2, hi])
            } else {
                0
            }
        };
        c.preempt = *self.t().pick(&[0, 16, 64, 200]);
        c.alloc_gap = *self.t().pick(&simos::ALLOC_GAPS);
        c.coarse_time = *self.t().pick(&[1, 1_000_000_000]);
        if soft {
            c.short = rate(self, 40, 700);
            c.eintr = rate(self, 20, 300);
            c.stall = rate(self, 2, 20);
            c.entropy_short = rate(self, 100, 600);
        }
        if hard {
            c.eio_read = rate(self, 4, 120);
            c.eio_write = rate(self, 20, 300);
            c.open_fail = rate(self, 20, 200);
            c.enospc = rate(self, 20, 300);
            c.entropy_fail = rate(self, 50, 500);
        }
        c
    }
}

pub type Comp = fn(&mut Ctx) -> R;
/// Batch-level check over everything collected in the runs of one worker.
pub type Batch = fn(&[Vec<u8>]) -> R;

pub struct Component {
    pub name: &'static str,
    pub run: Comp,
    pub batch: Option<Batch>,
}

fn mix(seed: u64, name: &str, i: u64) -> u64 {
    let mut p = Prng::new(fnv(seed ^ 0xabcdef12345, name.as_bytes()) ^ i.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    p.next();
    p.next()
}

/// What one run reports.
pub struct Done {
    pub rec: Vec<u32>,
    pub trace: Vec<String>,
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub fired: BTreeMap<String, u64>,
    pub syscalls: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub probes: BTreeMap<String, u64>,
    pub evals: u64,
    pub nontrivial: bool,
    pub sample: Option<String>,
    pub collected: Vec<Vec<u8>>,
    /// every violation found
    pub violations: Vec<Violation>,
}
impl Done {
    fn of(mut ctx: Ctx, r: R) -> Done {
        // a component may stop at its first violation, with the tape still inside its world
        if let Some(mut w) = ctx.holder.take() {
            ctx.absorb(&mut w);
        }
        let mut violations = std::mem::take(&mut ctx.findings);
        if let Err(v) = r {
            violations.push(v);
        }
        Done {
            rec: ctx.tape.take().map(|t| t.rec).unwrap_or_default(),
            trace: ctx.trace,
            trace_hash: ctx.trace_hash,
            sched_hash: ctx.sched_hash,
            fired: ctx.stats.fired.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
            syscalls: ctx.stats.syscalls,
            switches: ctx.stats.switches,
            sim_ns: ctx.stats.sim_ns,
            probes: ctx.probes,
            evals: ctx.evals,
            nontrivial: ctx.nontrivial,
            sample: ctx.sample,
            collected: ctx.collected,
            violations,
        }
    }
    fn dead(key: &str, detail: String) -> Done {
        let mut c = Ctx::new(Tape::replay(vec![]), false);
        c.trace_hash = fnv(c.trace_hash, key.as_bytes());
        Done::of(c, Err(Violation { key: key.into(), detail }))
    }
    fn to_bytes(&self) -> Vec<u8> {
        let hex = |b: &Vec<u8>| b.iter().map(|x| format!("{:02x}", x)).collect::<String>();
        let v = json!({
            "rec": self.rec, "trace": self.trace, "th": self.trace_hash, "sh": self.sched_hash, "fired": self.fired,
            "sys": self.syscalls, "sw": self.switches, "ns": self.sim_ns, "probes": self.probes, "evals": self.evals,
            "nt": self.nontrivial, "sample": self.sample, "col": self.collected.iter().map(hex).collect::<Vec<_>>(),
            "v": self.violations.iter().map(|v| json!([v.key, v.detail])).collect::<Vec<_>>(),
        });
        serde_json::to_vec(&v).unwrap()
    }
    fn from_bytes(b: &[u8]) -> Option<Done> {
        let v: Value = serde_json::from_slice(b).ok()?;
        let n = |k: &str| v[k].as_u64().unwrap_or(0);
        let map = |k: &str| v[k].as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0))).collect()).unwrap_or_default();
        let strs = |k: &str| v[k].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect::<Vec<_>>()).unwrap_or_default();
        let unhex = |s: &String| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect::<Vec<u8>>();
        Some(Done {
            rec: v["rec"].as_array()?.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect(),
            trace: strs("trace"),
            trace_hash: n("th"),
            sched_hash: n("sh"),
            fired: map("fired"),
            syscalls: n("sys"),
            switches: n("sw"),
            sim_ns: n("ns"),
            probes: map("probes"),
            evals: n("evals"),
            nontrivial: v["nt"].as_bool().unwrap_or(false),
            sample: v["sample"].as_str().map(|s| s.to_string()),
            collected: strs("col").iter().map(unhex).collect(),
            violations: v["v"].as_array()?.iter().map(|x| Violation { key: x[0].as_str().unwrap_or("").into(), detail: x[1].as_str().unwrap_or("").into() }).collect(),
        })
    }
}

/// How long one run may take in real time before it counts as hanging.
const RUN_LIMIT_MS: i32 = 240_000;

/// Execute one run in a forked copy of this process, so that nothing the code under test keeps in
/// static variables reaches the next run, and a run that dies takes only itself down.
fn exec(c: &Component, tape: Tape, trace: bool) -> Done {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            let mut ctx = Ctx::new(tape, trace);
            let r = (c.run)(&mut ctx);
            let b = Done::of(ctx, r).to_bytes();
            let mut at = 0;
            while at < b.len() {
                let n = libc::write(fds[1], b[at..].as_ptr() as *const libc::c_void, b.len() - at);
                if n <= 0 {
                    libc::_exit(9);
                }
                at += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = vec![];
        let mut buf = vec![0u8; 1 << 16];
        let mut late = false;
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            if libc::poll(&mut p, 1, RUN_LIMIT_MS) == 0 {
                late = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut libc::c_void, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if late {
            return Done::dead("run_hangs", format!("the run made no progress within {} s", RUN_LIMIT_MS / 1000));
        }
        match Done::from_bytes(&out) {
            Some(d) => d,
            None if libc::WIFSIGNALED(st) => Done::dead("run_died", format!("the code under test killed its process with signal {}", libc::WTERMSIG(st))),
            None => {
                eprintln!("a run of {} ended without a report (status {:x})", c.name, st);
                std::process::exit(2)
            }
        }
    }
}

/// Does this tape fail with a violation of the same class?
fn fails(c: &Component, tape: &[u32], key: &str) -> Option<Vec<u32>> {
    let d = exec(c, Tape::replay(tape.to_vec()), false);
    if d.violations.iter().any(|v| v.key == key) {
        let mut rec = if d.rec.is_empty() { tape.to_vec() } else { d.rec };
        while rec.last() == Some(&0) {
            rec.pop();
        }
        Some(rec)
    } else {
        None
    }
}

fn shrink(c: &Component, tape: Vec<u32>, key: &str, budget: Duration) -> (Vec<u32>, u64) {
    let t0 = Instant::now();
    let mut best = tape;
    let mut n = 0u64;
    let smaller = |a: &Vec<u32>, b: &Vec<u32>| {
        let w = |v: &Vec<u32>| (v.len(), v.iter().filter(|&&x| x != 0).count(), v.iter().map(|&x| x as u64).sum::<u64>());
        w(a) < w(b)
    };
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        // truncate
        let mut cut = best.len() / 2;
        while cut >= 1 && t0.elapsed() < budget {
            if best.len() > cut {
                n += 1;
                let cand = best[..best.len() - cut].to_vec();
                if let Some(r) = fails(c, &cand, key) {
                    if smaller(&r, &best) {
                        best = r;
                        progress = true;
                        continue;
                    }
                }
            }
            cut /= 2;
        }
        // delete and zero chunks
        for mode in 0..2 {
            let mut size = (best.len() / 2).max(1);
            while size >= 1 && t0.elapsed() < budget {
                let mut i = 0;
                while i < best.len() && t0.elapsed() < budget {
                    let e = (i + size).min(best.len());
                    let mut cand = best.clone();
                    if mode == 0 {
                        cand.drain(i..e);
                    } else {
                        if cand[i..e].iter().all(|&x| x == 0) {
                            i = e;
                            continue;
                        }
                        cand[i..e].fill(0);
                    }
                    n += 1;
                    if let Some(r) = fails(c, &cand, key) {
                        if smaller(&r, &best) {
                            best = r;
                            progress = true;
                            if mode == 0 {
                                continue;
                            }
                        }
                    }
                    i = e;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
        // lower values
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            let v = best[i];
            for cand_v in [1, v / 2, v.saturating_sub(1)] {
                if cand_v < v {
                    let mut cand = best.clone();
                    cand[i] = cand_v;
                    n += 1;
                    if let Some(r) = fails(c, &cand, key) {
                        if smaller(&r, &best) {
                            best = r;
                            progress = true;
                            break;
                        }
                    }
                }
                if i >= best.len() {
                    break;
                }
            }
            i += 1;
        }
    }
    (best, n)
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

/// Entry point of an engine binary.
pub fn main(engine: &str, comps: &[Component]) -> ! {
    simos::link_me();
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        // Like the default hook, without a backtrace and without thread names.
        use std::io::Write;
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let _ = writeln!(std::io::stderr(), "thread panicked at {}:\n{}", i.location().map(|l| l.to_string()).unwrap_or_default(), msg);
    }));
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in comps {
                println!("{}", c.name);
            }
            std::process::exit(0)
        }
        Some("run") => run_cmd(engine, comps, &args),
        Some("replay") => replay_cmd(comps, &args[2]),
        Some("trace") => {
            // the whole event log of one run of a seed
            let c = comps.iter().find(|c| Some(c.name) == args.get(2).map(|s| s.as_str())).expect("component");
            let (seed, i) = (args[3].parse().expect("seed"), args[4].parse().expect("run"));
            let d = exec(c, Tape::seeded(mix(seed, c.name, i)), true);
            for l in &d.trace {
                println!("{}", l);
            }
            println!("trace hash {:016x}", d.trace_hash);
            std::process::exit(0)
        }
        _ => {
            eprintln!("usage: {} list | run --component C --seed S --worker K/N --runs R --time T --out F --replay-dir D | replay FILE", engine);
            std::process::exit(2)
        }
    }
}

fn run_cmd(engine: &str, comps: &[Component], args: &[String]) -> ! {
    let cname = arg(args, "--component").unwrap_or_default();
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let runs: u64 = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(100);
    let time: f64 = arg(args, "--time").and_then(|s| s.parse().ok()).unwrap_or(1e9);
    let (k, n): (u64, u64) = {
        let w = arg(args, "--worker").unwrap_or("0/1".into());
        let (a, b) = w.split_once('/').unwrap();
        (a.parse().unwrap(), b.parse().unwrap())
    };
    let known: BTreeSet<String> =
        arg(args, "--known").unwrap_or_default().split('\n').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let audit: u64 = arg(args, "--audit").and_then(|s| s.parse().ok()).unwrap_or(3);
    let out = arg(args, "--out").expect("--out");
    let rdir = arg(args, "--replay-dir").expect("--replay-dir");
    let prop = arg(args, "--property").unwrap_or_default();
    let Some(c) = comps.iter().find(|c| c.name == cname) else {
        eprintln!("no component {}", cname);
        std::process::exit(2)
    };
    let t0 = Instant::now();
    let mut tot = Stats::default();
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let (mut done, mut evals) = (0u64, 0u64);
    let mut traces: BTreeSet<u64> = BTreeSet::new();
    let mut scheds: BTreeSet<u64> = BTreeSet::new();
    let mut nontrivial: BTreeSet<u64> = BTreeSet::new();
    let mut samples: Vec<String> = vec![];
    let mut viols: Vec<Value> = vec![];
    let mut seen_keys: BTreeSet<String> = BTreeSet::new();
    let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut collected: Vec<Vec<u8>> = vec![];
    let mut hashes: Vec<(u64, String)> = vec![];
    let mut audit_bad = vec![];
    let mut first: Option<Instant> = None;
    let mut i = k;
    while i < runs && t0.elapsed().as_secs_f64() < time {
        let s = mix(seed, c.name, i);
        let mut ctx = exec(c, Tape::seeded(s), false);
        done += 1;
        evals += ctx.evals.max(1);
        traces.insert(ctx.trace_hash);
        scheds.insert(ctx.sched_hash);
        if ctx.nontrivial {
            nontrivial.insert(ctx.trace_hash);
        }
        if samples.len() < 3 {
            let auto = || {
                let f = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{} {}", v, k)).collect::<Vec<_>>().join(", ");
                format!("run {}: {} system calls, {} switches; faults: {}; seen: {}", i, ctx.syscalls, ctx.switches, f(&ctx.fired), f(&ctx.probes))
            };
            let s = ctx.sample.clone().or_else(|| ctx.nontrivial.then(auto));
            if let Some(s) = s {
                samples.push(s);
            }
        }
        for (k, v) in &ctx.fired {
            *fired.entry(k.clone()).or_insert(0) += v;
        }
        tot.syscalls += ctx.syscalls;
        tot.switches += ctx.switches;
        tot.sim_ns += ctx.sim_ns;
        for (k, v) in &ctx.probes {
            *probes.entry(k.clone()).or_insert(0) += v;
        }
        collected.append(&mut ctx.collected);
        if (i / n) < audit {
            hashes.push((i, format!("{:016x}", ctx.trace_hash)));
            let c2 = exec(c, Tape::seeded(s), false);
            if c2.trace_hash != ctx.trace_hash {
                audit_bad.push(i);
            }
        }
        let tape = std::mem::take(&mut ctx.rec);
        for v in std::mem::take(&mut ctx.violations) {
            if known.contains(&v.key) {
                let e = known_hits.entry(v.key.clone()).or_insert((0, v.detail.clone()));
                e.0 += 1;
                continue;
            }
            if !seen_keys.insert(v.key.clone()) {
                continue;
            }
            // nothing was reported back: the seed itself is the tape
            let dead = v.key == "run_died" || v.key == "run_hangs";
            let hang = v.key.contains("hang");
            let (small, tried) = if hang || dead { (tape.clone(), 0) } else { shrink(c, tape.clone(), &v.key, Duration::from_secs(20)) };
            let fc = if dead { Done::dead(&v.key, v.detail.clone()) } else { exec(c, Tape::replay(small.clone()), true) };
            let fv = fc.violations.iter().find(|x| x.key == v.key).unwrap_or(&v).clone();
            let file = format!("{}/{}_{}_{}{}.json", rdir, if prop.is_empty() { "X" } else { &prop }, c.name, i, if viols.is_empty() { String::new() } else { format!("_{}", viols.len()) });
            let body = json!({
                "property": prop, "engine": engine, "component": c.name, "run": i, "seed": s.to_string(), "verif_seed": seed,
                "class": fv.key, "violation": fv.detail,
                "original_choices": tape.len(), "minimised_choices": small.len(), "minimiser_runs": tried,
                "trace_hash": format!("{:016x}", fc.trace_hash),
                "tape": if dead { Value::Null } else { json!(small) }, "trace": fc.trace,
            });
            let _ = std::fs::create_dir_all(&rdir);
            std::fs::write(&file, serde_json::to_string_pretty(&body).unwrap()).expect("replay file");
            viols.push(json!({"class": fv.key, "detail": fv.detail, "replay": file, "seed": s.to_string()}));
        }
        i += n;
        if !viols.is_empty() {
            // a little longer for violations of other kinds
            let since = *first.get_or_insert_with(Instant::now);
            if viols.len() >= 3 || since.elapsed().as_secs() >= 5 {
                break;
            }
        }
    }
    if let Some(b) = c.batch {
        if let Err(v) = b(&collected) {
            if known.contains(&v.key) {
                known_hits.insert(v.key.clone(), (1, v.detail.clone()));
            } else {
                // the batch is one history: its replay is the whole range of seeds
                let file = format!("{}/{}_{}_batch{}.json", rdir, if prop.is_empty() { "X" } else { &prop }, c.name, k);
                let body = json!({"property": prop, "engine": engine, "component": c.name, "batch": true, "verif_seed": seed,
                    "runs": i.min(runs), "worker": format!("{}/{}", k, n), "class": v.key, "violation": v.detail});
                let _ = std::fs::create_dir_all(&rdir);
                std::fs::write(&file, serde_json::to_string_pretty(&body).unwrap()).expect("replay file");
                viols.push(json!({"class": v.key, "detail": v.detail, "replay": file}));
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let hex = |s: &BTreeSet<u64>| s.iter().take(100_000).map(|x| format!("{:016x}", x)).collect::<Vec<_>>();
    let summary = json!({
        "engine": engine, "component": c.name, "runs": done, "evaluations": evals, "wall_s": wall,
        "sim_ns": tot.sim_ns, "syscalls": tot.syscalls, "context_switches": tot.switches,
        "faults": fired, "probes": probes, "trace_hashes": hex(&traces), "schedule_hashes": hex(&scheds),
        "nontrivial_hashes": hex(&nontrivial), "samples": samples, "violations": viols,
        "known": known_hits.iter().map(|(k, (n, d))| json!({"class": k, "count": n, "detail": d})).collect::<Vec<_>>(),
        "audit_hashes": hashes, "audit_mismatch": audit_bad,
    });
    std::fs::write(&out, serde_json::to_string(&summary).unwrap()).expect("summary");
    if !audit_bad.is_empty() {
        eprintln!("determinism audit failed for runs {:?} of {}", audit_bad, c.name);
        std::process::exit(2);
    }
    std::process::exit(if viols.is_empty() { 0 } else { 1 })
}

fn replay_cmd(comps: &[Component], file: &str) -> ! {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let c = comps.iter().find(|c| c.name == v["component"].as_str().unwrap_or("")).expect("component");
    let key = v["class"].as_str().unwrap_or("");
    if v["batch"].as_bool() == Some(true) {
        let seed = v["verif_seed"].as_u64().unwrap_or(1);
        let w = v["worker"].as_str().unwrap();
        let (k, n) = w.split_once('/').unwrap();
        let (k, n): (u64, u64) = (k.parse().unwrap(), n.parse().unwrap());
        let runs = v["runs"].as_u64().unwrap();
        let mut all = vec![];
        let mut i = k;
        while i < runs {
            let mut d = exec(c, Tape::seeded(mix(seed, c.name, i)), false);
            all.append(&mut d.collected);
            i += n;
        }
        match (c.batch.unwrap())(&all) {
            Err(x) if x.key == key => {
                println!("REPRODUCED {} {}", x.key, x.detail);
                std::process::exit(1)
            }
            _ => {
                println!("NOT REPRODUCED");
                std::process::exit(0)
            }
        }
    }
    let tape = match v["tape"].as_array() {
        Some(a) => Tape::replay(a.iter().map(|x| x.as_u64().unwrap() as u32).collect()),
        None => Tape::seeded(v["seed"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0)),
    };
    let ctx = exec(c, tape, true);
    for l in &ctx.trace {
        println!("{}", l);
    }
    let h = format!("{:016x}", ctx.trace_hash);
    match ctx.violations.into_iter().find(|x| x.key == key) {
        Some(x) => {
            println!("REPRODUCED {}: {}", x.key, x.detail);
            println!("trace hash {} (recorded {})", h, v["trace_hash"].as_str().unwrap_or("?"));
            std::process::exit(if Some(h.as_str()) == v["trace_hash"].as_str() { 1 } else { 3 })
        }
        None => {
            println!("NOT REPRODUCED");
            std::process::exit(0)
        }
    }
}
