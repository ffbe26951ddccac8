use crate::tape::{Prng, Tape};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Condvar, Mutex};

pub const FD_BASE: i32 = 1_000_000;

#[derive(Clone, Debug, Default)]
pub struct FaultCfg {
    /// Chances in 1024 per eligible system call.
    pub short: u64,
    pub eintr: u64,
    pub eio_read: u64,
    pub eio_write: u64,
    pub open_fail: u64,
    pub enospc: u64,
    pub entropy_fail: u64,
    pub entropy_short: u64,
    pub stall: u64,
    /// Chance in 256 of a context switch at a system call.
    pub preempt: u64,
    /// A context switch also at memory allocations, up to this many apart (0: none).
    pub alloc_gap: u64,
    /// Clock handed out by clock_gettime does not advance.
    pub frozen_clock: bool,
    /// Resolution of the file system's time stamps, ns (0: 1).
    pub coarse_time: u64,
    /// Every process sees the same pid (containers).
    pub same_pid: bool,
    /// 0 = random bytes; 1 = all 0xff; 2 = all 0; 3 = counter-like bytes (low entropy is legal for
    /// a random source at any single draw; used where only determinism in the bytes matters).
    pub entropy_bias: u8,
    /// Flip one bit of this byte of every process's (secure) random stream.
    pub entropy_flip: Option<u64>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    /// Returned normally.
    Ok,
    /// Returned an error (text).
    Err(String),
    Panic(String),
    Crashed,
    OutOfMemory(usize),
    Hang,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub fired: BTreeMap<&'static str, u64>,
    pub syscalls: u64,
    pub alloc_points: u64,
    pub switches: u64,
    pub sim_ns: u64,
}
impl Stats {
    pub fn hit(&mut self, k: &'static str) {
        *self.fired.entry(k).or_insert(0) += 1;
    }
}

#[derive(Clone, Debug, PartialEq)]
enum PState {
    Runnable,
    Done,
}

pub struct Proc {
    pub name: String,
    state: PState,
    pub outcome: Option<Outcome>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub hard_faults: Vec<String>,
    pub soft_faults: u64,
    pub steps: u64,
    pub crash_at: Option<u64>,
    ghost: bool,
    fds: BTreeMap<i32, OpenFile>,
    next_fd: i32,
    entropy: Prng,
    hash_entropy: Prng,
    pub entropy_bytes: u64,
    pub entropy_log: Vec<Vec<u8>>,
    pub entropy_failed: bool,
    pub peak_mem: usize,
    pub biggest_alloc: usize,
    pub mem_limit: usize,
    pub opened: Vec<(String, bool)>,
    pub bytes_read: u64,
}

struct OpenFile {
    ino: usize,
    path: String,
    pos: u64,
    append: bool,
    read: bool,
    write: bool,
    dir: bool,
}

const INO_URANDOM: usize = usize::MAX;

pub(crate) type Stat = (u32, u64, u64, u64);
pub struct Inner {
    current: usize,
    pub procs: Vec<Proc>,
    pub tape: Tape,
    pub cfg: FaultCfg,
    pub stats: Stats,
    pub files: BTreeMap<String, usize>,
    pub inodes: Vec<Vec<u8>>,
    pub mtimes: BTreeMap<usize, u64>,
    /// Pipes: inode and how much of it has been read.
    pub pipes: BTreeMap<usize, u64>,
    /// Files that cannot be read from this offset on, however often it is tried (None: not even opened).
    pub bad: BTreeMap<usize, Option<u64>>,
    pub dirs: BTreeSet<String>,
    pub capacity: Option<u64>,
    pub written: u64,
    pub trace: Vec<String>,
    pub trace_on: bool,
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub entropy_seed: u64,
    pub clock_ns: u64,
    pub step_limit: u64,
    pub observer: Option<Box<dyn FnMut(&BTreeMap<String, usize>, &Vec<Vec<u8>>) -> Option<String> + Send>>,
    pub observed: Option<String>,
}

pub struct Shared {
    m: Mutex<Inner>,
    cv: Condvar,
}

const CONTROLLER: usize = usize::MAX;

thread_local! {
    pub(crate) static ACTIVE: Cell<bool> = const { Cell::new(false) };
    pub(crate) static CTX: RefCell<Option<(Arc<Shared>, usize)>> = const { RefCell::new(None) };
}

fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for &c in b {
        h ^= c as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub fn norm(path: &str) -> String {
    let full = if path.starts_with('/') { path.to_string() } else { format!("/work/{}", path) };
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}
fn parent(path: &str) -> String {
    match path.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => path[..i].into(),
    }
}

impl Inner {
    pub fn ev(&mut self, pid: usize, what: &str) {
        let name = if pid == CONTROLLER { "-".to_string() } else { self.procs[pid].name.clone() };
        let line = format!("[{:>9}us] {}: {}", self.clock_ns / 1000, name, what);
        self.trace_hash = fnv(self.trace_hash, line.as_bytes());
        if self.trace_on {
            if self.trace.len() < 3000 {
                self.trace.push(line);
            }
        }
    }
    pub fn put(&mut self, path: &str, data: Vec<u8>) {
        let p = norm(path);
        let mut d = parent(&p);
        while self.dirs.insert(d.clone()) && d != "/" {
            d = parent(&d);
        }
        let ino = self.inodes.len();
        self.inodes.push(data);
        self.files.insert(p, ino);
    }
    /// A named pipe (or /dev/fd entry) whose writer has written all of this and gone.
    pub fn put_pipe(&mut self, path: &str, data: Vec<u8>) {
        self.put(path, data);
        let i = self.files[&norm(path)];
        self.pipes.insert(i, 0);
    }
    pub fn spoil(&mut self, path: &str, from: Option<u64>) {
        let i = self.files[&norm(path)];
        self.bad.insert(i, from);
    }
    pub fn get(&self, path: &str) -> Option<&Vec<u8>> {
        self.files.get(&norm(path)).map(|&i| &self.inodes[i])
    }
    pub fn remove(&mut self, path: &str) {
        self.files.remove(&norm(path));
    }
    /// How many allocations until the next possible switch.
    fn gap(&mut self) -> u64 {
        match self.cfg.alloc_gap {
            0 => 0,
            _ if self.procs.len() < 2 || self.stats.alloc_points > 4000 => 0,
            n => 1 + self.tape.choose(n),
        }
    }
    fn next_proc(&mut self, me: usize, force: bool) -> usize {
        let runnable: Vec<usize> =
            (0..self.procs.len()).filter(|&i| self.procs[i].state == PState::Runnable).collect();
        if runnable.is_empty() {
            return CONTROLLER;
        }
        if force {
            // me has finished: any other
            let i = self.tape.choose(runnable.len() as u64) as usize;
            return runnable[i];
        }
        if runnable.len() > 1 && self.tape.chance(self.cfg.preempt, 256) {
            let others: Vec<usize> = runnable.into_iter().filter(|&i| i != me).collect();
            let i = self.tape.choose(others.len() as u64) as usize;
            return others[i];
        }
        me
    }
}

pub struct World {
    sh: Arc<Shared>,
    bodies: Vec<Option<Box<dyn FnOnce() -> Result<(), String> + Send + 'static>>>,
}

impl World {
    pub fn new(tape: Tape, cfg: FaultCfg, entropy_seed: u64, trace_on: bool) -> World {
        let mut dirs = BTreeSet::new();
        for d in ["/", "/work", "/tmp", "/dev", "/out"] {
            dirs.insert(d.to_string());
        }
        let inner = Inner {
            current: CONTROLLER,
            procs: vec![],
            tape,
            cfg,
            stats: Stats::default(),
            files: BTreeMap::new(),
            inodes: vec![],
            mtimes: BTreeMap::new(),
            pipes: BTreeMap::new(),
            bad: BTreeMap::new(),
            dirs,
            capacity: None,
            written: 0,
            trace: vec![],
            trace_on,
            trace_hash: 0xcbf29ce484222325,
            sched_hash: 0xcbf29ce484222325,
            entropy_seed,
            clock_ns: 1_700_000_000_000_000_000,
            step_limit: 400_000,
            observer: None,
            observed: None,
        };
        World { sh: Arc::new(Shared { m: Mutex::new(inner), cv: Condvar::new() }), bodies: vec![] }
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut Inner) -> R) -> R {
        f(&mut self.sh.m.lock().unwrap())
    }
    /// Register a simulated process. `mem_limit` bytes of memory, `crash_at` its n-th system call.
    pub fn spawn(
        &mut self,
        name: &str,
        mem_limit: usize,
        crash_at: Option<u64>,
        f: impl FnOnce() -> Result<(), String> + Send + 'static,
    ) -> usize {
        let mut g = self.sh.m.lock().unwrap();
        let id = g.procs.len();
        let es = g.entropy_seed;
        g.procs.push(Proc {
            name: name.to_string(),
            state: PState::Runnable,
            outcome: None,
            stdout: vec![],
            stderr: vec![],
            hard_faults: vec![],
            soft_faults: 0,
            steps: 0,
            crash_at,
            ghost: false,
            fds: BTreeMap::new(),
            next_fd: FD_BASE,
            entropy: Prng::new(es ^ (id as u64 + 1).wrapping_mul(0xA24B_AED4_963E_E407)),
            hash_entropy: Prng::new(es ^ (id as u64 + 77).wrapping_mul(0x9FB2_1C65_1E98_DF25)),
            entropy_bytes: 0,
            entropy_log: vec![],
            entropy_failed: false,
            peak_mem: 0,
            biggest_alloc: 0,
            mem_limit,
            opened: vec![],
            bytes_read: 0,
        });
        drop(g);
        self.bodies.push(Some(Box::new(f)));
        id
    }
    /// Run every registered process that has not run yet, to the end.
    pub fn run(&mut self) {
        let mut handles = vec![];
        for (id, b) in self.bodies.iter_mut().enumerate() {
            let Some(body) = b.take() else { continue };
            let sh = self.sh.clone();
            let h = std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || proc_main(sh, id, body))
                .expect("spawn");
            handles.push(h);
        }
        if handles.is_empty() {
            return;
        }
        {
            let mut g = self.sh.m.lock().unwrap();
            let first = g.next_proc(CONTROLLER, true);
            g.current = first;
            self.sh.cv.notify_all();
            let t0 = std::time::Instant::now();
            while g.current != CONTROLLER {
                let (g2, to) = self.sh.cv.wait_timeout(g, std::time::Duration::from_secs(5)).unwrap();
                g = g2;
                if to.timed_out() && t0.elapsed().as_secs() > 120 {
                    // A process that computes for two minutes without any system call.
                    let cur = g.current;
                    if cur != CONTROLLER {
                        g.procs[cur].outcome = Some(Outcome::Hang);
                        g.procs[cur].state = PState::Done;
                        g.procs[cur].ghost = true;
                        g.ev(cur, "hang: no progress");
                        return; // threads leak; the run is over
                    }
                }
            }
        }
        for h in handles {
            if self.with(|g| g.procs.iter().any(|p| matches!(p.outcome, Some(Outcome::OutOfMemory(_)) | Some(Outcome::Hang)))) {
                // such a thread may be parked for ever; do not join
                drop(h);
            } else {
                let _ = h.join();
            }
        }
    }
    /// The same world again, to get at its tape and counters once this handle is gone.
    pub fn again(&self) -> World {
        World { sh: self.sh.clone(), bodies: vec![] }
    }
    pub fn finish(self) -> Tape {
        let mut g = self.sh.m.lock().unwrap();
        std::mem::replace(&mut g.tape, Tape::replay(vec![]))
    }
}

fn proc_main(sh: Arc<Shared>, id: usize, body: Box<dyn FnOnce() -> Result<(), String> + Send>) {
    let (limit, point);
    {
        let mut g = sh.m.lock().unwrap();
        while g.current != id {
            g = sh.cv.wait(g).unwrap();
        }
        limit = g.procs[id].mem_limit;
        g.ev(id, "start");
        point = g.gap();
    }
    CTX.with(|c| *c.borrow_mut() = Some((sh.clone(), id)));
    // from here on this thread's locks are the simulated process's: the simulator's own are not taken any more
    ACTIVE.with(|a| a.set(true));
    crate::alloc::next_point(point);
    crate::alloc::enable(limit);
    let mut r = None;
    let exited = crate::escape::run(|| {
        r = Some(std::panic::catch_unwind(AssertUnwindSafe(|| {
            let r = body();
            use std::io::Write;
            let _ = std::io::stdout().flush();
            r
        })));
    });
    let (r, silent) = match exited {
        None => (r.expect("body ran"), false),
        Some(0) => (Ok(Ok(())), true),
        Some(n) => (Ok(Err(format!("exit status {}", n))), true),
    };
    let (peak, big) = crate::alloc::disable();
    ACTIVE.with(|a| a.set(false));
    CTX.with(|c| *c.borrow_mut() = None);
    let mut g = sh.m.lock().unwrap();
    let out = match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(e)) => Outcome::Err(e),
        Err(p) => Outcome::Panic(
            p.downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into()),
        ),
    };
    if let Outcome::Err(e) = &out {
        if !g.procs[id].ghost && !silent {
            let t = format!("Error: {}\n", e);
            g.procs[id].stderr.extend_from_slice(t.as_bytes());
        }
    }
    let p = &mut g.procs[id];
    p.state = PState::Done;
    p.peak_mem = peak;
    p.biggest_alloc = big;
    if p.outcome.is_none() {
        p.outcome = Some(out.clone());
    }
    let o = g.procs[id].outcome.clone().unwrap();
    let txt = match &o {
        Outcome::Ok => "exit 0".to_string(),
        Outcome::Err(e) => format!("exit 1: {}", e.lines().next().unwrap_or("")),
        Outcome::Panic(e) => format!("panic: {}", e),
        o => format!("{:?}", o),
    };
    g.ev(id, &txt);
    let next = g.next_proc(id, true);
    g.current = next;
    sh.cv.notify_all();
}

/// Called from the allocator on the process's own thread; never returns.
pub(crate) fn die_out_of_memory(size: usize) -> ! {
    ACTIVE.with(|a| a.set(false));
    let ctx = CTX.with(|c| c.borrow().clone());
    if let Some((sh, id)) = ctx {
        let mut g = sh.m.lock().unwrap();
        g.procs[id].outcome = Some(Outcome::OutOfMemory(size));
        g.procs[id].state = PState::Done;
        g.ev(id, &format!("aborted: out of memory (asked for {} bytes)", size));
        let next = g.next_proc(id, true);
        g.current = next;
        sh.cv.notify_all();
        drop(g);
    }
    loop {
        std::thread::park();
    }
}

pub type Sys = Result<i64, i32>;

/// What a system call handler may do to the world.
impl Inner {
    fn fault(&mut self, id: usize, rate: u64, name: &'static str, hard: bool) -> bool {
        self.fault_on(id, rate, name, hard, "")
    }
    /// Hard faults are remembered with what they hit ("eio_write /work/out").
    fn fault_on(&mut self, id: usize, rate: u64, name: &'static str, hard: bool, on: &str) -> bool {
        if rate == 0 {
            return false;
        }
        if self.tape.chance(rate, 1024) {
            self.stats.hit(name);
            if hard {
                self.procs[id].hard_faults.push(format!("{} {}", name, on).trim_end().to_string());
            } else {
                self.procs[id].soft_faults += 1;
            }
            true
        } else {
            false
        }
    }
    pub(crate) fn open(&mut self, id: usize, path: &str, flags: i32) -> Sys {
        let p = norm(path);
        let acc = flags & libc::O_ACCMODE;
        let write = acc == libc::O_WRONLY || acc == libc::O_RDWR;
        let read = acc == libc::O_RDONLY || acc == libc::O_RDWR;
        if self.fault(id, self.cfg.eintr, "eintr_open", false) {
            return Err(libc::EINTR);
        }
        if self.fault_on(id, self.cfg.open_fail, if write { "open_fail_write" } else { "open_fail" }, true, &p) {
            return Err(if self.tape.choose(2) == 0 { libc::EACCES } else { libc::EMFILE });
        }
        if p == "/dev/urandom" || p == "/dev/random" {
            return Ok(self.mkfd(id, INO_URANDOM, &p, false, read, false, false));
        }
        if self.dirs.contains(&p) {
            if write {
                return Err(libc::EISDIR);
            }
            return Ok(self.mkfd(id, usize::MAX - 1, &p, false, false, false, true));
        }
        let ino = match self.files.get(&p) {
            Some(&i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                i
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return Err(libc::ENOENT);
                }
                if !self.dirs.contains(&parent(&p)) {
                    return Err(libc::ENOENT);
                }
                let i = self.inodes.len();
                self.inodes.push(vec![]);
                self.files.insert(p.clone(), i);
                self.touch(i);
                i
            }
        };
        if read && self.bad.get(&ino) == Some(&None) {
            self.stats.hit("no_permission");
            return Err(libc::EACCES);
        }
        if flags & libc::O_TRUNC != 0 && write {
            self.inodes[ino].clear();
            self.touch(ino);
        }
        self.procs[id].opened.push((p.clone(), write));
        Ok(self.mkfd(id, ino, &p, flags & libc::O_APPEND != 0, read, write, false))
    }
    #[allow(clippy::too_many_arguments)]
    fn mkfd(&mut self, id: usize, ino: usize, path: &str, append: bool, read: bool, write: bool, dir: bool) -> i64 {
        let pr = &mut self.procs[id];
        let fd = pr.next_fd;
        pr.next_fd += 1;
        pr.fds.insert(fd, OpenFile { ino, path: path.into(), pos: 0, append, read, write, dir });
        fd as i64
    }
    pub(crate) fn read(&mut self, id: usize, fd: i32, buf: &mut [u8], at: Option<u64>) -> Sys {
        let (ino, pos, rd, dir) = match self.procs[id].fds.get(&fd) {
            Some(f) => (f.ino, at.unwrap_or(f.pos), f.read, f.dir),
            None => return Err(libc::EBADF),
        };
        if dir {
            return Err(libc::EISDIR);
        }
        if !rd {
            return Err(libc::EBADF);
        }
        if ino == INO_URANDOM {
            return self.entropy(id, buf, false);
        }
        if self.fault(id, self.cfg.eintr, "eintr_read", false) {
            return Err(libc::EINTR);
        }
        if self.fault(id, self.cfg.eio_read, "eio_read", true) {
            return Err(libc::EIO);
        }
        let pipe = self.pipes.get(&ino).copied();
        if pipe.is_some() && at.is_some() {
            return Err(libc::ESPIPE);
        }
        let pos = pipe.unwrap_or(pos);
        let len = self.inodes[ino].len() as u64;
        let mut avail = len.saturating_sub(pos).min(buf.len() as u64);
        if let (Some(Some(from)), 1..) = (self.bad.get(&ino), avail) {
            if pos >= *from {
                self.stats.hit("bad_sector");
                return Err(libc::EIO);
            }
            avail = avail.min(from - pos);
        }
        let mut n = if pipe.is_some() { avail.min(65536) } else { avail };
        if n > 1 && self.fault(id, self.cfg.short, "short_read", false) {
            n = match self.tape.choose(3) {
                0 => n / 2,
                1 => 1,
                _ => n - 1,
            }
            .max(1);
        }
        let s = pos.min(len) as usize;
        buf[..n as usize].copy_from_slice(&self.inodes[ino][s..s + n as usize]);
        self.procs[id].bytes_read += n;
        if let Some(p) = self.pipes.get_mut(&ino) {
            *p += n;
            self.stats.hit("pipe_read");
        } else if at.is_none() {
            self.procs[id].fds.get_mut(&fd).unwrap().pos += n;
        }
        Ok(n as i64)
    }
    pub(crate) fn write(&mut self, id: usize, fd: i32, buf: &[u8], at: Option<u64>, crashing: bool) -> Sys {
        let (ino, wr) = match self.procs[id].fds.get(&fd) {
            Some(f) => (f.ino, f.write),
            None => return Err(libc::EBADF),
        };
        if !wr {
            return Err(libc::EBADF);
        }
        if !crashing {
            if self.fault(id, self.cfg.eintr, "eintr_write", false) {
                return Err(libc::EINTR);
            }
            let path = self.procs[id].fds[&fd].path.clone();
            if self.fault_on(id, self.cfg.eio_write, "eio_write", true, &path) {
                return Err(libc::EIO);
            }
            if self.fault_on(id, self.cfg.enospc, "enospc", true, &path) {
                self.capacity = Some(self.written);
            }
        }
        let mut n = buf.len() as u64;
        if crashing {
            n = self.tape.choose(n + 1);
        } else if n > 1 && self.fault(id, self.cfg.short, "short_write", false) {
            n = match self.tape.choose(3) {
                0 => n / 2,
                1 => 1,
                _ => n - 1,
            }
            .max(1);
        }
        if let Some(cap) = self.capacity {
            let left = cap.saturating_sub(self.written);
            if left == 0 && n > 0 {
                self.procs[id].hard_faults.push("enospc".into());
                return Err(libc::ENOSPC);
            }
            n = n.min(left);
        }
        let f = self.procs[id].fds.get_mut(&fd).unwrap();
        let data = &mut self.inodes[ino];
        let pos = if f.append { data.len() } else { at.unwrap_or(f.pos) as usize };
        if data.len() < pos {
            data.resize(pos, 0);
        }
        let end = pos + n as usize;
        if data.len() < end {
            data.resize(end, 0);
        }
        data[pos..end].copy_from_slice(&buf[..n as usize]);
        if at.is_none() {
            f.pos = end as u64;
        }
        self.written += n;
        self.touch(ino);
        Ok(n as i64)
    }
    pub(crate) fn lseek(&mut self, id: usize, fd: i32, off: i64, whence: i32) -> Sys {
        let (ino, pos) = match self.procs[id].fds.get(&fd) {
            Some(f) => (f.ino, f.pos),
            None => return Err(libc::EBADF),
        };
        if ino >= usize::MAX - 1 {
            return Ok(0);
        }
        if self.pipes.contains_key(&ino) {
            return Err(libc::ESPIPE);
        }
        let base = match whence {
            libc::SEEK_SET => 0i128,
            libc::SEEK_CUR => pos as i128,
            libc::SEEK_END => self.inodes[ino].len() as i128,
            _ => return Err(libc::EINVAL),
        };
        let np = base + off as i128;
        if np < 0 || np > i64::MAX as i128 {
            return Err(libc::EINVAL);
        }
        self.procs[id].fds.get_mut(&fd).unwrap().pos = np as u64;
        Ok(np as i64)
    }
    pub(crate) fn close(&mut self, id: usize, fd: i32) -> Sys {
        match self.procs[id].fds.remove(&fd) {
            Some(_) => Ok(0),
            None => Err(libc::EBADF),
        }
    }
    pub(crate) fn dup(&mut self, id: usize, fd: i32) -> Sys {
        let Some(f) = self.procs[id].fds.get(&fd) else { return Err(libc::EBADF) };
        let (a, b, c, d, e, g, pos) = (f.ino, f.path.clone(), f.append, f.read, f.write, f.dir, f.pos);
        let n = self.mkfd(id, a, &b, c, d, e, g);
        self.procs[id].fds.get_mut(&(n as i32)).unwrap().pos = pos;
        Ok(n)
    }
    fn touch(&mut self, ino: usize) {
        let t = if self.cfg.frozen_clock { 1_700_000_000_000_000_000 } else { self.clock_ns };
        self.mtimes.insert(ino, t - t % self.cfg.coarse_time.max(1));
    }
    /// (mode, size, ino, time of the last change)
    fn file_stat(&self, i: usize) -> Stat {
        let (mode, len) = if self.pipes.contains_key(&i) { (libc::S_IFIFO | 0o644, 0) } else { (libc::S_IFREG | 0o644, self.inodes[i].len() as u64) };
        (mode, len, i as u64 + 10, self.mtimes.get(&i).copied().unwrap_or(1_600_000_000_000_000_000))
    }
    pub(crate) fn stat_fd(&mut self, id: usize, fd: i32) -> Result<Stat, i32> {
        match self.procs[id].fds.get(&fd) {
            Some(f) if f.dir => Ok((libc::S_IFDIR | 0o755, 0, 1, 0)),
            Some(f) if f.ino >= usize::MAX - 1 => Ok((libc::S_IFCHR | 0o644, 0, 2, 0)),
            Some(f) => Ok(self.file_stat(f.ino)),
            None => Err(libc::EBADF),
        }
    }
    pub(crate) fn stat_path(&mut self, path: &str) -> Result<Stat, i32> {
        let p = norm(path);
        if self.dirs.contains(&p) {
            return Ok((libc::S_IFDIR | 0o755, 0, 1, 0));
        }
        match self.files.get(&p) {
            Some(&i) => Ok(self.file_stat(i)),
            None => Err(libc::ENOENT),
        }
    }
    pub(crate) fn ftruncate(&mut self, id: usize, fd: i32, len: u64) -> Sys {
        match self.procs[id].fds.get(&fd) {
            Some(f) if f.write => {
                let i = f.ino;
                self.inodes[i].resize(len as usize, 0);
                self.touch(i);
                Ok(0)
            }
            _ => Err(libc::EBADF),
        }
    }
    pub(crate) fn rename(&mut self, id: usize, a: &str, b: &str) -> Sys {
        if self.fault(id, self.cfg.eio_write, "eio_rename", true) {
            return Err(libc::EIO);
        }
        let (a, b) = (norm(a), norm(b));
        if !self.dirs.contains(&parent(&b)) {
            return Err(libc::ENOENT);
        }
        if self.dirs.contains(&b) {
            return Err(libc::EISDIR);
        }
        match self.files.remove(&a) {
            Some(i) => {
                self.files.insert(b, i);
                Ok(0)
            }
            None => Err(libc::ENOENT),
        }
    }
    pub(crate) fn unlink(&mut self, _id: usize, a: &str) -> Sys {
        match self.files.remove(&norm(a)) {
            Some(_) => Ok(0),
            None => Err(libc::ENOENT),
        }
    }
    pub(crate) fn mkdir(&mut self, a: &str) -> Sys {
        let p = norm(a);
        if self.dirs.contains(&p) || self.files.contains_key(&p) {
            return Err(libc::EEXIST);
        }
        if !self.dirs.contains(&parent(&p)) {
            return Err(libc::ENOENT);
        }
        self.dirs.insert(p);
        Ok(0)
    }
    pub(crate) fn entropy(&mut self, id: usize, buf: &mut [u8], insecure: bool) -> Sys {
        if insecure {
            // hash-map seeds: from a stream of their own, never faulted
            self.procs[id].hash_entropy.fill(buf);
            return Ok(buf.len() as i64);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.fault(id, self.cfg.eintr, "eintr_entropy", false) {
            return Err(libc::EINTR);
        }
        if self.fault(id, self.cfg.entropy_fail, "entropy_fail", true) {
            self.procs[id].entropy_failed = true;
            return Err(libc::EIO);
        }
        let mut n = buf.len();
        if n > 1 && self.fault(id, self.cfg.entropy_short, "entropy_short", false) {
            n = 1 + self.tape.choose(n as u64 - 1) as usize;
        }
        let bias = self.cfg.entropy_bias;
        let flip = self.cfg.entropy_flip;
        let p = &mut self.procs[id];
        p.entropy.fill(&mut buf[..n]);
        match bias {
            1 => buf[..n].fill(0xff),
            2 => buf[..n].fill(0),
            3 => {
                // low 8 bytes near the wrap of a 64-bit counter
                for (i, b) in buf[..n].iter_mut().enumerate() {
                    if i >= 8 {
                        *b = if i % 16 == 15 { *b } else { 0xff };
                    }
                }
            }
            _ => {}
        }
        if let Some(at) = flip {
            if at >= p.entropy_bytes && at < p.entropy_bytes + n as u64 {
                buf[(at - p.entropy_bytes) as usize] ^= 0x10;
            }
        }
        p.entropy_bytes += n as u64;
        if p.entropy_log.len() < 64 {
            p.entropy_log.push(buf[..n].to_vec());
        }
        Ok(n as i64)
    }
    pub(crate) fn out(&mut self, id: usize, fd: i32, b: &[u8]) {
        if self.procs[id].ghost {
            return;
        }
        let v = if fd == 1 { &mut self.procs[id].stdout } else { &mut self.procs[id].stderr };
        if v.len() < 8 << 20 {
            v.extend_from_slice(b);
        }
    }
}

pub(crate) enum Gate {
    Go,
    /// The process has crashed: nothing it does any more has an effect.
    Ghost,
    /// It crashes in this very call; a write may still be torn.
    CrashNow,
}

/// The calling process waits for a lock another one holds: let one of the others run, then look
/// again. None: not a simulated process.
pub(crate) fn blocked(timeout_ns: Option<u64>) -> Option<()> {
    if !ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
        return None;
    }
    let (sh, id) = CTX.with(|c| c.borrow().clone())?;
    ACTIVE.with(|a| a.set(false));
    let was = crate::alloc::pause();
    {
        let mut g = sh.m.lock().unwrap();
        g.stats.switches += 1;
        g.clock_ns += timeout_ns.unwrap_or(1000);
        g.stats.sim_ns += timeout_ns.unwrap_or(1000);
        let others: Vec<usize> = (0..g.procs.len()).filter(|&i| i != id && g.procs[i].state == PState::Runnable).collect();
        g.procs[id].steps += if others.is_empty() { 1000 } else { 10 };
        if g.procs[id].steps > g.step_limit && !g.procs[id].ghost {
            // waits for a lock nobody gives back
            g.procs[id].outcome = Some(Outcome::Hang);
            g.procs[id].state = PState::Done;
            g.procs[id].ghost = true;
            g.ev(id, "hang: blocked for ever");
            let next = g.next_proc(id, true);
            g.current = next;
            sh.cv.notify_all();
            drop(g);
            loop {
                std::thread::park();
            }
        }
        if !others.is_empty() {
            let i = g.tape.choose(others.len() as u64) as usize;
            g.sched_hash = fnv(g.sched_hash, &[id as u8, b'w']);
            g.current = others[i];
            sh.cv.notify_all();
            while g.current != id {
                g = sh.cv.wait(g).unwrap();
            }
        }
    }
    crate::alloc::resume(was);
    ACTIVE.with(|a| a.set(true));
    Some(())
}

/// The calling process allocates memory, and another one gets its turn.
pub(crate) fn alloc_point() {
    if !ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
        return;
    }
    let Some((sh, id)) = CTX.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten() else { return };
    ACTIVE.with(|a| a.set(false));
    let was = crate::alloc::pause();
    let n = {
        let mut g = sh.m.lock().unwrap();
        let others: Vec<usize> = (0..g.procs.len()).filter(|&i| i != id && g.procs[i].state == PState::Runnable).collect();
        if g.procs[id].ghost || others.is_empty() {
            0
        } else {
            g.stats.alloc_points += 1;
            g.stats.hit("alloc_preempt");
            g.stats.switches += 1;
            let i = g.tape.choose(others.len() as u64) as usize;
            g.sched_hash = fnv(g.sched_hash, &[id as u8, 0xaa]);
            g.ev(id, "preempted at an allocation");
            g.current = others[i];
            sh.cv.notify_all();
            while g.current != id {
                g = sh.cv.wait(g).unwrap();
            }
            g.gap()
        }
    };
    drop(sh);
    crate::alloc::next_point(n);
    crate::alloc::resume(was);
    ACTIVE.with(|a| a.set(true));
}

/// Run one simulated system call of the calling process. None: not a simulated process.
pub(crate) fn syscall<R>(
    kind: &'static str,
    detail: impl FnOnce() -> String,
    yields: bool,
    f: impl FnOnce(&mut Inner, usize, Gate) -> R,
) -> Option<R> {
    let active = ACTIVE.try_with(|a| a.get()).unwrap_or(false);
    if !active {
        return None;
    }
    let Some((sh, id)) = CTX.with(|c| c.borrow().clone()) else { return None };
    ACTIVE.with(|a| a.set(false));
    let was = crate::alloc::pause();
    let r = {
        let mut g = sh.m.lock().unwrap();
        let mut gate = Gate::Go;
        if g.procs[id].ghost {
            gate = Gate::Ghost;
            g.procs[id].steps += 1;
        } else if yields {
            g.procs[id].steps += 1;
            g.stats.syscalls += 1;
            let lat = 3_000 + (g.stats.syscalls % 7) * 900;
            g.clock_ns += lat;
            g.stats.sim_ns += lat;
            let stall = g.cfg.stall;
            if stall > 0 && g.tape.chance(stall, 1024) {
                let d = 1_000_000 * g.tape.range(1, 5000);
                g.clock_ns += d;
                g.stats.sim_ns += d;
                g.stats.hit("stall");
                g.ev(id, "stalled");
            }
            let next = g.next_proc(id, false);
            if next != id {
                g.stats.switches += 1;
                g.current = next;
                sh.cv.notify_all();
                while g.current != id {
                    g = sh.cv.wait(g).unwrap();
                }
            }
            g.sched_hash = fnv(g.sched_hash, &[id as u8]);
            g.sched_hash = fnv(g.sched_hash, kind.as_bytes());
            let step = g.procs[id].steps;
            if g.procs[id].crash_at == Some(step) {
                g.stats.hit("crash");
                g.ev(id, &format!("crashes in {}", kind));
                g.procs[id].outcome = Some(Outcome::Crashed);
                g.procs[id].ghost = true;
                gate = Gate::CrashNow;
            } else if step > g.step_limit {
                g.procs[id].outcome = Some(Outcome::Hang);
                g.procs[id].ghost = true;
                g.ev(id, "hang: system-call budget exhausted");
                gate = Gate::Ghost;
            }
        }
        let d = detail();
        if yields && !matches!(gate, Gate::Ghost) {
            g.ev(id, &format!("{} {}", kind, d));
        }
        let r = f(&mut g, id, gate);
        if let Some(mut ob) = g.observer.take() {
            if g.observed.is_none() {
                let o = ob(&g.files, &g.inodes);
                g.observed = o;
            }
            g.observer = Some(ob);
        }
        r
    };
    crate::alloc::resume(was);
    ACTIVE.with(|a| a.set(true));
    Some(r)
}
