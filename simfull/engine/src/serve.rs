//! The zkenc program beside the simulated JavaScript processes, each command line in a simulated
//! world of its own, driven over two pipes by simjs. One line of JSON per
//! request and per answer; all nondeterminism comes from seeds in the request.
use crate::common::*;
use serde_json::{json, Value};
use simkit::*;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::os::fd::FromRawFd;

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    let v = |c: u8| (c as char).to_digit(16).expect("hex") as u8;
    s.as_bytes().chunks(2).map(|c| v(c[0]) << 4 | v(c[1])).collect()
}
fn num(r: &Value, k: &str) -> u64 {
    r[k].as_u64().unwrap_or(0)
}
fn world(r: &Value) -> World {
    let f = &r["faults"];
    let cfg = FaultCfg {
        short: num(f, "short"),
        eintr: num(f, "eintr"),
        eio_read: num(f, "eio_read"),
        eio_write: num(f, "eio_write"),
        open_fail: num(f, "open_fail"),
        enospc: num(f, "enospc"),
        entropy_short: num(f, "entropy_short"),
        ..Default::default()
    };
    World::new(Tape::seeded(num(r, "tape")), cfg, num(r, "seed"), false)
}
/// A command line of the zkenc program on the files given.
fn cli(r: &Value) -> Value {
    let mut w = world(r);
    let mut before = BTreeMap::new();
    for (p, d) in r["files"].as_object().expect("files") {
        let d = unhex(d.as_str().unwrap());
        before.insert(p.clone(), d.clone());
        w.with(|g| g.put(p, d));
    }
    let argv: Vec<String> = r["argv"].as_array().expect("argv").iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let id = spawn(&mut w, "zkenc", argv);
    w.run();
    let o = res(&w, id);
    let files: serde_json::Map<String, Value> =
        all_files(&w).into_iter().filter(|(p, d)| before.get(p) != Some(d)).map(|(p, d)| (p, Value::String(hex(&d)))).collect();
    json!({
        "ok": o.ok(), "clean": o.clean(), "outcome": format!("{:?}", o.outcome), "hard": o.hard, "soft": o.soft,
        "stdout": hex(&o.out), "stderr": hex(&o.raw_err), "files": files, "hash": format!("{:016x}", w.with(|g| g.trace_hash)),
    })
}
fn answer(out: i32, v: &Value) {
    let mut s = v.to_string();
    s.push('\n');
    let b = s.as_bytes();
    let mut at = 0;
    while at < b.len() {
        let n = unsafe { libc::write(out, b[at..].as_ptr() as *const libc::c_void, b.len() - at) };
        if n <= 0 {
            unsafe { libc::_exit(9) };
        }
        at += n as usize;
    }
}
struct Session {
    pid: i32,
    to: std::fs::File,
    ack: i32,
}
/// Fork a process that serves requests from a pipe, answers on `out` and acknowledges each.
fn session(out: i32) -> Session {
    unsafe {
        let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
        assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(a[1]);
            libc::close(b[0]);
            for line in BufReader::new(std::fs::File::from_raw_fd(a[0])).lines() {
                let r: Value = serde_json::from_str(&line.expect("line")).expect("json");
                answer(out, &cli(&r));
                libc::write(b[1], b"k".as_ptr() as *const libc::c_void, 1);
            }
            libc::_exit(0);
        }
        libc::close(a[0]);
        libc::close(b[1]);
        Session { pid, to: std::fs::File::from_raw_fd(a[1]), ack: b[0] }
    }
}
/// Hand a request over; false when the process died or hung instead of answering.
fn ask(s: &mut Session, line: &str) -> bool {
    if s.to.write_all(line.as_bytes()).and_then(|_| s.to.write_all(b"\n")).is_err() {
        return false;
    }
    unsafe {
        let mut p = libc::pollfd { fd: s.ack, events: libc::POLLIN, revents: 0 };
        let mut c = [0u8; 1];
        libc::poll(&mut p, 1, 60_000) > 0 && libc::read(s.ack, c.as_mut_ptr() as *mut libc::c_void, 1) == 1
    }
}
fn end(s: Session) {
    unsafe {
        libc::kill(s.pid, libc::SIGKILL);
        let mut st = 0;
        libc::waitpid(s.pid, &mut st, 0);
        libc::close(s.ack);
    }
}
pub fn main(args: &[String]) -> ! {
    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN) };
    let rd = std::fs::File::open(&args[0]).expect("requests");
    let wr = std::fs::OpenOptions::new().write(true).open(&args[1]).expect("answers");
    let out = std::os::fd::AsRawFd::as_raw_fd(&wr);
    for line in BufReader::new(rd).lines() {
        let Ok(line) = line else { break };
        let mut s = session(out); // every command line is a process of its own
        if !ask(&mut s, &line) {
            answer(out, &json!({ "ok": false, "clean": false, "trap": "the process died or hung", "outcome": "died", "files": {}, "hard": [], "soft": 0, "stdout": "", "stderr": "", "hash": "" }));
        }
        end(s);
    }
    std::process::exit(0)
}
