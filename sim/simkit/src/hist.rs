//! Histories of one process: several threads write, replace, remove and read files; each reading must give what the
//! file holds at that moment, whatever was read before and whatever the other threads do meanwhile.
use crate::*;
use std::sync::{Arc, Mutex};

pub struct Reader<T, X> {
    pub write: fn(&T, &str) -> Result<(), String>,
    /// The item is the one the file should hold (or any, if there is no file).
    pub read: fn(&T, &str) -> Result<X, String>,
    pub differs: fn(&X, &T) -> Option<String>,
}
#[derive(Clone, Debug)]
enum Op {
    Write(usize),
    Remove,
    Read,
    ReadShared(usize),
}
/// What a thread saw: its own item (None: no file) and the result.
type Seen<X> = (usize, usize, Option<usize>, Result<X, String>);

pub fn history<T, X>(c: &mut Ctx, items: Vec<T>, size: usize, r: Reader<T, X>) -> R
where
    T: Send + Sync + 'static,
    X: Send + 'static,
{
    const MEM: usize = 1 << 30;
    let n = items.len();
    let threads = 1 + c.choose(3) as usize;
    let mut cfg = c.faults(true, false);
    if size > 8000 {
        cfg.short = cfg.short.min(100);
    }
    let plans: Vec<Vec<Op>> = (0..threads)
        .map(|_| {
            (0..1 + c.choose(6))
                .map(|j| match c.choose(8) {
                    _ if j == 0 && c.chance(7, 10) => Op::Write(c.choose(n as u64) as usize),
                    0..=2 => Op::Write(c.choose(n as u64) as usize),
                    3 => Op::Remove,
                    4 => Op::ReadShared(c.choose(n as u64) as usize),
                    _ => Op::Read,
                })
                .collect()
        })
        .collect();
    c.log(format!("{:?}", plans));
    c.nontrivial = threads > 1 || plans[0].len() > 2;
    let items = Arc::new(items);
    let seen: Arc<Mutex<Vec<Seen<X>>>> = Arc::new(Mutex::new(vec![]));
    let mut w = c.world(cfg);
    let (it, wr) = (items.clone(), r.write);
    w.spawn("prepare", MEM, None, move || {
        for k in 0..n {
            wr(&it[k], &format!("/work/s{}", k))?;
        }
        Ok(())
    });
    c.run(&mut w);
    c.lend(&mut w);
    for (i, plan) in plans.into_iter().enumerate() {
        let (it, seen, wr, rd) = (items.clone(), seen.clone(), r.write, r.read);
        w.spawn(&format!("thread{}", i), MEM, None, move || {
            let path = format!("/work/t{}", i);
            let mut now = None;
            for (j, op) in plan.into_iter().enumerate() {
                let x = match op {
                    Op::Write(k) => {
                        wr(&it[k], &path)?;
                        now = Some(k);
                        continue;
                    }
                    Op::Remove => {
                        if now.take().is_some() {
                            std::fs::remove_file(&path).map_err(|e| e.to_string())?;
                        }
                        continue;
                    }
                    Op::Read => (i, j, now, rd(&it[now.unwrap_or(0)], &path)),
                    Op::ReadShared(k) => (i, j, Some(k), rd(&it[k], &format!("/work/s{}", k))),
                };
                seen.lock().unwrap().push(x);
            }
            Ok(())
        });
    }
    c.run(&mut w);
    let bad = w.with(|g| g.procs.iter().find(|p| p.outcome != Some(Outcome::Ok)).map(|p| format!("{} ended with {:?}", p.name, p.outcome)));
    ensure!(bad.is_none(), "thread_crash", "{}", bad.unwrap_or_default());
    let mut seen = std::mem::take(&mut *seen.lock().unwrap());
    seen.sort_by_key(|x| (x.0, x.1));
    for (i, j, k, x) in seen {
        c.evals += 1;
        match (k, x) {
            (None, Ok(_)) => return viol("missing_accepted", format!("thread {} step {}: reading a file that is not there succeeds", i, j)),
            (None, Err(_)) => c.probe("missing"),
            (Some(k), Ok(x)) => {
                c.probe("read");
                if let Some(d) = (r.differs)(&x, &items[k]) {
                    return viol("read_in_company", format!("thread {} step {}: the file holds item {} but is read differently: {}", i, j, k, d));
                }
            }
            (Some(k), Err(e)) => return viol("refused_in_company", format!("thread {} step {}: item {} is refused: {}", i, j, k, e)),
        }
    }
    Ok(())
}
