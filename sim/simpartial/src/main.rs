//! Simulated executions of the parts of zkenc that compile without arkworks:
//! the AES helpers, the .r1cs reader, the symbol-file parser, the JSON input loader and the saved
//! test-case formats. All of it is the real code from /repo; the operating system is simulated.
#[global_allocator]
static A: simos::alloc::SimAlloc = simos::alloc::SimAlloc;

mod crypt;
mod files;
mod r1cs;
mod saved;
mod sym;

use simkit::Component;
use std::sync::{Arc, Mutex};

/// A place where a simulated process leaves its results for the checker.
pub struct Slot<T>(Arc<Mutex<Vec<T>>>);
impl<T> Clone for Slot<T> {
    fn clone(&self) -> Self {
        Slot(self.0.clone())
    }
}
impl<T> Slot<T> {
    pub fn new() -> Self {
        Slot(Arc::new(Mutex::new(vec![])))
    }
    pub fn put(&self, v: T) {
        self.0.lock().unwrap().push(v)
    }
    pub fn take(&self) -> Vec<T> {
        std::mem::take(&mut *self.0.lock().unwrap())
    }
}

pub const MEM: usize = 1 << 30;

fn main() {
    r1cs::fixtures(); // read once, before the runs are forked
    simkit::main(
        "simpartial",
        &[
            Component { name: "aes_roundtrip", run: crypt::roundtrip, batch: None },
            Component { name: "aes_twins", run: crypt::twins, batch: None },
            Component { name: "aes_damage", run: crypt::damage, batch: None },
            Component { name: "aes_fresh", run: crypt::fresh, batch: Some(crypt::fresh_batch) },
            Component { name: "aes_entropy", run: crypt::entropy, batch: None },
            Component { name: "r1cs_disk", run: r1cs::disk, batch: None },
            Component { name: "r1cs_damaged", run: r1cs::damaged, batch: None },
            Component { name: "sym_parse", run: sym::parse, batch: None },
            Component { name: "saved_files", run: saved::saved, batch: None },
            Component { name: "saved_crash", run: saved::crash, batch: None },
            Component { name: "json_inputs", run: files::inputs, batch: None },
            Component { name: "r1cs_threads", run: r1cs::threads, batch: None },
            Component { name: "sym_threads", run: sym::threads, batch: None },
            Component { name: "saved_threads", run: saved::threads, batch: None },
            Component { name: "json_threads", run: files::threads, batch: None },
            Component { name: "circuit_load", run: files::load, batch: None },
        ],
    )
}
