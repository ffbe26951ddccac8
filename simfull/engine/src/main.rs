//! Simulated executions of the whole zkenc command-line program and of the Rust half of the
//! JavaScript library (the WASM bindings), real code over stand-ins for arkworks, on a simulated
//! operating system.
#[global_allocator]
static A: simos::alloc::SimAlloc = simos::alloc::SimAlloc;
include!(concat!(env!("OUT_DIR"), "/exit.rs"));

mod bind;
mod cli;
mod common;
mod core;
mod eaves;
mod fresh;
mod secrets;
mod serve;
mod wasm;
mod witness;

use simkit::Component;

/// The BLAKE3 stand-in against the published test vectors (one chunk, several, keyed, derived).
fn blake3_vectors() {
    let input = |n: usize| (0..n).map(|i| (i % 251) as u8).collect::<Vec<u8>>();
    for (n, h) in [
        (0, "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262"),
        (1, "2d3adedff11b61f14c886e35afa036736dcd87a74d27b5c1510225d0f592e213"),
        (1024, "42214739f095a406f3fc83deb889744ac00df831c10daa55189b5d121c855af7"),
        (1025, "d00278ae47eb27b34faecf67b4fe263f82d5412916c1ffd97c8cb7fb814b8444"),
        (2048, "e776b6028c7cd22a4d0ba182a8bf62205d2ef576467e838ed6f2529b85fba24a"),
        (8192, "aae792484c8efe4f19e2ca7d371d8c467ffb10748d8a5a1ae579948f718a2a63"),
    ] {
        assert_eq!(blake3::hash(&input(n)).to_hex().to_string(), h, "BLAKE3 stand-in, {} bytes", n);
    }
    assert_eq!(
        blake3::keyed_hash(b"whats the Elvish word for friend", b"").to_hex().to_string(),
        "92b2b75604ed3c761f9d6f62392c8a9227ad0ea3f09573e783f1498a4ed60d26"
    );
    let k = blake3::derive_key("BLAKE3 2019-12-27 16:29:52 test vectors context", b"");
    assert_eq!(k[..4], [0x2c, 0xc3, 0x97, 0x83]);
}

fn main() {
    blake3_vectors();
    std::env::set_var("NO_COLOR", "1");
    std::env::set_var("RUST_BACKTRACE", "0");
    common::sudoku_files(); // read once, before the runs are forked
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|a| a == "serve").unwrap_or(false) {
        serve::main(&args[1..]);
    }
    simkit::main(
        "simfull",
        &[
            Component { name: "cli_roundtrip", run: cli::roundtrip, batch: None },
            Component { name: "cli_faults", run: cli::faults, batch: None },
            Component { name: "cli_damage", run: cli::damage, batch: None },
            Component { name: "cli_witness", run: witness::cli, batch: None },
            Component { name: "wasm_witness", run: witness::wasm, batch: None },
            Component { name: "cli_secrets", run: secrets::run, batch: None },
            Component { name: "cli_twins", run: secrets::twins, batch: None },
            Component { name: "cli_fresh", run: fresh::cli, batch: Some(fresh::batch) },
            Component { name: "wasm_fresh", run: fresh::wasm, batch: Some(fresh::batch) },
            Component { name: "core_fresh", run: fresh::core, batch: Some(fresh::batch) },
            Component { name: "encap_entropy", run: fresh::entropy, batch: None },
            Component { name: "cli_binding", run: bind::run, batch: None },
            Component { name: "wtns_disk", run: wasm::wtns_disk, batch: None },
            Component { name: "wtns_threads", run: wasm::wtns_threads, batch: None },
            Component { name: "wtns_wasm", run: wasm::wtns_wasm, batch: None },
            Component { name: "r1cs_wasm", run: wasm::r1cs_wasm, batch: None },
            Component { name: "wasm_history", run: wasm::wasm_history, batch: None },
            Component { name: "lib_history", run: wasm::lib_history, batch: None },
            Component { name: "core_api", run: core::run, batch: None },
            Component { name: "eavesdrop", run: eaves::run, batch: None },
        ],
    )
}
