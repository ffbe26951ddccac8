"""Which engine components decide which property, and how many runs each tier gets."""
CARGO = ["cargo", "build", "--release", "--offline", "--quiet"]
WASM = ["python3", "tools/wasm_build.py"]
ENGINES = {
    "simpartial": {
        "build": [CARGO + ["--manifest-path", "sim/Cargo.toml", "-p", "simpartial"]],
        "cmd": [".build/target/release/simpartial"],
    },
    "simjs": {
        "build": [["node", "simjs/build.mjs"]],
        "cmd": ["node", "simjs/main.mjs"],
    },
    "simfull": {
        "build": [CARGO + ["--manifest-path", "simfull/Cargo.toml", "-p", "simfull"]],
        "cmd": [".build/target/release/simfull"],
    },
    "simcross": {
        "build": [["node", "simjs/build.mjs"], CARGO + ["--manifest-path", "simfull/Cargo.toml", "-p", "simfull"], WASM],
        "cmd": ["node", "simjs/main.mjs"],
    },
    "simwasm": {
        "build": [["node", "simjs/build.mjs"], WASM],
        "cmd": ["node", "simjs/main.mjs"],
    },
}


def c(name, engine, quick, thorough, tq=60, tt=600):
    return {"name": name, "engine": engine, "quick": (quick, tq), "thorough": (thorough, tt)}


OS_STUB = "operating system below libc (file system, pipes, scheduler, clock, pid, getrandom, memory limit): simulated by sim/simos"
ARK_STUB = "arkworks (ark-ec, ark-ff, ark-poly, ark-relations, ark-serialize, ark-bn254): stand-ins in simfull/stubs; field arithmetic is real BN254, group elements are their discrete logarithms"
B3_STUB = "blake3: reimplemented in simfull/stubs, same function"
CLAP_STUB = "clap is real; only its process exit is routed through the simulator"
BG_STUB = "wasm-bindgen: plain Rust stand-ins for JsValue and the attribute; the bindings run as native code in simfull's components and as wasm32 code in the others"
JS_STUB = "JavaScript engine's event loop, timers, clock, randomness, WebCrypto, WebAssembly compile/instantiate and module loading: simulated by simjs/sim.mjs on seeded order; AES-GCM itself is Node's"
KEM_STUB = "the WASM KEM: a book-keeping stand-in (simjs/gen.mjs StubKem) with the interface and refusals of the real one"
CIRC_STUB = "circom circuit WASM: programs interpreted by the simulator behind the real WebAssembly interface of circom"
OS_ASSUME = "zkenc reaches files, randomness, clock and memory only through the libc calls that sim/simos interposes"
HARD_ASSUME = "discrete logarithms and pairing inversion are hard: the stand-in groups answer only the group operations"
JS_ASSUME = "zkenc-js reaches asynchrony, randomness, time and WebAssembly only through the globals and imports that simjs/sim.mjs replaces"

CLI_REAL = ["packages/zkenc-cli/src/*.rs (the whole zkenc program, main included)", "packages/zkenc-core/src/*.rs", "aes-gcm, ctr, anyhow, serde_json, clap, rand, getrandom"]
PART_REAL = ["packages/zkenc-cli/src/{circom,crypto,r1cs,serializable,sym_parser}.rs", "packages/zkenc-core/src/serializable.rs", "aes-gcm, ctr, serde_json, bincode, rand, getrandom"]
WASM_REAL = ["packages/zkenc-js/src/lib.rs (WASM bindings)", "packages/zkenc-core/src/*.rs"]
JS_REAL = ["packages/zkenc-js/src/{index,zkenc,crypto,witness,witness_calculator,sym_parser}.ts"]
CLI_STUBS = [OS_STUB, ARK_STUB, B3_STUB, CLAP_STUB]
WASM_STUBS = [ARK_STUB, B3_STUB, BG_STUB]

RULE = ("each run draws, from its seed, a configuration (circuits, files, messages, number of processes or calls, fault kinds and rates) and then "
        "every scheduling decision and fault while it executes. One evaluation is one judged command, call, file or reading; a run is nontrivial "
        "when %s; distinct_nontrivial counts nontrivial runs by the hash of their complete event log")


def p(components, nontrivial, real, stubs, assumptions):
    uniq = lambda l: list(dict.fromkeys(l))
    return {"components": components, "rule": RULE % nontrivial, "real": uniq(real), "stubs": uniq(stubs), "assumptions": uniq(assumptions)}


PLAN = {
    "C01": p([c("cli_roundtrip", "simfull", 40000, 800000, 120, 3000)],
             "at least one system call of its processes was split, interrupted or retried",
             CLI_REAL, CLI_STUBS, [OS_ASSUME]),
    "C02": p([c("cross", "simcross", 24000, 300000, 120, 3000), c("js_scale", "simjs", 200, 6000, 60, 900)],
             "more than one package or key circulated between the tools",
             CLI_REAL + WASM_REAL + JS_REAL, CLI_STUBS + WASM_STUBS + [JS_STUB, CIRC_STUB], [OS_ASSUME, JS_ASSUME]),
    "C03": p([c("aes_damage", "simpartial", 20000, 600000, 60, 1200), c("js_damage", "simjs", 20000, 400000, 60, 1200), c("cli_damage", "simfull", 30000, 600000, 90, 1800)],
             "a damaged package or message was given to a decryption",
             PART_REAL + CLI_REAL + JS_REAL, CLI_STUBS + [JS_STUB, KEM_STUB, CIRC_STUB], [OS_ASSUME, JS_ASSUME, "AES-256-GCM cannot be forged"]),
    "C04": p([c("cli_faults", "simfull", 60000, 1200000, 120, 3000)],
             "a command met a hard fault (I/O error, full disk, failing random source) or a malformed input",
             CLI_REAL, CLI_STUBS, [OS_ASSUME]),
    "C05": p([c("aes_fresh", "simpartial", 4000, 80000, 60, 1200), c("aes_entropy", "simpartial", 12000, 200000, 60, 1200), c("js_fresh", "simjs", 8000, 100000, 60, 1200),
              c("js_entropy", "simjs", 6000, 80000, 60, 1200), c("cli_fresh", "simfull", 12000, 200000, 60, 1200), c("wasm_fresh", "simfull", 20000, 300000, 60, 1200), c("core_fresh", "simfull", 12000, 200000, 60, 1200),
              c("encap_entropy", "simfull", 6000, 100000, 60, 1200)],
             "several ciphertexts or keys were compared, or the random source failed",
             PART_REAL + CLI_REAL + WASM_REAL + JS_REAL, CLI_STUBS + WASM_STUBS + [JS_STUB, KEM_STUB], [OS_ASSUME, JS_ASSUME]),
    "C06": p([c("cli_witness", "simfull", 30000, 500000, 90, 1800), c("wasm_witness", "simfull", 40000, 800000, 60, 1200), c("js_entitled", "simcross", 20000, 250000, 90, 1800), c("wasm_history", "simfull", 8000, 200000, 60, 1200), c("lib_history", "simfull", 8000, 200000, 60, 1200)],
             "a witness that is not entitled was tried, or one under partial public inputs",
             CLI_REAL + WASM_REAL + JS_REAL, CLI_STUBS + WASM_STUBS + [JS_STUB, CIRC_STUB], [OS_ASSUME, JS_ASSUME, HARD_ASSUME]),
    "C07": p([c("js_secrets", "simjs", 12000, 200000, 90, 1800), c("js_twins", "simjs", 12000, 200000, 60, 1200), c("cli_secrets", "simfull", 30000, 500000, 90, 1800), c("cli_twins", "simfull", 12000, 300000, 60, 1200), c("aes_twins", "simpartial", 30000, 500000, 45, 900)],
             "an error was provoked (fault, damaged input, refusal), or several calls were searched together",
             CLI_REAL + WASM_REAL + JS_REAL, CLI_STUBS + WASM_STUBS + [JS_STUB, KEM_STUB, CIRC_STUB], [OS_ASSUME, JS_ASSUME]),
    "C08": p([c("eavesdrop", "simfull", 15000, 200000, 60, 1800)],
             "the eavesdropper tried its operations (every run)",
             WASM_REAL + CLI_REAL, CLI_STUBS + WASM_STUBS, [OS_ASSUME, HARD_ASSUME, "the eavesdropper combines elements by a fixed list of group operations and pairings (simfull/engine/src/eaves.rs)"]),
    "C09": p([c("r1cs_disk", "simpartial", 12000, 200000, 60, 1200), c("r1cs_damaged", "simpartial", 60000, 1000000, 60, 1200), c("r1cs_wasm", "simfull", 40000, 800000, 60, 1200), c("r1cs_wasm32", "simwasm", 12000, 300000, 60, 1200), c("r1cs_threads", "simpartial", 12000, 250000, 60, 1200), c("wasm_history", "simfull", 8000, 200000, 60, 1200), c("lib_history", "simfull", 8000, 200000, 60, 1200)],
             "a read was split, interrupted or failed, or the file was damaged",
             PART_REAL + WASM_REAL, [OS_STUB] + WASM_STUBS, [OS_ASSUME]),
    "C10": p([c("wtns_disk", "simfull", 80000, 1200000, 60, 1200), c("wtns_wasm", "simfull", 60000, 1000000, 60, 1200), c("wtns_wasm32", "simwasm", 12000, 300000, 60, 1200), c("wtns_threads", "simfull", 12000, 250000, 60, 1200), c("wasm_history", "simfull", 6000, 150000, 60, 1200), c("lib_history", "simfull", 6000, 150000, 60, 1200)],
             "a read was split, interrupted or failed, or the file was damaged",
             CLI_REAL + WASM_REAL, CLI_STUBS + WASM_STUBS, [OS_ASSUME]),
    "C11": p([c("sym_parse", "simpartial", 20000, 400000, 60, 1200), c("sym_threads", "simpartial", 12000, 250000, 60, 1200), c("js_binding", "simjs", 16000, 300000, 60, 1200), c("cli_binding", "simfull", 30000, 500000, 60, 1200), c("cross", "simcross", 1600, 40000, 60, 900), c("js_scale", "simjs", 200, 6000, 60, 900)],
             "names were bound to wires by a generated symbol file (every run)",
             PART_REAL + CLI_REAL + WASM_REAL + JS_REAL, CLI_STUBS + WASM_STUBS + [JS_STUB, KEM_STUB, CIRC_STUB], [OS_ASSUME, JS_ASSUME]),
    "C12": p([c("saved_files", "simpartial", 12000, 200000, 60, 1200), c("saved_crash", "simpartial", 12000, 200000, 60, 1200), c("saved_threads", "simpartial", 12000, 250000, 60, 1200)],
             "a save or load met a split, an interruption, an error or a crash",
             PART_REAL, [OS_STUB], [OS_ASSUME]),
    "C13": p([c("js_calls", "simjs", 25000, 500000, 90, 1800)],
             "two or more calls were in flight at once", JS_REAL, [JS_STUB, KEM_STUB, CIRC_STUB], [JS_ASSUME]),
    "C14": p([c("js_init", "simjs", 16000, 300000, 90, 1800)],
             "an initialisation failed or calls arrived while one was under way", JS_REAL, [JS_STUB, KEM_STUB, CIRC_STUB], [JS_ASSUME]),
    "C15": p([c("js_public", "simjs", 30000, 500000, 90, 1800), c("cross", "simcross", 1600, 40000, 60, 900), c("js_scale", "simjs", 200, 6000, 60, 900)],
             "the package embeds public inputs", JS_REAL + CLI_REAL + WASM_REAL, [JS_STUB, KEM_STUB] + CLI_STUBS + WASM_STUBS, [JS_ASSUME, OS_ASSUME]),
    "C16": p([c("js_witness", "simjs", 25000, 500000, 90, 1800), c("js_witness_real", "simjs", 6000, 100000, 90, 1800), c("js_scale", "simjs", 200, 6000, 60, 900)],
             "several calculations overlapped or one had to be refused", JS_REAL + ["the repository's compiled circuit programs (js_witness_real)"], [JS_STUB, CIRC_STUB + " (js_witness)"], [JS_ASSUME]),
    "C17": p([c("aes_roundtrip", "simpartial", 20000, 400000, 60, 1200), c("js_aes", "simjs", 20000, 400000, 60, 1200)],
             "a sealed message was opened again or compared with the reference (every completed run)", PART_REAL + JS_REAL, [OS_STUB, JS_STUB], [OS_ASSUME, JS_ASSUME]),
    "C18": p([c("json_inputs", "simpartial", 20000, 400000, 60, 1200), c("circuit_load", "simpartial", 12000, 200000, 60, 1200), c("json_threads", "simpartial", 12000, 250000, 60, 1200)],
             "reads were split, interrupted or failed, or the file was damaged", PART_REAL, [OS_STUB], [OS_ASSUME]),
    "C19": p([c("core_api", "simfull", 60000, 1500000, 60, 1800)],
             "a list other than the ciphertext's public inputs was verified (every run)",
             ["packages/zkenc-core/src/{algorithm,data_structures,r1cs_to_qap}.rs"], [OS_STUB, ARK_STUB, B3_STUB], [OS_ASSUME, HARD_ASSUME]),
    "C20": p([c("page", "simjs", 16000, 300000, 90, 1800)],
             "a message was encrypted or decrypted more than once, or two pages exchanged packages",
             ["docs/src/pages/playground.tsx", "docs/src/components/PlaygroundClient.tsx"] + JS_REAL,
             ["React (function components, hooks, deferred rendering), Docusaurus, @forfuns/sudoku", "browser: fetch, FileReader, Blob and object URLs, downloads", JS_STUB, KEM_STUB, CIRC_STUB],
             [JS_ASSUME, "React renders as its documentation says; the visitor waits until a chosen file is shown before choosing another for the same place"]),
}
NOT_CLAIMED = {}
