#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the long texts stay readable)."""
import json
CLI = "packages/zkenc-cli/src/"
CORE = "packages/zkenc-core/src/"
JS = "packages/zkenc-js/src/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=list(state), mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "CLI round trip returns exactly the original key and message",
 "For every circuit whose prover holds at least one private wire, every complete assignment of its public inputs and every message (empty and multi-megabyte included), `zkenc encrypt` followed by `zkenc decrypt` with a satisfying witness for the same public inputs reproduces the message byte for byte, and `zkenc encap` followed by `zkenc decap` writes the identical 32-byte key. This holds for any interleaving with other zkenc processes working on other files, and however the operating system splits or interrupts reads and writes.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "all circuits (output/input/private wire counts, constraints, coefficients), public inputs, witnesses and messages; all interleavings of concurrent CLI processes at system-call granularity; all short reads/writes and interrupted calls",
 "The end-to-end tests use two circuits and one message with real I/O, cannot be built offline, and never see a short read, EINTR or another process.",
 [CLI+"commands.rs", CLI+"main.rs", CLI+"circuit.rs", CLI+"r1cs.rs", CLI+"witness.rs", CORE+"algorithm.rs", CORE+"r1cs_to_qap.rs", CORE+"data_structures.rs"],
 [("encrypt/decrypt/encap/decap commands", CLI+"commands.rs"), ("argument parsing", CLI+"main.rs"), ("witness KEM", CORE+"algorithm.rs encap/decap")],
 observe=["exit status and output files of zkenc encrypt/decrypt/encap/decap"])

prop("C02", "CLI, JavaScript library and documented package format interoperate",
 "A package or key ciphertext produced by either tool (CLI or JavaScript library, public inputs embedded or not) is decrypted by the other tool and by an independent peer implementing only the documented layout, to exactly the original message and key; packages the peer writes in that layout are read by both tools. The layout is: 1 flag byte (1 = public inputs embedded, 0 = not), 4-byte big-endian length plus key ciphertext, then when flagged 4-byte big-endian length plus the public-input JSON, then 12-byte nonce, AES-256-GCM ciphertext and 16-byte tag.",
 ["inputs", "histories", "configurations"],
 "all message sizes, circuits, public inputs and option combinations, and all chains of producer/consumer pairs among CLI, JavaScript and reference peer in a mixed fleet exchanging files",
 "No test runs both tools on the same artefact; each side only round-trips with itself, so a symmetric format change passes.",
 [CLI+"commands.rs", CLI+"crypto.rs", JS+"zkenc.ts", JS+"crypto.ts", JS+"lib.rs"],
 [("combined package layout", CLI+"commands.rs encrypt_command/decrypt_command"), ("combined package layout", JS+"zkenc.ts encrypt/decrypt"), ("nonce|ciphertext|tag layout", CLI+"crypto.rs, "+JS+"crypto.ts")],
 observe=["package bytes", "decrypted bytes on the other side"])

prop("C03", "A damaged package never decrypts to anything but the original message",
 "Whatever happens to an encrypted package or message between encryption and decryption (bit flips, truncation at any byte, torn or lost sectors, trailing bytes, splices of parts of two packages, an empty file), decryption by the CLI, by the JavaScript library, or by their AES-GCM helpers either fails with an error or returns exactly a message that was encrypted into that package's authenticated part. It never returns altered, shortened, extended or empty data in place of the message, never crashes or hangs, and never writes a decrypted-output file on failure.",
 ["inputs", "fault_sequences", "crash_points"],
 "all messages and all sequences of storage/transport faults applied to the stored package, and all decryption inputs reachable that way",
 "Tests decrypt only pristine data, plus one wrong-key case; they never feed a torn, truncated or spliced package.",
 [CLI+"crypto.rs", CLI+"commands.rs", JS+"crypto.ts", JS+"zkenc.ts"],
 [("AES-256-GCM tag verification and length checks", CLI+"crypto.rs decrypt_gcm; "+JS+"crypto.ts aesGcmDecrypt"), ("length checks on package fields", CLI+"commands.rs decrypt_command; "+JS+"zkenc.ts decrypt")],
 observe=["decrypt result or error", "output file"])

prop("C04", "CLI reports success only for complete outputs and touches none on failure",
 "When a zkenc command exits successfully, every output file it was asked to write holds the complete result; any read, write, disk-full or validation failure it meets makes it exit with an error instead. A command that fails before it has its result (unreadable or malformed input, unsatisfied witness, authentication failure) neither creates nor changes any output file, and no command ever modifies its input files.",
 ["fault_sequences", "crash_points", "schedules", "inputs"],
 "all sequences of failing, short, interrupted or full-disk system calls and crash points at every system call of every command",
 "Tests run on a healthy disk; no test makes a system call fail or crashes a command midway.",
 [CLI+"commands.rs", CLI+"r1cs.rs", CLI+"witness.rs", CLI+"main.rs"],
 [("error propagation with anyhow; outputs written last", CLI+"commands.rs")],
 observe=["exit status", "directory contents before/after"])

prop("C05", "Fresh randomness for every encryption; entropy failure fails closed",
 "No two encryptions, by any process, thread or concurrent call, of the CLI, the Rust AES helpers or the JavaScript library, reuse a nonce/IV under one key, and no two encapsulations yield the same key or ciphertext; every byte of nonce, IV and encapsulation randomness comes from the system's secure random source. If that source fails the operation fails and emits no ciphertext.",
 ["schedules", "histories", "fault_sequences"],
 "all histories of encryptions across processes, threads and concurrent calls, and all failures, short answers and interruptions of the random source",
 "Tests encrypt a handful of times and never compare nonces, and cannot make the random source fail.",
 [CLI+"crypto.rs", CLI+"commands.rs", CORE+"algorithm.rs", JS+"crypto.ts", JS+"lib.rs"],
 [("OS randomness for nonces and IVs", CLI+"crypto.rs; "+JS+"crypto.ts"), ("OS randomness for encapsulation", CLI+"commands.rs; "+JS+"lib.rs wasm_encap")],
 observe=["nonces/IVs in outputs", "draws from the random source"])

prop("C06", "Only a satisfying witness with the same public inputs recovers the key",
 "Decapsulation and decryption, by the CLI and by the JavaScript library, succeed for a witness that satisfies every constraint of the circuit and carries the public inputs the ciphertext was made for; they fail with an error for a witness that violates any constraint, that is incomplete, or whose public inputs (outputs included) differ in any position. Encapsulation fails rather than bind a ciphertext to only part of the circuit's public inputs.",
 ["inputs", "histories", "programs"],
 "all circuits, public inputs and witnesses (satisfying, perturbed in any wire, satisfying for other public inputs, incomplete), in multi-party histories in which several parties try several ciphertexts",
 "Tests use two circuits and one or two bad witnesses, and the end-to-end ones cannot be built offline.",
 [CORE+"algorithm.rs", CLI+"circuit.rs", CLI+"commands.rs", JS+"lib.rs", JS+"zkenc.ts"],
 [("constraint satisfaction check", CORE+"algorithm.rs decap"), ("public input comparison", CORE+"algorithm.rs decap"), ("circuit construction", CLI+"circuit.rs; "+JS+"lib.rs")],
 observe=["decap/decrypt success or error"])

prop("C07", "Keys, messages and private inputs never leak outside their outputs",
 "While encrypting, decrypting, encapsulating or decapsulating, successfully or not, under any fault, neither tool prints or stores the symmetric key, the plaintext message, or private witness values anywhere except the output requested for it: not in terminal or console output, error messages, the package, or any other file. When embedding is switched off the package carries no copy of the public-input JSON.",
 ["histories", "fault_sequences", "inputs"],
 "all runs of both tools including failing ones, and all keys, messages and private inputs",
 "Tests assert on return values only and never inspect logs, error texts, stray files or package bytes.",
 [CLI+"commands.rs", CLI+"crypto.rs", CORE+"algorithm.rs", JS+"zkenc.ts", JS+"crypto.ts", JS+"witness.ts", JS+"witness_calculator.ts"],
 [("progress output prints sizes only", CLI+"commands.rs; "+CORE+"algorithm.rs"), ("packages carry only ciphertexts and public inputs", CLI+"commands.rs; "+JS+"zkenc.ts")],
 observe=["stdout/stderr", "console", "all files written", "error texts"])

prop("C08", "A ciphertext alone does not reveal the key",
 "A party that sees circuits, public inputs, ciphertexts and packages in the shared store, but holds no satisfying witness, cannot compute the key from them by the group operations the ciphertext makes available.",
 ["histories", "inputs"],
 "all circuits and public inputs, all ciphertexts in the store, and a library of eavesdropper strategies (pairing products and linear combinations of published elements, the public decapsulation equation with guessed wires, keys reused across ciphertexts)",
 "Tests check that the right witness works; no test plays an adversary that has the ciphertext only.",
 [CORE+"algorithm.rs"],
 [("key derivation from the pairing of published elements", CORE+"algorithm.rs encap")],
 observe=["key computed by an eavesdropper equals the encapsulated key"])

prop("C09", "R1CS reading is faithful, or fails cleanly",
 "A well-formed .r1cs file is read (by the CLI parser from disk and by the JavaScript/WASM parser from memory) as exactly the circuit it encodes, whatever the order of its sections, the presence of unknown or optional sections, the field width, and however the reads are split or interrupted. A truncated or unreadable file gives an error, never a circuit with missing parts; a corrupted one gives an error or the circuit its bytes encode, without a crash, an endless loop, or memory use out of proportion to the file.",
 ["inputs", "fault_sequences", "crash_points"],
 "all circuits and encodings of them, all truncation points, read errors, short reads and interruptions, and bit flips or overwritten fields anywhere in the file",
 "Tests parse one pristine file and spot-check counts.",
 [CLI+"r1cs.rs", JS+"lib.rs"],
 [("section scan then header, constraints, labels", CLI+"r1cs.rs from_file"), ("in-memory parser", JS+"lib.rs parse_r1cs")],
 observe=["parsed circuit or error"])

prop("C10", "Witness reading is faithful, or fails cleanly",
 "A well-formed .wtns file is read, by the CLI from disk and by the JavaScript/WASM side from memory, as exactly the assignment it encodes, whatever the section order, extra sections and read splitting. A truncated, inconsistent or unreadable file gives an error, never an assignment with missing or shifted wires, and corruption never causes a crash, an endless loop, or memory use out of proportion to the file.",
 ["inputs", "fault_sequences", "crash_points"],
 "all assignments and encodings of them, all truncation points, read errors, short reads and interruptions, and bit flips or overwritten fields",
 "The witness tests are ignored or need pristine fixture files; no fault is ever injected.",
 [CLI+"witness.rs", JS+"lib.rs"],
 [("section loop and size check", CLI+"witness.rs from_file"), ("in-memory parser", JS+"lib.rs parse_witness")],
 observe=["assignment or error; decapsulation result"])

prop("C11", "Public inputs are bound to wires by signal name, identically in both tools",
 "For every symbol file and every input JSON, the value each public wire receives is the one given for that signal's name (nested arrays by indices, values as integers or decimal strings, reduced modulo the field), independent of the order of JSON keys, of symbol-file lines and of hash seeds, and the same in the CLI and the JavaScript library. Signals without a wire, private signals and names the circuit does not have never affect the result.",
 ["inputs", "schedules", "configurations"],
 "all symbol files and inputs, all orders of keys and lines, all hash-map seeds, and both tools",
 "Tests try a few hand-written maps with one order and the process's own hash seed, and never compare the tools.",
 [CLI+"sym_parser.rs", CLI+"commands.rs", JS+"sym_parser.ts", JS+"zkenc.ts"],
 [("name to wire map", CLI+"sym_parser.rs; "+JS+"sym_parser.ts"), ("JSON flattening by key", CLI+"commands.rs parse_circuit_inputs_with_keys; "+JS+"sym_parser.ts mapInputsToWires")],
 observe=["public inputs inside the ciphertext", "parser results"])

prop("C12", "Saved circuits, witnesses and test cases load back identical, or fail",
 "A circuit, witness or test case written with the JSON or bincode save functions (of zkenc-cli or zkenc-core, which read each other's files) and loaded again equals the original in every field, for all contents and hash seeds and however reads and writes are split or interrupted. A save that meets an error reports it, and loading a truncated, torn or unreadable file reports an error instead of returning something different.",
 ["inputs", "fault_sequences", "crash_points"],
 "all circuits, witnesses and test cases; all crash points and disk errors during save; all truncations before load; both crates on either side",
 "Tests round-trip a nearly empty value in memory, compare two fields, and never touch the file functions.",
 [CLI+"serializable.rs", CORE+"serializable.rs", CLI+"r1cs.rs"],
 [("serde JSON / bincode encodings and file helpers", CLI+"serializable.rs; "+CORE+"serializable.rs"), ("conversion from R1CS", CLI+"r1cs.rs to_serializable")],
 observe=["loaded value or error"])

prop("C13", "Concurrent JavaScript calls do not interfere",
 "Any number of encap, decap, encrypt and decrypt calls in flight at once, in any interleaving of their asynchronous steps and with some of those steps failing, each settle exactly once with the result they would have had alone: every package opens to its own message with its own embedded public inputs, and a failed call never disturbs another. The package made by encrypt reflects its public inputs and message as they were when it was called, even if the caller changes those objects while the call is in flight, and no call modifies its arguments.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of module initialisation, dynamic import, WebAssembly compilation and WebCrypto completions across concurrent calls, caller mutations between any two steps, and failures of any of them",
 "Tests await one call at a time and never control completion order.",
 [JS+"zkenc.ts", JS+"crypto.ts", JS+"witness.ts", JS+"witness_calculator.ts"],
 [("per-call local state", JS+"zkenc.ts"), ("one calculator instance per call", JS+"witness.ts")],
 observe=["settled results of every call"])

prop("C14", "The WASM module initialises once and recovers from a failed start",
 "However many calls start concurrently, the library runs WASM initialisation at most once at a time and never again after it has succeeded, and no call touches the WASM functions before initialisation has completed. If initialisation fails, the calls waiting for it fail with an error, and calls made later try again and succeed once the cause is gone.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of concurrent first calls with the initialisation's completion, and all sequences of initialisation failures",
 "Tests initialise once, successfully, in one order.",
 [JS+"zkenc.ts"],
 [("shared initialisation promise", JS+"zkenc.ts ensureWasmInit")],
 observe=["initialisation calls", "settled results"])

prop("C15", "Embedded public inputs are recovered exactly, or reported as an error",
 "Reading the public inputs of a package made with embedding returns a value equal to the inputs given at encryption, for every package held in any view of any buffer and without changing it. A package without embedded inputs, or one cut short anywhere before the end of the embedded inputs by a torn write or partial download, gives an error and never a partial or different value.",
 ["inputs", "fault_sequences", "crash_points"],
 "all public inputs and packages (from both tools), all truncation points, buffer views at any offset, and lost-sector faults over the length fields",
 "One happy-path test; truncations, offsets and flags are never tried.",
 [JS+"zkenc.ts", CLI+"commands.rs"],
 [("field-by-field length checks", JS+"zkenc.ts getPublicInput")],
 observe=["getPublicInput result or exception"])

prop("C16", "JavaScript witness calculation is exact, isolated, and fails cleanly",
 "For every circuit program and complete input assignment (numbers, bigints, decimal strings, negative values, nested arrays) the calculated witness, as array and as .wtns bytes, is exactly what the circuit computes for those inputs modulo its prime, with every input delivered once to the right signal. Missing, surplus or unknown inputs, values that are no integers, failed assertions and failures to compile or instantiate reject with an error (and never yield a witness), and concurrent calculations, failing ones included, do not influence each other.",
 ["inputs", "schedules", "fault_sequences", "programs"],
 "all circuit programs and inputs, all interleavings of concurrent calculations, and failures of compilation, instantiation and each input delivery",
 "Tests need two WASM fixtures, run one calculation at a time and compare little beyond sizes.",
 [JS+"witness.ts", JS+"witness_calculator.ts"],
 [("input hashing, flattening, normalisation and delivery", JS+"witness_calculator.ts"), ("wtns encoding", JS+"witness_calculator.ts calculateWTNSBin")],
 observe=["witness arrays and bytes", "rejections"])

prop("C17", "The AES helpers round-trip exactly, in their documented format",
 "For every 32-byte key and message, the Rust GCM and CTR helpers and the JavaScript GCM helpers return the original message after encryption and decryption, from any thread, in any interleaving and for any bytes the random source delivers (counter-wrapping IVs included). The output is nonce (12 bytes for GCM) or IV (16 bytes for CTR, 64-bit big-endian block counter) followed by the standard AES-256 ciphertext and, for GCM, the 16-byte tag; a key of any other length, or data too short to hold nonce or IV and tag, is refused with an error, and a wrong GCM key always is.",
 ["inputs", "schedules", "fault_sequences"],
 "all keys, messages and nonce/IV bytes, all interleavings of concurrent helper calls, and failures and short answers of the random source",
 "Four unit tests with one key, short messages and whatever nonce came up; nothing pins the output format or a wrapping counter.",
 [CLI+"crypto.rs", JS+"crypto.ts"],
 [("AES-256-GCM and AES-256-CTR helpers", CLI+"crypto.rs"), ("WebCrypto AES-GCM helpers", JS+"crypto.ts")],
 observe=["helper outputs"])

prop("C18", "Circuit-file and input loading under I/O faults is exact, or an error",
 "Loading a JSON input file yields, for every top-level key, exactly that value's scalars as text in document order (strings as they are, integers that fit 64 bits in decimal, arrays flattened, booleans as 1/0, null as 0, objects skipped), however the reads are split or interrupted; a missing, unreadable, non-UTF-8, truncated or non-object file is an error. Loading a circuit needs both its .r1cs and its .wasm file to be fully readable, and reports an error otherwise; what it reports depends only on the files' contents.",
 ["inputs", "fault_sequences", "configurations"],
 "all input documents and circuit files, all read errors, truncations, short reads and interruptions, and hash seeds",
 "Tests load two healthy files and check that something came back.",
 [CLI+"circom.rs"],
 [("JSON flattening", CLI+"circom.rs parse_inputs"), ("existence/readability check", CLI+"circom.rs load_circom_circuit")],
 observe=["returned values or error"])

prop("C19", "zkenc-core ciphertexts verify, store and open for exactly their inputs",
 "Used directly as a library: for every circuit handed to encap with its public inputs known and its witness unknown, the ciphertext lists exactly the circuit's public inputs in the order they were allocated, and verify_ciphertext is true for exactly that list and false for any other (changed, reordered, shortened or extended). Written out in either serialised form and read back by another process, however reads and writes are split or interrupted, it is the same ciphertext, and decap with a full satisfying assignment returns encap's key. decap refuses with the documented error kind: constraints not met (InvalidWitness), public inputs other than the ciphertext's (InvalidPublicInputs), values missing (SynthesisError). A truncated ciphertext is refused when it is read, and a damaged one never crashes verify_ciphertext or decap.",
 ["inputs", "schedules", "fault_sequences", "programs"],
 "all circuits (constraints before or after the last wire), assignments and public-input lists, interleavings of parties in threads and processes, split and interrupted reads and writes of the stored ciphertext, and damage to it at rest",
 "The tests run a few fixed circuits through encap and decap in memory; no ciphertext is stored, none is damaged, verify_ciphertext is not called at all.",
 [CORE+"algorithm.rs", CORE+"data_structures.rs", CORE+"r1cs_to_qap.rs"],
 [("public inputs, verification and key recovery", CORE+"algorithm.rs encap, decap, verify_ciphertext"), ("serialised ciphertext", CORE+"data_structures.rs")],
 observe=["returned ciphertexts, keys, booleans and errors", "stored files"])

prop("C20", "The web playground encrypts and decrypts exactly what it shows",
 "In the web playground (sudoku demo and uploaded circuits), whatever the order and timing of downloads, file uploads, renders and the visitor's actions: a package made and downloaded is one for the circuit, public inputs and message shown when Encrypt was pressed, byte for byte, and embeds the public inputs exactly when that is asked for. A package made on the page or uploaded to it decrypts with a right solution or right inputs (private ones alone are completed by the public inputs above them) to exactly its message; the public inputs an uploaded package carries are filled in. What is typed, chosen or clicked while the page works does not affect the work in flight. An encryption or decryption that fails, or a file that cannot be read, shows an error or leaves the page as it was, never a message or a new package, and the page stays usable: it never goes blank and never stays busy. Messages are not logged, stored or sent.",
 ["inputs", "schedules", "fault_sequences"],
 "all puzzles, solutions, circuits, inputs and messages, all sequences of visitor actions on one or several pages, all orders of completed downloads, file reads, renders and library steps, failing downloads, file reads and library calls",
 "No test loads the playground at all; its state is spread over handlers, renders and file readers whose order only a scheduler can vary.",
 ["docs/src/components/PlaygroundClient.tsx", "docs/src/pages/playground.tsx", JS+"zkenc.ts"],
 [("page state and handlers", "docs/src/components/PlaygroundClient.tsx"), ("library calls", JS+"zkenc.ts encrypt, decrypt, getPublicInput")],
 state=[dict(name="React state of PlaygroundClient", meaning="files, inputs, packages, results, busy flag", where="docs/src/components/PlaygroundClient.tsx")], observe=["rendered page", "downloaded files", "console, storage and requests"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
