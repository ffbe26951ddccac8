// Modules of /repo/packages/zkenc-cli/src that do not use arkworks.
// Left out: circuit, commands, witness (and main.rs).
#[path = "/repo/packages/zkenc-cli/src/circom.rs"]
pub mod circom;
#[path = "/repo/packages/zkenc-cli/src/crypto.rs"]
pub mod crypto;
#[path = "/repo/packages/zkenc-cli/src/r1cs.rs"]
pub mod r1cs;
#[path = "/repo/packages/zkenc-cli/src/serializable.rs"]
pub mod serializable;
#[path = "/repo/packages/zkenc-cli/src/sym_parser.rs"]
pub mod sym_parser;
