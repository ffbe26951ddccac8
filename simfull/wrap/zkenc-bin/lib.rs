// The real main.rs of the `zkenc` binary, callable.
#![allow(dead_code, unused_imports)]
include!("/repo/packages/zkenc-cli/src/main.rs");

/// Runs the program with these arguments on the calling (simulated) process; true: exit status 0.
pub fn run_zkenc(args: Vec<String>) -> bool {
    clap::sim_set_args(std::iter::once("zkenc".to_string()).chain(args));
    std::process::Termination::report(main()) == std::process::ExitCode::SUCCESS
}
