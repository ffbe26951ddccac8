#!/usr/bin/env python3
"""Builds simwasm (the repository's WASM bindings) for wasm32-unknown-unknown: first the standard library from the
toolchain's own sources (no such target is installed), then the module."""
import glob, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, ".build")
TARGET = "wasm32-unknown-unknown"


def out(*a):
    return subprocess.run(a, stdout=subprocess.PIPE, check=True, text=True).stdout.strip()


def run(cmd, cwd, **env):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        sys.exit(1)


def main():
    host = out("rustc", "+nightly", "--print", "sysroot")
    rel = out("rustc", "+nightly", "--version").replace(" ", "_").replace("(", "").replace(")", "")
    sysroot = os.path.join(BUILD, "wasmsys-" + rel)
    lib = os.path.join(sysroot, "lib", "rustlib", TARGET, "lib")
    if not os.path.isdir(lib):
        td = os.path.join(BUILD, "wasmstd")
        run(["cargo", "+nightly", "build", "--offline", "--release", "--quiet", "-Zbuild-std=std,panic_abort", "--target", TARGET,
             "--config", 'source.crates-io.replace-with="vs"',
             "--config", 'source.vs.directory="%s/lib/rustlib/src/rust/library/vendor"' % host],
            os.path.join(HERE, "simwasm", "std"), CARGO_TARGET_DIR=td)
        tmp = lib + ".new"
        os.makedirs(tmp, exist_ok=True)
        for f in glob.glob(os.path.join(td, TARGET, "release", "**", "lib*.r*"), recursive=True):
            if f.endswith((".rlib", ".rmeta")) and "wasmstd" not in os.path.basename(f):
                shutil.copy(f, tmp)
        if len(os.listdir(tmp)) < 5:
            print("the standard library for %s was not found in %s" % (TARGET, td))
            sys.exit(1)
        os.rename(tmp, lib)
        shutil.rmtree(td)
    lld = glob.glob(os.path.join(host, "lib", "rustlib", "*", "bin", "rust-lld"))[0]
    run(["cargo", "+nightly", "build", "--offline", "--release", "--quiet", "--target", TARGET], os.path.join(HERE, "simwasm"),
        CARGO_TARGET_DIR=os.environ.get("CARGO_TARGET_DIR", os.path.join(BUILD, "target")), CARGO_ENCODED_RUSTFLAGS="--sysroot\x1f" + sysroot,
        CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_LINKER=lld)


main()
