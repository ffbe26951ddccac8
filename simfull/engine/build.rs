//! Redirects std::process::exit, so that a simulated process that calls it ends alone.
use std::io::Write;
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
    let out = std::process::Command::new(rustc).args(["--print", "target-libdir"]).output().unwrap();
    let dir = String::from_utf8(out.stdout).unwrap();
    let mut sym = None;
    for e in std::fs::read_dir(dir.trim()).unwrap().flatten() {
        let n = e.file_name().into_string().unwrap_or_default();
        if n.starts_with("libstd-") && n.ends_with(".rlib") {
            sym = find(&std::fs::read(e.path()).unwrap());
        }
    }
    let sym = sym.expect("symbol of std::process::exit");
    println!("cargo:rustc-link-arg=-Wl,--wrap={}", sym);
    let dst = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("exit.rs");
    let mut f = std::fs::File::create(dst).unwrap();
    write!(
        f,
        "extern \"Rust\" {{ #[link_name = \"__real_{sym}\"] fn real_exit(code: i32) -> !; }}\n\
         #[export_name = \"__wrap_{sym}\"]\n\
         pub fn wrapped_exit(code: i32) -> ! {{\n\
             if simos::in_process() {{\n\
                 use std::io::Write;\n\
                 let _ = std::io::stdout().flush();\n\
                 simos::end_process(code)\n\
             }}\n\
             unsafe {{ real_exit(code) }}\n\
         }}\n"
    )
    .unwrap();
}
fn ident(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_' || b == b'.' || b == b'$'
}
fn find(d: &[u8]) -> Option<String> {
    for pat in [&b"3std7process4exit"[..]] {
        let mut i = 0;
        while i + pat.len() < d.len() {
            if &d[i..i + pat.len()] == pat {
                let mut a = i;
                while a > 0 && ident(d[a - 1]) {
                    a -= 1;
                }
                let mut z = i + pat.len();
                while z < d.len() && ident(d[z]) {
                    z += 1;
                }
                let s = String::from_utf8_lossy(&d[a..z]).to_string();
                let legacy = s.starts_with("_ZN3std7process4exit17h") && s.ends_with('E');
                let v0 = s.starts_with("_RNvNtCs") && s.ends_with("_3std7process4exit");
                if legacy || v0 {
                    return Some(s);
                }
                i = z;
            } else {
                i += 1;
            }
        }
    }
    None
}
