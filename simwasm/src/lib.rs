//! What wasm-bindgen's generated glue does, by hand: bytes are copied into memory obtained from
//! the module's own allocator, results and errors are copied out again and freed.
use std::alloc::{alloc, dealloc, Layout};
use wasm_bindgen::JsValue;

#[link(wasm_import_module = "sim")]
extern "C" {
    fn random(p: *mut u8, n: usize) -> i32;
    fn panicked(p: *const u8, n: usize);
}
fn fill(b: &mut [u8]) -> Result<(), getrandom::Error> {
    if unsafe { random(b.as_mut_ptr(), b.len()) } == 0 {
        Ok(())
    } else {
        Err(getrandom::Error::from(std::num::NonZeroU32::new(getrandom::Error::CUSTOM_START + 1).unwrap()))
    }
}
getrandom::register_custom_getrandom!(fill);

static mut OUT: [Vec<u8>; 2] = [Vec::new(), Vec::new()];

/// As __wbindgen_malloc.
#[no_mangle]
pub extern "C" fn sim_alloc(n: usize) -> *mut u8 {
    if n == 0 {
        return 1 as *mut u8;
    }
    match Layout::from_size_align(n, 1) {
        Ok(l) => {
            let p = unsafe { alloc(l) };
            if p.is_null() {
                std::alloc::handle_alloc_error(l)
            }
            p
        }
        Err(_) => std::process::abort(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sim_free(p: *mut u8, n: usize) {
    if n > 0 {
        dealloc(p, Layout::from_size_align_unchecked(n, 1))
    }
}
/// As __wbindgen_start.
#[no_mangle]
pub extern "C" fn sim_start() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        unsafe { panicked(s.as_ptr(), s.len()) }
    }));
    zkenc_js::init();
}
/// Slices the caller allocated are freed here, as the generated functions do.
unsafe fn take(p: *mut u8, n: usize) -> Box<[u8]> {
    if n == 0 {
        return Box::new([]);
    }
    Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n))
}
fn err(e: JsValue) -> i32 {
    unsafe {
        OUT[0] = e.text().into_bytes();
    }
    1
}
#[no_mangle]
pub unsafe extern "C" fn sim_encap(rp: *mut u8, rn: usize, wp: *mut u8, wn: usize) -> i32 {
    let (r, w) = (take(rp, rn), take(wp, wn));
    match zkenc_js::wasm_encap(&r, &w) {
        Ok(e) => {
            OUT = [e.ciphertext(), e.key()];
            0
        }
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sim_decap(rp: *mut u8, rn: usize, wp: *mut u8, wn: usize, cp: *mut u8, cn: usize) -> i32 {
    let (r, w, c) = (take(rp, rn), take(wp, wn), take(cp, cn));
    match zkenc_js::wasm_decap(&r, &w, &c) {
        Ok(k) => {
            OUT = [k, Vec::new()];
            0
        }
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sim_out(i: usize) -> *const u8 {
    (*std::ptr::addr_of!(OUT))[i].as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn sim_out_len(i: usize) -> usize {
    (*std::ptr::addr_of!(OUT))[i].len()
}
/// The public inputs inside a ciphertext, 32 bytes each (for the checker).
#[no_mangle]
pub unsafe extern "C" fn sim_publics(cp: *mut u8, cn: usize) -> i32 {
    use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
    let c = take(cp, cn);
    let mut r = &c[..];
    match zkenc_core::Ciphertext::<ark_bn254::Bn254>::deserialize_compressed(&mut r) {
        Ok(ct) if r.is_empty() => {
            let mut b = Vec::new();
            for x in &ct.public_inputs {
                x.serialize_compressed(&mut b).expect("serialize");
            }
            OUT = [b, Vec::new()];
            0
        }
        _ => err(JsValue::from_str("no ciphertext")),
    }
}
