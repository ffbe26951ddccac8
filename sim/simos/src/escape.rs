//! Leaving a simulated process from the middle of its call stack, for exit().
use std::cell::Cell;
use std::ffi::c_void;

std::arch::global_asm!(
    ".globl simos_run_escapable",
    "simos_run_escapable:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "sub rsp, 8",
    "mov [rdx], rsp",
    "mov rax, rdi",
    "mov rdi, rsi",
    "call rax",
    "xor eax, eax",
    "2:",
    "add rsp, 8",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".globl simos_escape",
    "simos_escape:",
    "mov rsp, rdi",
    "mov eax, 1",
    "jmp 2b",
);
extern "C" {
    fn simos_run_escapable(f: extern "C" fn(*mut c_void), arg: *mut c_void, slot: *mut usize) -> i32;
    fn simos_escape(sp: usize) -> !;
}
thread_local! {
    static SP: Cell<usize> = const { Cell::new(0) };
    static CODE: Cell<i32> = const { Cell::new(0) };
}

/// Calls f; Some(code) if it ended by `leave`. Frames left behind are leaked, as in a real exit.
pub fn run<F: FnOnce()>(f: F) -> Option<i32> {
    extern "C" fn tramp<F: FnOnce()>(p: *mut c_void) {
        let f = unsafe { &mut *(p as *mut Option<F>) };
        (f.take().unwrap())()
    }
    let mut o = Some(f);
    let mut sp = 0usize;
    // the slot is filled before f runs; publish it through the thread-local as its address
    SP.with(|s| s.set(&mut sp as *mut usize as usize));
    let r = unsafe { simos_run_escapable(tramp::<F>, &mut o as *mut _ as *mut c_void, &mut sp) };
    SP.with(|s| s.set(0));
    if r == 0 {
        None
    } else {
        Some(CODE.with(|c| c.get()))
    }
}
pub fn leave(code: i32) -> ! {
    CODE.with(|c| c.set(code));
    let slot = SP.with(|s| s.get()) as *const usize;
    unsafe { simos_escape(*slot) }
}
