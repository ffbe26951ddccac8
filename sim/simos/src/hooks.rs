//! The libc entry points the code under test reaches through std and getrandom.
use crate::world::{syscall as sys, Gate, Inner, Sys, FD_BASE};
use libc::{c_char, c_int, c_long, c_uint, c_void, off64_t, size_t, ssize_t};
use std::ffi::CStr;

pub fn anchor() {
    let a: [*const (); 12] = [
        open64 as *const (),
        read as *const (),
        write as *const (),
        close as *const (),
        lseek64 as *const (),
        fstat64 as *const (),
        statx as *const (),
        getrandom as *const (),
        syscall as *const (),
        clock_gettime as *const (),
        rename as *const (),
        unlink as *const (),
    ];
    std::hint::black_box(a);
}

#[inline(always)]
unsafe fn raw6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn real(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r = raw6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as c_int;
        -1
    } else {
        r
    }
}
unsafe fn ret(r: Sys) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => {
            *libc::__errno_location() = e;
            -1
        }
    }
}
unsafe fn s(p: *const c_char) -> String {
    if p.is_null() {
        return String::new();
    }
    CStr::from_ptr(p).to_string_lossy().into_owned()
}
fn ghost(g: &Gate) -> bool {
    matches!(g, Gate::Ghost | Gate::CrashNow)
}

unsafe fn do_open(path: *const c_char, flags: c_int) -> Option<i64> {
    let p = s(path);
    sys("open", || format!("{} flags={:#x}", p, flags & !libc::O_CLOEXEC), true, |w, id, g| {
        if ghost(&g) { return Err(libc::EIO) }
        w.open(id, &p, flags)
    })
    .map(|r| ret(r))
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match do_open(path, flags) {
        Some(r) => r as c_int,
        None => real(libc::SYS_openat, libc::AT_FDCWD as c_long, path as c_long, flags as c_long, mode as c_long, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match do_open(path, flags) {
        Some(r) => r as c_int,
        None => real(libc::SYS_openat, dir as c_long, path as c_long, flags as c_long, mode as c_long, 0, 0) as c_int,
    }
}
unsafe fn vread(fd: c_int, buf: *mut c_void, n: size_t, at: Option<u64>) -> Option<i64> {
    if fd < FD_BASE {
        if fd == 0 {
            return sys("stdin", String::new, false, |_, _, _| 0i64);
        }
        return None;
    }
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    sys("read", || format!("fd{} {}", fd - FD_BASE, n), true, |w, id, g| {
        if ghost(&g) { return Err(libc::EIO) }
        w.read(id, fd, b, at)
    })
    .map(|r| ret(r))
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    match vread(fd, buf, n, None) {
        Some(r) => r as ssize_t,
        None => real(libc::SYS_read, fd as c_long, buf as c_long, n as c_long, 0, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    match vread(fd, buf, n, Some(off as u64)) {
        Some(r) => r as ssize_t,
        None => real(libc::SYS_pread64, fd as c_long, buf as c_long, n as c_long, off as c_long, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if fd >= FD_BASE {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                if let Some(r) = vread(fd, v.iov_base, v.iov_len, None) {
                    return r as ssize_t;
                }
            }
        }
        return 0;
    }
    real(libc::SYS_readv, fd as c_long, iov as c_long, cnt as c_long, 0, 0, 0) as ssize_t
}

unsafe fn vwrite(fd: c_int, buf: *const c_void, n: size_t, at: Option<u64>) -> Option<i64> {
    let b = std::slice::from_raw_parts(buf as *const u8, n);
    if fd == 1 || fd == 2 {
        return sys("out", || format!("fd{} {}", fd, n), true, |w: &mut Inner, id, _| {
            w.out(id, fd, b);
            n as i64
        });
    }
    if fd < FD_BASE {
        return None;
    }
    sys("write", || format!("fd{} {}", fd - FD_BASE, n), true, |w, id, g| match g {
        Gate::Ghost => Err(libc::EIO),
        Gate::CrashNow => {
            let _ = w.write(id, fd, b, at, true);
            w.stats.hit("torn_write");
            Err(libc::EIO)
        }
        Gate::Go => w.write(id, fd, b, at, false),
    })
    .map(|r| ret(r))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    match vwrite(fd, buf, n, None) {
        Some(r) => r as ssize_t,
        None => real(libc::SYS_write, fd as c_long, buf as c_long, n as c_long, 0, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    match vwrite(fd, buf, n, Some(off as u64)) {
        Some(r) => r as ssize_t,
        None => real(libc::SYS_pwrite64, fd as c_long, buf as c_long, n as c_long, off as c_long, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if fd >= FD_BASE || fd == 1 || fd == 2 {
        let mut tot = 0i64;
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                match vwrite(fd, v.iov_base, v.iov_len, None) {
                    Some(r) if r < 0 => return if tot > 0 { tot as ssize_t } else { -1 },
                    Some(r) => {
                        tot += r;
                        if (r as usize) < v.iov_len {
                            return tot as ssize_t;
                        }
                    }
                    None => return real(libc::SYS_writev, fd as c_long, iov as c_long, cnt as c_long, 0, 0, 0) as ssize_t,
                }
            }
        }
        return tot as ssize_t;
    }
    real(libc::SYS_writev, fd as c_long, iov as c_long, cnt as c_long, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if fd >= FD_BASE {
        if let Some(r) = sys("lseek", || format!("fd{} {} {}", fd - FD_BASE, off, whence), true, |w, id, g| {
            if ghost(&g) { return Err(libc::EIO) }
            w.lseek(id, fd, off, whence)
        }) {
            return ret(r);
        }
    }
    real(libc::SYS_lseek, fd as c_long, off as c_long, whence as c_long, 0, 0, 0) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        if let Some(r) = sys("close", || format!("fd{}", fd - FD_BASE), true, |w, id, _| w.close(id, fd)) {
            return ret(r) as c_int;
        }
    }
    real(libc::SYS_close, fd as c_long, 0, 0, 0, 0, 0) as c_int
}
unsafe fn fill_stat(st: *mut libc::stat64, v: crate::world::Stat) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*st).st_mode = v.0;
    (*st).st_size = v.1 as i64;
    (*st).st_ino = v.2;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
    (*st).st_mtime = (v.3 / 1_000_000_000) as i64;
    (*st).st_mtime_nsec = (v.3 % 1_000_000_000) as i64;
    (*st).st_ctime = (*st).st_mtime;
    (*st).st_ctime_nsec = (*st).st_mtime_nsec;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if fd >= FD_BASE {
        if let Some(r) = sys("fstat", || format!("fd{}", fd - FD_BASE), true, |w, id, g| {
            if ghost(&g) { return Err(libc::EIO) }
            w.stat_fd(id, fd)
        }) {
            return match r {
                Ok(v) => {
                    fill_stat(st, v);
                    0
                }
                Err(e) => ret(Err(e)) as c_int,
            };
        }
    }
    real(libc::SYS_fstat, fd as c_long, st as c_long, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
unsafe fn vstat(path: *const c_char) -> Option<Result<crate::world::Stat, i32>> {
    let p = s(path);
    sys("stat", || p.clone(), true, |w, _, g| if ghost(&g) { Err(libc::EIO) } else { w.stat_path(&p) })
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    match vstat(path) {
        Some(Ok(v)) => {
            fill_stat(st, v);
            0
        }
        Some(Err(e)) => ret(Err(e)) as c_int,
        None => real(libc::SYS_stat, path as c_long, st as c_long, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    match vstat(path) {
        Some(Ok(v)) => {
            fill_stat(st, v);
            0
        }
        Some(Err(e)) => ret(Err(e)) as c_int,
        None => real(libc::SYS_lstat, path as c_long, st as c_long, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    lstat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    let empty = path.is_null() || *path == 0;
    let r = if empty {
        if dir >= FD_BASE {
            sys("fstat", || format!("fd{}", dir - FD_BASE), true, |w, id, g| {
                if ghost(&g) { return Err(libc::EIO) }
                w.stat_fd(id, dir)
            })
        } else {
            None
        }
    } else {
        vstat(path)
    };
    match r {
        Some(Ok(v)) => {
            std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::statx>());
            (*buf).stx_mask = libc::STATX_BASIC_STATS;
            (*buf).stx_mode = v.0 as u16;
            (*buf).stx_size = v.1;
            (*buf).stx_ino = v.2;
            (*buf).stx_nlink = 1;
            (*buf).stx_blksize = 4096;
            (*buf).stx_mtime.tv_sec = (v.3 / 1_000_000_000) as i64;
            (*buf).stx_mtime.tv_nsec = (v.3 % 1_000_000_000) as u32;
            (*buf).stx_ctime = (*buf).stx_mtime;
            0
        }
        Some(Err(e)) => ret(Err(e)) as c_int,
        None => real(libc::SYS_statx, dir as c_long, path as c_long, flags as c_long, mask as c_long, buf as c_long, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    match vstat(path) {
        Some(Ok(_)) => 0,
        Some(Err(e)) => ret(Err(e)) as c_int,
        None => real(libc::SYS_access, path as c_long, mode as c_long, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        if let Some(r) = sys("fsync", || format!("fd{}", fd - FD_BASE), true, |_, _, g| if ghost(&g) { Err(libc::EIO) } else { Ok(0) }) {
            return ret(r) as c_int;
        }
    }
    real(libc::SYS_fsync, fd as c_long, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        return fsync(fd);
    }
    real(libc::SYS_fdatasync, fd as c_long, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if fd >= FD_BASE {
        if let Some(r) = sys("ftruncate", || format!("fd{} {}", fd - FD_BASE, len), true, |w, id, g| {
            if ghost(&g) { return Err(libc::EIO) }
            w.ftruncate(id, fd, len as u64)
        }) {
            return ret(r) as c_int;
        }
    }
    real(libc::SYS_ftruncate, fd as c_long, len as c_long, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (x, y) = (s(a), s(b));
    match sys("rename", || format!("{} -> {}", x, y), true, |w, id, g| if ghost(&g) { Err(libc::EIO) } else { w.rename(id, &x, &y) }) {
        Some(r) => ret(r) as c_int,
        None => real(libc::SYS_rename, a as c_long, b as c_long, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let x = s(a);
    match sys("unlink", || x.clone(), true, |w, id, g| if ghost(&g) { Err(libc::EIO) } else { w.unlink(id, &x) }) {
        Some(r) => ret(r) as c_int,
        None => real(libc::SYS_unlink, a as c_long, 0, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: c_uint) -> c_int {
    let x = s(a);
    match sys("mkdir", || x.clone(), true, |w, _, g| if ghost(&g) { Err(libc::EIO) } else { w.mkdir(&x) }) {
        Some(r) => ret(r) as c_int,
        None => real(libc::SYS_mkdir, a as c_long, mode as c_long, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, mode: c_uint) -> c_int {
    match vstat(a) {
        Some(Ok(_)) => 0,
        Some(Err(e)) => ret(Err(e)) as c_int,
        None => real(libc::SYS_chmod, a as c_long, mode as c_long, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: c_uint) -> c_int {
    if fd >= FD_BASE {
        return 0;
    }
    real(libc::SYS_fchmod, fd as c_long, mode as c_long, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(a: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    match vstat(a) {
        Some(Ok(_)) => ret(Err(libc::EINVAL)) as ssize_t,
        Some(Err(e)) => ret(Err(e)) as ssize_t,
        None => real(libc::SYS_readlink, a as c_long, b as c_long, n as c_long, 0, 0, 0) as ssize_t,
    }
}
/// Used by std for File::try_clone and for debug checks; variadic in C, same registers here.
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if fd >= FD_BASE {
        if cmd == libc::F_DUPFD_CLOEXEC || cmd == libc::F_DUPFD {
            if let Some(r) = sys("dup", || format!("fd{}", fd - FD_BASE), true, |w, id, _| w.dup(id, fd)) {
                return ret(r) as c_int;
            }
        }
        return 0;
    }
    real(libc::SYS_fcntl, fd as c_long, cmd as c_long, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
unsafe fn vrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> Option<i64> {
    const GRND_INSECURE: c_uint = 4;
    let insecure = flags & GRND_INSECURE != 0;
    let b = if n == 0 { &mut [][..] } else { std::slice::from_raw_parts_mut(buf as *mut u8, n) };
    sys("getrandom", || format!("{}{}", n, if insecure { " (hash seed)" } else { "" }), n > 0 && !insecure, |w, id, g| {
        if ghost(&g) {
            // a dead process must still be able to run to its end
            for x in b.iter_mut() { *x = 7 }
            return Ok(n as i64);
        }
        w.entropy(id, b, insecure)
    })
    .map(|r| ret(r))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    match vrandom(buf, n, flags) {
        Some(r) => r as ssize_t,
        None => real(libc::SYS_getrandom, buf as c_long, n as c_long, flags as c_long, 0, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_getrandom {
        if let Some(r) = vrandom(a as *mut c_void, b as size_t, c as c_uint) {
            return r as c_long;
        }
    }
    if n == libc::SYS_futex && matches!(b as c_int & 0x7f, libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET) {
        let timeout = (d as *const libc::timespec).as_ref().map(|t| t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64);
        let word = &*(a as *const std::sync::atomic::AtomicI32);
        // a real wait would stop the only thread the simulator lets run
        if word.load(std::sync::atomic::Ordering::SeqCst) == c as i32 {
            if crate::world::blocked(timeout.map(|t| t.min(10_000_000))).is_some() {
                if timeout.is_some() {
                    *libc::__errno_location() = libc::ETIMEDOUT;
                    return -1;
                }
                return 0;
            }
        }
    }
    real(n, a, b, c, d, e, f)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_MONOTONIC || id == libc::CLOCK_BOOTTIME || id == libc::CLOCK_REALTIME_COARSE {
        if let Some(ns) = sys("clock", String::new, false, |w, _, _| {
            if w.cfg.frozen_clock { 1_700_000_000_000_000_000u64 } else { w.clock_ns }
        }) {
            (*ts).tv_sec = (ns / 1_000_000_000) as i64;
            (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
            return 0;
        }
    }
    real(libc::SYS_clock_gettime, id as c_long, ts as c_long, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if let Some(v) = sys("getpid", String::new, false, |w, id, _| if w.cfg.same_pid { 1 } else { 100 + id as c_int }) {
        return v;
    }
    real(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as c_int
}
