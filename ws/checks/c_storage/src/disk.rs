//! The system calls by which this process changes files, on their way: those of a thread that asks for it are
//! counted, and one of them can be the last that has an effect (the process is killed there), or fail (a full disk).
//! The calls of the standard library are to these functions, as they are in the program itself.
use libc::{c_char, c_int, c_void, mode_t, off64_t, size_t, ssize_t};
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Open, Write, Truncate, Rename, Unlink, Mkdir, Link }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    /// neither this call nor any after it has an effect; of a write, the first so many bytes do
    Kill(usize),
    /// this call fails; of a write, the first so many bytes are written and the next call fails
    Fail(usize),
}
#[derive(Clone, Copy)]
struct Ctl { on: bool, n: usize, at: usize, stop: Stop, dead: bool, fail_next: bool }
thread_local! {
    static CTL: Cell<Ctl> = const { Cell::new(Ctl { on: false, n: 0, at: usize::MAX, stop: Stop::Kill(0), dead: false, fail_next: false }) };
    static POINT: RefCell<Option<mc::sched::Handle>> = const { RefCell::new(None) };
    static LOG: RefCell<Vec<(Kind, usize)>> = const { RefCell::new(Vec::new()) };
}
/// makes the calls of this thread scheduling points
pub fn scheduled(h: Option<mc::sched::Handle>) { POINT.with(|p| *p.borrow_mut() = h) }
fn point(what: &'static str) {
    let h = POINT.try_with(|p| p.borrow().clone()).ok().flatten();
    if let Some(h) = h { h.point(|| what.to_string()) }
}
/// runs `f` and tells the calls it made, and whether it got to the one to stop at
pub fn watched<T>(at: Option<(usize, Stop)>, f: impl FnOnce() -> T) -> (T, Vec<(Kind, usize)>, bool) {
    LOG.with(|l| l.borrow_mut().clear());
    let (n, stop) = at.unwrap_or((usize::MAX, Stop::Kill(0)));
    CTL.set(Ctl { on: true, n: 0, at: n, stop, dead: false, fail_next: false });
    let r = f();
    let c = CTL.get();
    CTL.set(Ctl { on: false, ..c });
    (r, LOG.with(|l| l.take()), c.n > n)
}
enum Do { Pass, Fail, Part(usize, bool) }
fn meet(kind: Kind, len: usize) -> Do {
    let mut c = CTL.get();
    if !c.on { return Do::Pass }
    if c.dead { return Do::Fail }
    if c.fail_next { c.fail_next = false; CTL.set(c); return Do::Fail }
    LOG.with(|l| l.borrow_mut().push((kind, len)));
    let hit = c.n == c.at;
    c.n += 1;
    let d = if !hit { Do::Pass } else {
        match c.stop {
            Stop::Kill(k) => { c.dead = true; if k > 0 { Do::Part(k, false) } else { Do::Fail } }
            Stop::Fail(k) => if k > 0 { c.fail_next = true; Do::Part(k, true) } else { Do::Fail },
        }
    };
    CTL.set(c);
    d
}
unsafe fn fail() -> c_int { *libc::__errno_location() = libc::ENOSPC; -1 }
macro_rules! gate { ($k:expr, $call:expr) => { match meet($k, 0) { Do::Pass => $call as _, _ => fail() as _ } } }

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let real = || libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags | libc::O_LARGEFILE, mode) as c_int;
    point("open");
    if flags & (libc::O_CREAT | libc::O_TRUNC) == 0 { return real() }
    gate!(Kind::Open, real())
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    point("write");
    match meet(Kind::Write, n) {
        Do::Pass => libc::syscall(libc::SYS_write, fd, b, n) as ssize_t,
        Do::Fail => fail() as ssize_t,
        Do::Part(k, short) => { let r = libc::syscall(libc::SYS_write, fd, b, k.min(n)) as ssize_t; if short { r } else { fail() as ssize_t } }
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int { gate!(Kind::Truncate, libc::syscall(libc::SYS_ftruncate, fd, n)) }
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int { point("rename"); gate!(Kind::Rename, libc::syscall(libc::SYS_rename, a, b)) }
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int { point("unlink"); gate!(Kind::Unlink, libc::syscall(libc::SYS_unlink, a)) }
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: mode_t) -> c_int { gate!(Kind::Mkdir, libc::syscall(libc::SYS_mkdir, a, m)) }
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int { gate!(Kind::Link, libc::syscall(libc::SYS_linkat, d, a, e, b, f)) }
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t { gate!(Kind::Write, libc::syscall(libc::SYS_writev, fd, v, n)) }

/// that the calls do come by here: a file is made, written, cut, linked, renamed and removed, and all of it is seen
pub fn checked() -> Result<(), String> {
    use std::io::Write;
    let d = crate::env::dir();
    let (r, log, _) = watched(None, || -> std::io::Result<()> {
        std::fs::create_dir_all(&d)?;
        let mut f = std::fs::File::create(d.join("a"))?;
        f.write_all(b"abc")?;
        f.set_len(1)?;
        std::fs::hard_link(d.join("a"), d.join("b"))?;
        std::fs::rename(d.join("a"), d.join("c"))?;
        std::fs::remove_file(d.join("b"))?;
        std::fs::write(d.join("c"), b"xy")
    });
    r.map_err(|e| e.to_string())?;
    let _ = std::fs::remove_dir_all(&d);
    use Kind::*;
    let want = vec![(Mkdir, 0), (Open, 0), (Write, 3), (Truncate, 0), (Link, 0), (Rename, 0), (Unlink, 0), (Open, 0), (Write, 2)];
    if log != want { return Err(format!("calls are not all seen: {log:?}")); }
    Ok(())
}
