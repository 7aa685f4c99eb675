//! File operations of the current thread, seen at the C library's boundary: every operation
//! that changes the scratch directory is a step, at which the process can "die" (no later
//! operation has any effect), a write can be torn, or the operation can fail.
use libc::{c_char, c_int, c_void, mode_t, off_t, size_t, ssize_t};
use std::cell::RefCell;
use std::ffi::CStr;

#[derive(Clone, Debug, PartialEq)]
pub enum Plan {
    /// only record the steps
    Record,
    /// the process dies before this step
    Die(usize),
    /// the process dies in this write, after this many bytes
    Torn(usize, usize),
    /// the process dies right after this open took effect
    Opened(usize),
    /// this step fails with an error and has no effect; later ones work
    Fail(usize, c_int),
    /// this write stores this many bytes, the next one fails; later ones work
    Short(usize, usize, c_int),
}

#[derive(Clone, Debug)]
pub struct Step {
    pub what: &'static str,
    pub path: String,
    pub size: usize,
}

struct Ctl {
    dir: Vec<u8>,
    plan: Plan,
    n: usize,
    dead: bool,
    fail_next: Option<c_int>,
    fds: Vec<(c_int, String)>,
    steps: Vec<Step>,
}

thread_local! {
    static CTL: RefCell<Option<Ctl>> = const { RefCell::new(None) };
}

/// Run `f` with the operations below `dir` under `plan`; the steps seen.
pub fn with_plan<T>(dir: &std::path::Path, plan: Plan, f: impl FnOnce() -> T) -> (T, Vec<Step>) {
    CTL.with(|c| {
        *c.borrow_mut() = Some(Ctl {
            dir: dir.to_str().unwrap().as_bytes().to_vec(),
            plan,
            n: 0,
            dead: false,
            fail_next: None,
            fds: vec![],
            steps: vec![],
        })
    });
    let r = f();
    let ctl = CTL.with(|c| c.borrow_mut().take()).unwrap();
    (r, ctl.steps)
}

/// All ways in which the recorded operations can be interrupted. `torn` picks the partial sizes.
pub fn plans(steps: &[Step], torn: impl Fn(usize) -> Vec<usize>) -> Vec<Plan> {
    let mut v = vec![];
    for (k, s) in steps.iter().enumerate() {
        v.push(Plan::Die(k));
        v.push(Plan::Fail(k, libc::EIO));
        match s.what {
            "write" => {
                for j in torn(s.size) {
                    v.push(Plan::Torn(k, j));
                    v.push(Plan::Short(k, j, libc::ENOSPC));
                }
                v.push(Plan::Fail(k, libc::ENOSPC));
            }
            "open" => v.push(Plan::Opened(k)),
            _ => {}
        }
    }
    v
}

enum Do {
    Go,
    Part(usize),
    Fail(c_int),
    OpenThenDie,
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

fn gate(what: &'static str, at: Result<&CStr, c_int>, size: usize) -> Do {
    CTL.try_with(|c| {
        let Ok(mut c) = c.try_borrow_mut() else { return Do::Go };
        let Some(c) = c.as_mut() else { return Do::Go };
        let path = match at {
            Ok(p) if p.to_bytes().starts_with(&c.dir) => p.to_string_lossy().into_owned(),
            Ok(_) => return Do::Go,
            Err(fd) => match c.fds.iter().find(|x| x.0 == fd) {
                Some(x) => x.1.clone(),
                None => return Do::Go,
            },
        };
        if c.dead {
            return Do::Fail(libc::EIO);
        }
        let k = c.n;
        c.n += 1;
        c.steps.push(Step { what, path, size });
        if what == "write" {
            if let Some(e) = c.fail_next.take() {
                return Do::Fail(e);
            }
        }
        match c.plan {
            Plan::Die(n) if n == k => {
                c.dead = true;
                Do::Fail(libc::EIO)
            }
            Plan::Torn(n, j) if n == k && what == "write" => {
                c.dead = true;
                Do::Part(j)
            }
            Plan::Opened(n) if n == k && what == "open" => {
                c.dead = true;
                Do::OpenThenDie
            }
            Plan::Fail(n, e) if n == k => Do::Fail(e),
            Plan::Short(n, j, e) if n == k && what == "write" => {
                c.fail_next = Some(e);
                if j == 0 { Do::Fail(e) } else { Do::Part(j) }
            }
            _ => Do::Go,
        }
    })
    .unwrap_or(Do::Go)
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    unsafe {
        let writes = flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0;
        let real = || libc::syscall(libc::SYS_openat, dirfd, path, flags | libc::O_CLOEXEC, mode) as c_int;
        if !writes {
            return real();
        }
        let p = CStr::from_ptr(path);
        match gate("open", Ok(p), 0) {
            Do::Fail(e) => {
                set_errno(e);
                -1
            }
            Do::OpenThenDie => {
                let fd = real();
                if fd >= 0 {
                    libc::syscall(libc::SYS_close, fd);
                }
                let n = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, c"/dev/null".as_ptr(), libc::O_RDWR | libc::O_CLOEXEC) as c_int;
                track(n, p);
                n
            }
            _ => {
                let fd = real();
                if fd >= 0 {
                    track(fd, p);
                }
                fd
            }
        }
    }
}
fn track(fd: c_int, p: &CStr) {
    let _ = CTL.try_with(|c| {
        if let Ok(mut c) = c.try_borrow_mut() {
            if let Some(c) = c.as_mut() {
                if p.to_bytes().starts_with(&c.dir) {
                    let s = p.to_string_lossy().into_owned();
                    c.fds.push((fd, s));
                }
            }
        }
    });
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    unsafe { do_open(libc::AT_FDCWD, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    unsafe { do_open(libc::AT_FDCWD, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    unsafe { do_open(d, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    unsafe { do_open(d, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _ = CTL.try_with(|c| {
        if let Ok(mut c) = c.try_borrow_mut() {
            if let Some(c) = c.as_mut() {
                c.fds.retain(|x| x.0 != fd);
            }
        }
    });
    unsafe { libc::syscall(libc::SYS_close, fd) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    unsafe {
        let real = |n: size_t| libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
        match gate("write", Err(fd), n) {
            Do::Go | Do::OpenThenDie => real(n),
            Do::Part(j) => real(j.min(n)),
            Do::Fail(e) => {
                set_errno(e);
                -1
            }
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    unsafe {
        let total: usize = (0..n as usize).map(|i| (*iov.add(i)).iov_len).sum();
        match gate("write", Err(fd), total) {
            Do::Go | Do::OpenThenDie => libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t,
            Do::Part(j) => {
                let mut left = j.min(total);
                let mut done = 0;
                for i in 0..n as usize {
                    let v = *iov.add(i);
                    let k = v.iov_len.min(left);
                    if k > 0 {
                        done += libc::syscall(libc::SYS_write, fd, v.iov_base, k) as ssize_t;
                        left -= k;
                    }
                }
                done
            }
            Do::Fail(e) => {
                set_errno(e);
                -1
            }
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    unsafe {
        let real = |n: size_t| libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t;
        match gate("write", Err(fd), n) {
            Do::Go | Do::OpenThenDie => real(n),
            Do::Part(j) => real(j.min(n)),
            Do::Fail(e) => {
                set_errno(e);
                -1
            }
        }
    }
}
macro_rules! op {
    ($name:ident, $what:literal, ($($a:ident: $t:ty),*), $at:expr, $sys:expr) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            unsafe {
                match gate($what, $at, 0) {
                    Do::Fail(e) => {
                        set_errno(e);
                        -1
                    }
                    _ => libc::syscall($sys, $($a),*) as c_int,
                }
            }
        }
    };
}
op!(rename, "rename", (a: *const c_char, b: *const c_char), Ok(CStr::from_ptr(b)), libc::SYS_rename);
op!(renameat, "rename", (d: c_int, a: *const c_char, e: c_int, b: *const c_char), Ok(CStr::from_ptr(b)), libc::SYS_renameat);
op!(link, "link", (a: *const c_char, b: *const c_char), Ok(CStr::from_ptr(b)), libc::SYS_link);
op!(linkat, "link", (d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int), Ok(CStr::from_ptr(b)), libc::SYS_linkat);
op!(unlink, "unlink", (a: *const c_char), Ok(CStr::from_ptr(a)), libc::SYS_unlink);
op!(unlinkat, "unlink", (d: c_int, a: *const c_char, f: c_int), Ok(CStr::from_ptr(a)), libc::SYS_unlinkat);
op!(mkdir, "mkdir", (a: *const c_char, m: mode_t), Ok(CStr::from_ptr(a)), libc::SYS_mkdir);
op!(ftruncate64, "truncate", (fd: c_int, n: off_t), Err(fd), libc::SYS_ftruncate);
op!(fsync, "sync", (fd: c_int), Err(fd), libc::SYS_fsync);
op!(fdatasync, "sync", (fd: c_int), Err(fd), libc::SYS_fdatasync);
