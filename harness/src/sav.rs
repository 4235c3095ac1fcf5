// Saving family: what is on disk at every point of saving a patch, with crashes and I/O errors
// injected at any file operation.  The libc functions below shadow those of the C library; they
// only do something special while a save of this family is under way on this thread.
use crate::eng::Eng;
use crate::util::*;
use hexodsp::dsp::SAtom;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};

extern "C" {
    fn syscall(num: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
    fn fork() -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    fn _exit(code: c_int) -> !;
}

#[cfg(target_arch = "x86_64")]
mod nr {
    pub const WRITE: i64 = 1;
    pub const OPEN: i64 = 2;
    pub const PWRITE64: i64 = 18;
    pub const WRITEV: i64 = 20;
    pub const FSYNC: i64 = 74;
    pub const FDATASYNC: i64 = 75;
    pub const FTRUNCATE: i64 = 77;
    pub const TRUNCATE: i64 = 76;
    pub const RENAME: i64 = 82;
    pub const LINK: i64 = 86;
    pub const UNLINK: i64 = 87;
    pub const OPENAT: i64 = 257;
}

#[derive(Clone, Copy, PartialEq)]
enum Fault {
    None,
    Crash(usize),
    CrashMid(usize),
    Err(usize),
    Short(usize),
}

struct Watch {
    target: String,
    dir: String,
    fault: Fault,
    count: usize,
    child: bool,
    docs: HashMap<i64, Value>,
    log: Vec<Value>,
}

thread_local! {
    static WATCH: RefCell<Option<Watch>> = const { RefCell::new(None) };
}

enum Act {
    Pass,
    Fail,
    Half,
    HalfExit,
}

fn finish_child(w: &Watch) -> ! {
    let _ = std::fs::write(format!("{}.calls", w.dir), json!(w.log).to_string());
    unsafe { _exit(77) }
}

/// Decides what happens with this call. Calls not concerning the scratch directory pass.
fn before(path: &str) -> (bool, Act) {
    let w = WATCH.with(|w| w.borrow_mut().take());
    let mut w = match w {
        Some(w) => w,
        None => return (false, Act::Pass),
    };
    if !path.starts_with(&w.dir) {
        WATCH.with(|c| *c.borrow_mut() = Some(w));
        return (false, Act::Pass);
    }
    w.count += 1;
    let k = w.count;
    let act = match w.fault {
        Fault::Crash(n) if n == k && w.child => finish_child(&w),
        Fault::CrashMid(n) if n == k && w.child => Act::HalfExit,
        Fault::Err(n) if n == k => Act::Fail,
        Fault::Short(n) if n == k => Act::Half,
        _ => Act::Pass,
    };
    WATCH.with(|c| *c.borrow_mut() = Some(w));
    (true, act)
}

fn after(name: &str, path: &str, crash: bool) {
    let w = WATCH.with(|w| w.borrow_mut().take());
    if let Some(mut w) = w {
        let st = classify(&w.target, &w.docs);
        w.log.push(json!([name, (path == w.target) as i64, st]));
        if crash {
            finish_child(&w);
        }
        WATCH.with(|c| *c.borrow_mut() = Some(w));
    }
}

unsafe fn fail(e: c_int) -> c_long {
    *__errno_location() = e;
    -1
}

unsafe fn path_call<F: FnOnce() -> c_long>(name: &str, p: *const c_char, f: F) -> c_long {
    crate::util::tally_call();
    let path = CStr::from_ptr(p).to_string_lossy().to_string();
    let (mine, act) = before(&path);
    if !mine {
        return f();
    }
    let r = match act {
        Act::Fail => fail(28),
        _ => f(),
    };
    let e = *__errno_location();
    after(name, &path, matches!(act, Act::HalfExit));
    *__errno_location() = e;
    r
}

unsafe fn fd_call<F: FnOnce(usize) -> c_long>(name: &str, fd: c_int, n: usize, f: F) -> c_long {
    crate::util::tally_call();
    let armed = WATCH.with(|w| w.try_borrow().map(|w| w.is_some()).unwrap_or(false));
    if !armed {
        return f(n);
    }
    let path = std::fs::read_link(format!("/proc/self/fd/{}", fd))
        .map(|p| p.to_string_lossy().to_string())
        .unwrap_or_default();
    let (mine, act) = before(&path);
    if !mine {
        return f(n);
    }
    let r = match act {
        Act::Fail => fail(28),
        Act::Half | Act::HalfExit => f((n + 1) / 2),
        Act::Pass => f(n),
    };
    let e = *__errno_location();
    after(name, &path, matches!(act, Act::HalfExit));
    *__errno_location() = e;
    r
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    fd_call("write", fd, n, |n| syscall(nr::WRITE, fd as c_long, buf, n)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, o: i64) -> isize {
    fd_call("pwrite", fd, n, |n| syscall(nr::PWRITE64, fd as c_long, buf, n, o)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const c_void, n: c_int) -> isize {
    fd_call("writev", fd, n as usize, |n| syscall(nr::WRITEV, fd as c_long, iov, n)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    fd_call("fsync", fd, 0, |_| syscall(nr::FSYNC, fd as c_long)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fd_call("fdatasync", fd, 0, |_| syscall(nr::FDATASYNC, fd as c_long)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, l: i64) -> c_int {
    fd_call("ftruncate", fd, 0, |_| syscall(nr::FTRUNCATE, fd as c_long, l)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, l: i64) -> c_int {
    path_call("truncate", p, || syscall(nr::TRUNCATE, p, l)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    path_call("open", p, || syscall(nr::OPEN, p, fl as c_long, mode as c_long)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    path_call("open", p, || syscall(nr::OPENAT, d as c_long, p, fl as c_long, mode as c_long)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    path_call("rename", b, || syscall(nr::RENAME, a, b)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    path_call("link", b, || syscall(nr::LINK, a, b)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    path_call("unlink", a, || syscall(nr::UNLINK, a)) as c_int
}

/// The version of the patch in the file: -1 if there is none, -2 if it is not a complete patch
/// that was saved here.
fn classify(path: &str, docs: &HashMap<i64, Value>) -> i64 {
    let data = match std::fs::read(path) {
        Ok(d) => d,
        Err(_) => return -1,
    };
    let v: Value = match serde_json::from_slice(&data) {
        Ok(v) => v,
        Err(_) => return -2,
    };
    for (k, d) in docs.iter() {
        if *d == v {
            return *k;
        }
    }
    -2
}

struct Sav {
    e: Eng,
    dir: String,
    docs: HashMap<i64, Value>,
    ver: i64,
}

impl Sav {
    fn path(&self, f: &Value) -> String {
        format!("{}/{}", self.dir, s(f))
    }

    fn step(&mut self, op: &Value) -> Value {
        match s(&op["op"]) {
            "edit" => {
                self.ver = i(&op["v"]);
                self.e.m.set_prop("ver", SAtom::setting(self.ver));
                self.e.m.set_prop("fill", SAtom::str(&"x".repeat(u(&op["len"]))));
                json!({})
            }
            "save" => {
                let p = self.path(&op["f"]);
                let doc: Value = serde_json::from_slice(&hexodsp::save_patch_to_mem(&mut self.e.m)).unwrap();
                self.docs.insert(self.ver, doc);
                let k = u(&op["k"]);
                let fault = match s(&op["fault"]) {
                    "none" => Fault::None,
                    "crash" => Fault::Crash(k),
                    "mid" => Fault::CrashMid(k),
                    "err" => Fault::Err(k),
                    "short" => Fault::Short(k),
                    o => panic!("harness: fault {}", o),
                };
                let child = matches!(fault, Fault::Crash(_) | Fault::CrashMid(_));
                let w = Watch {
                    target: p.clone(),
                    dir: self.dir.clone(),
                    fault,
                    count: 0,
                    child,
                    docs: self.docs.clone(),
                    log: vec![],
                };
                let (r, log);
                if child {
                    let cf = format!("{}.calls", self.dir);
                    let _ = std::fs::remove_file(&cf);
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        WATCH.with(|c| *c.borrow_mut() = Some(w));
                        let r = hexodsp::save_patch_to_file(&mut self.e.m, &p);
                        let w = WATCH.with(|c| c.borrow_mut().take()).unwrap();
                        let _ = std::fs::write(&cf, json!(w.log).to_string());
                        unsafe { _exit(if r.is_ok() { 0 } else { 1 }) }
                    }
                    let mut st: c_int = 0;
                    unsafe { waitpid(pid, &mut st, 0) };
                    r = match st {
                        0 => "ok",
                        0x100 => "err",
                        0x4d00 => "crashed",
                        _ => panic!("save died with status {}", st),
                    };
                    log = serde_json::from_slice(&std::fs::read(&cf).unwrap()).unwrap();
                    let _ = std::fs::remove_file(&cf);
                } else {
                    WATCH.with(|c| *c.borrow_mut() = Some(w));
                    let x = hexodsp::save_patch_to_file(&mut self.e.m, &p);
                    let w = WATCH.with(|c| c.borrow_mut().take()).unwrap();
                    r = if x.is_ok() { "ok" } else { "err" };
                    log = json!(w.log);
                }
                json!({"res": r, "log": log, "st": classify(&p, &self.docs), "ver": self.ver})
            }
            "load" => {
                let p = self.path(&op["f"]);
                let x = hexodsp::load_patch_from_file(&mut self.e.m, &p);
                let v = self.e.m.get_prop("ver").map(|a| a.i()).unwrap_or(-1);
                self.ver = v;
                json!({"res": if x.is_ok() { "ok" } else { "err" }, "ver": v})
            }
            "ls" => {
                let mut out = vec![];
                for f in op["fs"].as_array().unwrap() {
                    out.push(json!([f, classify(&self.path(f), &self.docs)]));
                }
                json!({"is": out})
            }
            o => panic!("harness: unknown op {}", o),
        }
    }
}

pub fn run(script: &Value) -> Value {
    let base = std::env::var("HEXO_SCRATCH").unwrap_or("/tmp/hexoscratch".to_string());
    let dir = format!("{}/sav", base);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut p = Sav { e: Eng::new(3, 3, 44100.0), dir, docs: HashMap::new(), ver: -1 };
    let (ev, ok) = drive(script, |op| p.step(op));
    WATCH.with(|c| *c.borrow_mut() = None);
    let _ = std::fs::remove_dir_all(&p.dir);
    if ok {
        bg_drop(p.e);
    } else {
        std::mem::forget(p.e);
    }
    trace(script, ev)
}
