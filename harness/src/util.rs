use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn note_panic(info: &std::panic::PanicHookInfo) {
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    };
    let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} @ {}", msg, loc));
}

/// Runs f, turning a panic of the code under test into data.
pub fn guard<R, F: FnOnce() -> R>(f: F) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Fixed point: 1/4096 units, rounded.  Anything that does not fit is reported as such.
pub fn fx(v: f32) -> i64 {
    if !v.is_finite() {
        return 2_000_000_001;
    }
    let x = (v as f64 * 4096.0).round();
    if x.abs() > 2.0e9 {
        2_000_000_000
    } else {
        x as i64
    }
}

pub fn unfx(v: i64) -> f32 {
    (v as f64 / 4096.0) as f32
}

pub fn i(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("harness: not an int: {}", v))
}

pub fn u(v: &Value) -> usize {
    i(v) as usize
}

pub fn s(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("harness: not a string: {}", v))
}

/// Drops something in the background.
/// The caller gives up the only handle, so it does not matter that some parts are not Send.
pub fn bg_drop<T: 'static>(t: T) {
    struct All<T>(T);
    unsafe impl<T> Send for All<T> {}
    let t = All(t);
    std::thread::spawn(move || {
        let t = t;
        drop(t)
    });
}

pub struct Ctx<'a> {
    pub n: usize,
    pub out: [&'a mut [f32]; 2],
    pub inp: [&'a [f32]; 2],
}

impl<'a> hexodsp::nodes::NodeAudioContext for Ctx<'a> {
    fn nframes(&self) -> usize {
        self.n
    }
    fn output(&mut self, channel: usize, frame: usize, v: f32) {
        self.out[channel][frame] = v;
    }
    fn input(&mut self, channel: usize, frame: usize) -> f32 {
        self.inp[channel][frame]
    }
}

pub fn merge(a: &Value, b: Value) -> Value {
    let mut m = a.as_object().unwrap().clone();
    for (k, v) in b.as_object().unwrap() {
        m.insert(k.clone(), v.clone());
    }
    Value::Object(m)
}

pub fn trace(script: &Value, ev: Vec<Value>) -> Value {
    json!({"id": script["id"], "cfg": script["cfg"], "ev": ev})
}

// What happens on the audio side: memory taken, memory given back, calls that touch files or output.
thread_local! {
    static AUDIO: Cell<bool> = const { Cell::new(false) };
    static SEEN: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<[u64; 3]> = const { Cell::new([0; 3]) };
}

fn tally(k: usize) {
    if AUDIO.try_with(|a| a.get()).unwrap_or(false) {
        let _ = COUNT.try_with(|c| {
            let mut v = c.get();
            v[k] += 1;
            c.set(v);
        });
    }
}

pub fn tally_call() {
    tally(2)
}

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tally(0);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tally(0);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tally(0);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        tally(1);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

struct Mode(bool);
impl Drop for Mode {
    fn drop(&mut self) {
        AUDIO.with(|a| a.set(self.0));
    }
}

/// Runs f as the audio side.
pub fn audio<R, F: FnOnce() -> R>(f: F) -> R {
    SEEN.with(|s| s.set(true));
    let _m = Mode(AUDIO.with(|a| a.replace(true)));
    f()
}

/// Runs f as part of the harness (called from within the audio side).
pub fn aside<R, F: FnOnce() -> R>(f: F) -> R {
    let _m = Mode(AUDIO.with(|a| a.replace(false)));
    f()
}

/// What was counted since the last call, if the audio side ran.
pub fn tallied() -> Option<[u64; 3]> {
    let c = COUNT.with(|c| c.replace([0; 3]));
    if SEEN.with(|s| s.replace(false)) { Some(c.map(|v| v.min(1_000_000))) } else { None }
}

/// Runs every operation of a script; a panic of the code under test ends the script.
pub fn drive<F: FnMut(&Value) -> Value>(script: &Value, mut step: F) -> (Vec<Value>, bool) {
    let mut ev = vec![];
    let rt = script["cfg"]["rt"] == json!(1);
    tallied();
    for op in script["ops"].as_array().unwrap() {
        let r = guard(|| step(op));
        let n = tallied();
        match r {
            Ok(v) => {
                let mut e = merge(op, v);
                if let (true, Some(n)) = (rt, n) {
                    e["rt"] = json!(n);
                }
                ev.push(e)
            }
            Err(p) => {
                if p.contains("harness:") {
                    eprintln!("{}", p);
                    std::process::exit(3);
                }
                ev.push(merge(op, json!({"panic": p})));
                return (ev, false);
            }
        }
    }
    (ev, true)
}
