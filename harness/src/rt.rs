// Ownership family: what the audio side holds, hands over and gives up, and what it does meanwhile.
use crate::eng::{cell, nid, res, Ext};
use crate::midi::event;
use crate::util::*;
use hexodsp::dsp::SAtom;
use hexodsp::matrix::{Cell, Matrix};
use hexodsp::nodes::{HxTimedEvent, NodeExecutor};
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::{new_node_engine, DynNode1x1Context, NodeGlobalRef};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Weak};
use std::time::{Duration, Instant};

struct Rt {
    m: Matrix,
    ex: NodeExecutor,
    g: NodeGlobalRef,
    smp: BTreeMap<i64, Weak<Vec<f32>>>,
    funs: BTreeMap<i64, Weak<()>>,
    pats: Vec<usize>,
    code: Vec<usize>,
    log: bool,
    o: [Vec<f32>; 2],
    i: Vec<f32>,
}

fn audio_block(ex: &mut NodeExecutor, o: &mut [Vec<f32>; 2], i: &[f32], n: usize) {
    let (a, b) = o.split_at_mut(1);
    let mut ctx = Ctx { n, out: [&mut a[0][..n], &mut b[0][..n]], inp: [&i[..n], &i[..n]] };
    audio(|| ex.process(&mut ctx));
}

struct Ptr(*mut Rt);
unsafe impl Send for Ptr {}

impl Rt {
    fn new(cfg: &Value) -> Self {
        let (nc, mut ex) = new_node_engine();
        ex.set_sample_rate(i(&cfg["sr"]) as f32);
        ex.set_external_params(Arc::new(Ext));
        if cfg["log"] == json!(0) {
            ex.no_logging();
        }
        let g = nc.get_node_global();
        let m = Matrix::new(nc, u(&cfg["w"]), u(&cfg["h"]));
        let noise = |k: u32| -> Vec<f32> {
            let mut x = k;
            (0..128)
                .map(|_| {
                    x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                    (x >> 8) as f32 / 8388608.0 - 1.0
                })
                .collect()
        };
        Self {
            m, ex, g,
            smp: BTreeMap::new(),
            funs: BTreeMap::new(),
            pats: vec![],
            code: vec![],
            log: cfg["log"] == json!(1),
            o: [vec![0.0; 128], vec![0.0; 128]],
            i: noise(7),
        }
    }

    fn live(&self) -> (Vec<i64>, Vec<i64>) {
        (
            self.smp.iter().filter(|(_, w)| w.strong_count() > 0).map(|(k, _)| *k).collect(),
            self.funs.iter().filter(|(_, w)| w.strong_count() > 0).map(|(k, _)| *k).collect(),
        )
    }

    fn pattern(&mut self, op: &Value) {
        let inst = u(&op["i"]);
        let d = self.m.get_pattern_data(inst).unwrap();
        {
            let mut d = d.lock().unwrap();
            if let Some(r) = op["rows"].as_i64() {
                d.set_rows(r as usize);
            }
            for c in op["types"].as_array().unwrap() {
                let k = u(&c[0]);
                match i(&c[1]) {
                    0 => d.set_col_note_type(k),
                    1 => d.set_col_step_type(k),
                    2 => d.set_col_gate_type(k),
                    _ => d.set_col_value_type(k),
                }
            }
            for c in op["cells"].as_array().unwrap() {
                d.set_cell_value(u(&c[0]), u(&c[1]), u(&c[2]) as u16);
            }
        }
        if !self.pats.contains(&inst) {
            self.pats.push(inst);
        }
    }

    fn step(&mut self, op: &Value) -> Value {
        match s(&op["op"]) {
            "change" => {
                let cells: Vec<Cell> = op["cells"].as_array().unwrap().iter().map(cell).collect();
                let r = self.m.change_matrix(|m| {
                    for c in cells.iter() {
                        m.place(c.pos().0, c.pos().1, *c);
                    }
                });
                let res = if r.is_ok() { res(self.m.sync()) } else { res(r) };
                json!({ "res": res })
            }
            "clear" => {
                self.m.clear();
                json!({})
            }
            "setp" => {
                let p = nid(&op["p"]).param_by_idx(u(&op["p"][2])).unwrap();
                self.m.set_param(p, SAtom::param(unfx(i(&op["v"]))));
                json!({})
            }
            "seta" => {
                let p = nid(&op["p"]).param_by_idx(u(&op["p"][2])).unwrap();
                self.m.set_param(p, SAtom::setting(i(&op["v"])));
                json!({})
            }
            "mod" => {
                let p = nid(&op["p"]).param_by_idx(u(&op["p"][2])).unwrap();
                let a = i(&op["a"]);
                let r = self.m.set_param_modamt(p, if a == -999 { None } else { Some(a as f32 / 256.0) });
                json!({"res": res(r)})
            }
            "smp" => {
                let p = nid(&op["n"]).inp_param("sample").unwrap();
                let k = i(&op["k"]);
                let mut d = vec![44100.0];
                d.extend((0..u(&op["len"])).map(|x| ((x * 37) % 101) as f32 / 101.0));
                // a sample that is in use somewhere may be set in several places
                let a = match self.smp.get(&k).and_then(|w| w.upgrade()) {
                    Some(a) => a,
                    None => Arc::new(d),
                };
                self.smp.insert(k, Arc::downgrade(&a));
                self.m.set_param(p, SAtom::audio("x.wav", a));
                json!({})
            }
            "nosmp" => {
                let p = nid(&op["n"]).inp_param("sample").unwrap();
                self.m.set_param(p, SAtom::audio_unloaded("y.wav"));
                json!({})
            }
            "dyn" => {
                let k = i(&op["k"]);
                let probe = Arc::new(());
                self.funs.insert(k, Arc::downgrade(&probe));
                self.m.set_dynamic_node1x1(
                    u(&op["i"]),
                    Box::new(move |inp: &[f32], out: &mut [f32], _c: &DynNode1x1Context| {
                        let _ = &probe;
                        out.copy_from_slice(inp);
                    }),
                );
                json!({})
            }
            "pat" => {
                self.pattern(op);
                json!({})
            }
            "chkpat" => {
                self.m.check_pattern_data(u(&op["i"]));
                json!({})
            }
            "code" => {
                let inst = u(&op["i"]);
                let bf = self.m.get_block_function(inst).unwrap();
                {
                    let mut bf = bf.lock().unwrap();
                    for b in op["put"].as_array().unwrap() {
                        let _ = bf.instanciate_at(0, i(&b[0]), i(&b[1]), s(&b[2]), None);
                    }
                    for b in op["rm"].as_array().unwrap() {
                        let _ = bf.remove_at(0, i(&b[0]), i(&b[1]));
                    }
                }
                if !self.code.contains(&inst) {
                    self.code.push(inst);
                }
                let r = self.m.check_block_function(inst);
                json!({"res": if r.is_ok() { "ok" } else { "err" }})
            }
            "mon" => {
                let c = self.m.get_copy(u(&op["x"]), u(&op["y"])).unwrap();
                self.m.monitor_cell(c);
                json!({})
            }
            "inject" => {
                self.m.inject_midi_event(event(op["ev"].as_array().unwrap()));
                json!({})
            }
            "events" => {
                self.m.handle_graph_events();
                self.m.update_filters();
                json!({})
            }
            "upd" => {
                audio(|| self.ex.process_graph_updates());
                json!({})
            }
            "midi" => {
                let evs: Vec<HxTimedEvent> = op["evs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|e| HxTimedEvent::new_timed(u(&e[0]), event(&e.as_array().unwrap()[1..])))
                    .collect();
                let rep = u(&op["rep"]);
                let (mut k, n) = (0, evs.len() * rep);
                audio(|| {
                    self.ex.feed_midi_events_from(|| {
                        k += 1;
                        if k > n { None } else { Some(evs[(k - 1) % evs.len()]) }
                    })
                });
                json!({})
            }
            "blk" => {
                for n in op["ns"].as_array().unwrap() {
                    audio_block(&mut self.ex, &mut self.o, &self.i, u(n));
                }
                json!({})
            }
            // the audio side runs while the user interface holds whatever it can hold
            "held" => {
                let pats: Vec<_> = self.pats.iter().filter_map(|p| self.m.get_pattern_data(*p)).collect();
                let code: Vec<_> = self.code.iter().filter_map(|c| self.m.get_block_function(*c)).collect();
                let g = self.g.clone();
                let me = Ptr(self as *mut Rt);
                let log = self.log;
                let (tx, rx) = std::sync::mpsc::channel();
                let blocks: Vec<usize> = op["ns"].as_array().unwrap().iter().map(u).collect();
                let g1 = g.lock().unwrap();
                let g2: Vec<_> = pats.iter().map(|p| p.lock().unwrap()).collect();
                let g3: Vec<_> = code.iter().map(|p| p.lock().unwrap()).collect();
                let th = std::thread::spawn(move || {
                    let me = me;
                    let rt = unsafe { &mut *{ me }.0 };
                    if log {
                        hexodsp::log::init_thread_logger("held");
                    }
                    tallied();
                    audio(|| rt.ex.process_graph_updates());
                    audio(|| rt.ex.feed_midi_events_from(|| None));
                    for n in blocks {
                        audio_block(&mut rt.ex, &mut rt.o, &rt.i, n);
                    }
                    let t = tallied();
                    let _ = tx.send(());
                    t
                });
                let waits = rx.recv_timeout(Duration::from_secs(5)).is_err();
                drop((g1, g2, g3));
                let t = th.join();
                match t {
                    Ok(t) => json!({"waits": waits as i64, "rt": t.unwrap()}),
                    Err(_) => panic!("on the audio side"),
                }
            }
            // until what was given up is gone
            "settle" => {
                let mut last = self.live();
                let mut t = Instant::now();
                while t.elapsed() < Duration::from_millis(900) {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = self.live();
                    if now != last {
                        last = now;
                        t = Instant::now();
                    }
                }
                json!({"smp": last.0, "funs": last.1})
            }
            // a thread that takes over audio work may set up its log with the first block
            "first" => {
                audio_block(&mut self.ex, &mut self.o, &self.i, 1);
                tallied();
                json!({})
            }
            "rate" => {
                self.ex.set_sample_rate(i(&op["v"]) as f32);
                json!({})
            }
            o => panic!("harness: unknown op {}", o),
        }
    }
}

pub fn run(script: &Value) -> Value {
    let mut c = Box::new(Rt::new(&script["cfg"]));
    let (ev, ok) = drive(script, |op| c.step(op));
    if ok {
        bg_drop(c);
    } else {
        std::mem::forget(c);
    }
    trace(script, ev)
}
