// Tracker / sequencer family: a pattern edited by the frontend and played by the
// sequencer backend, either directly ("raw") or through a matrix with a TSeq node ("mx").
use crate::eng::Eng;
use crate::util::*;
use hexodsp::dsp::tracker::{PatternData, Tracker, TrackerBackend, UIPatternModel};
use hexodsp::{Cell, NodeId};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

enum Mode {
    Raw(Tracker, TrackerBackend),
    Mx(Eng, Arc<Mutex<f32>>),
}

struct Trk {
    m: Mode,
}

fn sc(v: f32) -> i64 {
    if !v.is_finite() {
        return 2_000_000_001;
    }
    let x = (v as f64 * 65520.0).round();
    if x.abs() > 2.0e9 { 2_000_000_000 } else { x as i64 }
}

fn build_mx(e: &mut Eng, phase: &Arc<Mutex<f32>>) {
    let tseq = NodeId::TSeq(0);
    e.m.place(0, 0, Cell::empty(NodeId::Rust1x1(0)).out(None, None, Some(0)));
    e.m.place(0, 1, Cell::empty(tseq).input(tseq.inp("clock"), None, None));
    e.m.sync().unwrap();
    e.m.set_param(tseq.inp_param("cmode").unwrap(), hexodsp::SAtom::setting(2));
    let ph = phase.clone();
    e.m.set_dynamic_node1x1(
        0,
        Box::new(move |_i: &[f32], out: &mut [f32], _c: &hexodsp::DynNode1x1Context| {
            let p = *ph.lock().unwrap();
            out.iter_mut().for_each(|o| *o = p);
        }),
    );
    e.ex.process_graph_updates();
}

impl Trk {
    fn data(&self) -> Arc<Mutex<PatternData>> {
        match &self.m {
            Mode::Raw(t, _) => t.data(),
            Mode::Mx(e, _) => e.m.get_pattern_data(0).unwrap(),
        }
    }

    fn send(&mut self) -> bool {
        match &mut self.m {
            Mode::Raw(t, _) => t.send_one_update(),
            Mode::Mx(e, _) => {
                e.m.check_pattern_data(0);
                false
            }
        }
    }

    fn recv(&mut self) -> bool {
        match &mut self.m {
            Mode::Raw(_, b) => b.check_updates(),
            Mode::Mx(e, _) => {
                e.block(16);
                false
            }
        }
    }

    /// exchanges updates until nothing is left to exchange
    fn settle(&mut self) {
        match &self.m {
            Mode::Raw(..) => {
                for _ in 0..200 {
                    let a = self.send();
                    let b = self.recv();
                    if !a && !b {
                        break;
                    }
                }
            }
            Mode::Mx(..) => {
                // drain what is queued, then send every column and drain again
                for _ in 0..66 {
                    self.recv();
                }
                for _ in 0..8 {
                    self.send();
                    self.recv();
                }
                for _ in 0..2 {
                    self.recv();
                }
            }
        }
    }

    fn at(&mut self, row: i64, sub: i64, rows: i64) -> (Vec<i64>, Vec<i64>) {
        let phase = ((row * 16 + sub) as f64 + 0.5) / (rows as f64 * 16.0);
        let phase = phase as f32;
        let mut vo = vec![];
        let mut go = vec![];
        match &mut self.m {
            Mode::Raw(_, b) => {
                for col in 0..6 {
                    let mut out = [-7.0f32; 2];
                    let mut gate = [-7.0f32; 2];
                    b.get_col_at_phase(col, &[phase, phase], &mut out, &mut gate);
                    vo.push(sc(out[1]));
                    go.push(sc(gate[1]) / 65520);
                }
            }
            Mode::Mx(e, ph) => {
                *ph.lock().unwrap() = phase;
                e.block(8);
                e.m.update_output_feedback();
                for col in 0..6 {
                    let t = e.m.out_fb_for(&NodeId::TSeq(0), col as u8).unwrap_or(-7.0);
                    let g = e.m.out_fb_for(&NodeId::TSeq(0), 6 + col as u8).unwrap_or(-7.0);
                    vo.push(sc(t));
                    go.push(sc(g) / 65520);
                }
            }
        }
        (vo, go)
    }

    fn step(&mut self, op: &Value) -> Value {
        match s(&op["op"]) {
            "set" => {
                self.data().lock().unwrap().set_cell_value(u(&op["r"]), u(&op["c"]), u(&op["v"]) as u16);
                json!({})
            }
            "clr" => {
                self.data().lock().unwrap().clear_cell(u(&op["r"]), u(&op["c"]));
                json!({})
            }
            "chg" => {
                let d = self.data();
                let mut d = d.lock().unwrap();
                let d: &mut dyn UIPatternModel = &mut *d;
                d.change_value(u(&op["r"]), u(&op["c"]), i(&op["v"]) as i16);
                json!({})
            }
            "type" => {
                let d = self.data();
                let mut d = d.lock().unwrap();
                let c = u(&op["c"]);
                match s(&op["t"]) {
                    "note" => d.set_col_note_type(c),
                    "step" => d.set_col_step_type(c),
                    "value" => d.set_col_value_type(c),
                    _ => d.set_col_gate_type(c),
                }
                json!({})
            }
            "rows" => {
                self.data().lock().unwrap().set_rows(u(&op["n"]));
                json!({})
            }
            "send" => {
                for _ in 0..u(&op["k"]) {
                    self.send();
                }
                json!({})
            }
            "recv" => {
                for _ in 0..u(&op["k"]) {
                    self.recv();
                }
                json!({})
            }
            "backend" => {
                match &mut self.m {
                    Mode::Raw(t, b) => *b = t.get_backend(),
                    Mode::Mx(e, ph) => {
                        e.m.clear();
                        build_mx(e, ph);
                    }
                }
                json!({})
            }
            "load" => {
                // a pattern taken from another tracker replaces the current one
                let mut o = Tracker::new();
                let od = o.data();
                {
                    let mut od = od.lock().unwrap();
                    od.set_rows(u(&op["n"]));
                    for (c, t) in op["types"].as_array().unwrap().iter().enumerate() {
                        match s(t) {
                            "note" => od.set_col_note_type(c),
                            "step" => od.set_col_step_type(c),
                            "value" => od.set_col_value_type(c),
                            _ => od.set_col_gate_type(c),
                        }
                    }
                    for c in op["cells"].as_array().unwrap() {
                        od.set_cell_value(u(&c[0]), u(&c[1]), u(&c[2]) as u16);
                    }
                }
                let repr = od.lock().unwrap().to_repr();
                self.data().lock().unwrap().from_repr(&repr);
                let _ = o.send_one_update();
                json!({})
            }
            "settle" => {
                self.settle();
                let rows = i(&op["rows"]);
                let mut v = vec![];
                for q in op["at"].as_array().unwrap() {
                    let (vals, gates) = self.at(i(&q[0]), i(&q[1]), rows);
                    v.push(json!({"r": q[0], "s": q[1], "v": vals, "g": gates}));
                }
                json!({"got": v})
            }
            "cells" => {
                let d = self.data();
                let mut d = d.lock().unwrap();
                let mut v = vec![];
                for q in op["at"].as_array().unwrap() {
                    let (r, c) = (u(&q[0]), u(&q[1]));
                    let txt = d.get_cell(r, c).map(|x| i64::from_str_radix(x, 16).unwrap_or(-2)).unwrap_or(-1);
                    v.push(json!([r, c, txt, d.get_cell_value(r, c)]));
                }
                let ts: Vec<&str> = (0..6)
                    .map(|c| if d.is_col_note(c) { "note" } else if d.is_col_step(c) { "step" } else if d.is_col_gate(c) { "gate" } else { "value" })
                    .collect();
                json!({"got": v, "rows": d.rows(), "types": ts})
            }
            x => panic!("harness: unknown op {}", x),
        }
    }
}

pub fn run(script: &Value) -> Value {
    let m = if s(&script["cfg"]["mode"]) == "raw" {
        let mut t = Tracker::new();
        let b = t.get_backend();
        Mode::Raw(t, b)
    } else {
        let mut e = Eng::new(3, 3, 44100.0);
        let ph = Arc::new(Mutex::new(0.0));
        build_mx(&mut e, &ph);
        Mode::Mx(e, ph)
    };
    let mut t = Trk { m };
    let (ev, ok) = drive(script, |op| t.step(op));
    if !ok {
        std::mem::forget(t);
        return trace(script, ev);
    }
    if let Mode::Mx(e, _) = t.m {
        bg_drop(e);
    }
    trace(script, ev)
}
