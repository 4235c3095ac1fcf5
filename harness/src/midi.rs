// MIDI family: host and injected MIDI events, MidiP and MidiCC nodes.
use crate::util::*;
use hexodsp::dsp::{DynNode1x1Context, NodeId, SAtom};
use hexodsp::matrix::{Cell, CellDir, Matrix, MatrixObserver};
use hexodsp::nodes::{new_node_engine, EventWindowing, HxMidiEvent, HxTimedEvent, NodeExecutor};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

#[derive(Default)]
struct Obs {
    got: Mutex<Vec<Value>>,
}

impl MatrixObserver for Obs {
    fn update_param(&self, _p: &hexodsp::ParamId) {}
    fn update_prop(&self, _key: &str) {}
    fn update_monitor(&self, _cell: &Cell) {}
    fn update_matrix(&self) {}
    fn update_all(&self) {}
    fn midi_event(&self, e: HxMidiEvent) {
        self.got.lock().unwrap().push(match e {
            HxMidiEvent::NoteOn { channel, note, vel } => json!(["on", channel, note, fx(vel)]),
            HxMidiEvent::NoteOff { channel, note } => json!(["off", channel, note, 0]),
            HxMidiEvent::CC { channel, cc, value } => json!(["cc", channel, cc, fx(value)]),
        });
    }
}

pub fn event(v: &[Value]) -> HxMidiEvent {
    let (channel, n) = (u(&v[1]) as u8, u(&v[2]) as u8);
    match s(&v[0]) {
        "on" => HxMidiEvent::NoteOn { channel, note: n, vel: unfx(i(&v[3])) },
        "off" => HxMidiEvent::NoteOff { channel, note: n },
        _ => HxMidiEvent::CC { channel, cc: n, value: unfx(i(&v[3])) },
    }
}

type Buf = Arc<Mutex<Vec<Vec<f32>>>>;

struct Midi {
    m: Matrix,
    ex: NodeExecutor,
    obs: Arc<Obs>,
    buf: Buf,
    np: usize,
    nc: usize,
}

fn rle(b: &[f32]) -> Value {
    let mut v = vec![];
    for (f, x) in b.iter().enumerate() {
        if f == 0 || b[f - 1].to_bits() != x.to_bits() {
            v.push(json!([f, fx(*x)]));
        }
    }
    json!(v)
}

impl Midi {
    fn new(cfg: &Value) -> Self {
        let sr = u(&cfg["sr"]) as f32;
        let (nc, mut ex) = new_node_engine();
        ex.set_sample_rate(sr);
        let ps = cfg["p"].as_array().unwrap();
        let cs = cfg["c"].as_array().unwrap();
        let cnt = ps.len() + cs.len();
        let mut m = Matrix::new(nc, 3 * cnt + 2, 6);
        let obs = Arc::new(Obs::default());
        m.set_observer(obs.clone());
        let buf: Buf = Arc::new(Mutex::new(vec![vec![]; 3 * cnt]));
        for k in 0..cnt {
            let id = if k < ps.len() { NodeId::MidiP(k as u8) } else { NodeId::MidiCC((k - ps.len()) as u8) };
            let (x, y) = (3 * k + 1, 2);
            m.place(x, y, Cell::empty(id).out(Some(0), Some(1), Some(2)));
            for (o, d) in [CellDir::TR, CellDir::BR, CellDir::B].iter().enumerate() {
                let inst = 3 * k + o;
                let mut c = Cell::empty(NodeId::Rust1x1(inst as u8));
                c.set_io_dir(d.flip(), 0);
                let (px, py) = d.offs_pos((x, y)).unwrap();
                m.place(px, py, c);
            }
        }
        m.sync().unwrap();
        for inst in 0..3 * cnt {
            let b = buf.clone();
            m.set_dynamic_node1x1(
                inst,
                Box::new(move |inp: &[f32], _out: &mut [f32], _ctx: &DynNode1x1Context| {
                    b.lock().unwrap()[inst].extend_from_slice(inp);
                }),
            );
        }
        let ms = 1000.0 / sr;
        for (k, p) in ps.iter().enumerate() {
            let id = NodeId::MidiP(k as u8);
            m.set_param(id.inp_param("chan").unwrap(), SAtom::setting(i(&p["chan"])));
            m.set_param(id.inp_param("gmode").unwrap(), SAtom::setting(i(&p["mode"])));
            let g = id.inp_param("glen").unwrap();
            m.set_param(g, SAtom::param(g.norm((u(&p["glen"]) as f32 - 0.5) * ms)));
            m.set_param(id.inp_param("det").unwrap(), SAtom::param(unfx(i(&p["det"]))));
        }
        for (k, c) in cs.iter().enumerate() {
            let id = NodeId::MidiCC(k as u8);
            m.set_param(id.inp_param("chan").unwrap(), SAtom::setting(i(&c["chan"])));
            for (j, n) in ["cc1", "cc2", "cc3"].iter().enumerate() {
                m.set_param(id.inp_param(n).unwrap(), SAtom::setting(i(&c["ccs"][j])));
            }
            let step = i(&c["step"]);
            let p = id.inp_param("slew").unwrap();
            let slew = if step == 0 { 0.0 } else { ms * 4096.0 / step as f32 };
            m.set_param(p, SAtom::param(p.norm(slew)));
        }
        ex.process_graph_updates();
        let mut c = Self { m, ex, obs, buf, np: ps.len(), nc: cs.len() };
        // until the parameters have settled
        for _ in 0..2 + (sr as usize / 50) / 128 {
            c.host(128, &[]);
        }
        c
    }

    fn host(&mut self, n: usize, evs: &[HxTimedEvent]) {
        for b in self.buf.lock().unwrap().iter_mut() {
            b.clear();
        }
        let inp = vec![0.0f32; n];
        let (mut ol, mut or) = (vec![0.0f32; n], vec![0.0f32; n]);
        let mut win = EventWindowing::new();
        let mut idx = 0;
        let mut offs = 0;
        while offs < n {
            let cur = (n - offs).min(128);
            self.ex.feed_midi_events_from(|| {
                if win.feed_me() {
                    if idx >= evs.len() {
                        return None;
                    }
                    win.feed(evs[idx]);
                    idx += 1;
                }
                win.next_event_in_range(offs, cur)
            });
            let mut ctx = Ctx {
                n: cur,
                out: [&mut ol[offs..offs + cur], &mut or[offs..offs + cur]],
                inp: [&inp[offs..offs + cur], &inp[offs..offs + cur]],
            };
            self.ex.process(&mut ctx);
            offs += cur;
        }
    }

    fn step(&mut self, op: &Value) -> Value {
        match s(&op["op"]) {
            "inject" => {
                self.m.inject_midi_event(event(op["ev"].as_array().unwrap()));
                json!({})
            }
            "setp" => {
                let id = NodeId::MidiP(u(&op["i"]) as u8 - 1);
                self.m.set_param(id.inp_param("chan").unwrap(), SAtom::setting(i(&op["v"])));
                json!({})
            }
            "setc" => {
                let id = NodeId::MidiCC(u(&op["i"]) as u8 - 1);
                let n = ["chan", "cc1", "cc2", "cc3"][u(&op["k"])];
                self.m.set_param(id.inp_param(n).unwrap(), SAtom::setting(i(&op["v"])));
                json!({})
            }
            "upd" => {
                self.ex.process_graph_updates();
                json!({})
            }
            "host" => {
                let evs: Vec<HxTimedEvent> = op["evs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|e| HxTimedEvent::new_timed(u(&e[0]), event(&e.as_array().unwrap()[1..])))
                    .collect();
                self.host(u(&op["n"]), &evs);
                let b = self.buf.lock().unwrap();
                let p: Vec<Value> = (0..self.np).map(|k| json!([rle(&b[3 * k]), rle(&b[3 * k + 1]), rle(&b[3 * k + 2])])).collect();
                let c: Vec<Value> = (self.np..self.np + self.nc)
                    .map(|k| json!((0..3).map(|o| b[3 * k + o].iter().map(|v| fx(*v)).collect::<Vec<i64>>()).collect::<Vec<_>>()))
                    .collect();
                let lp: Vec<i64> = (0..self.np).map(|k| fx(self.m.led_value_for(&NodeId::MidiP(k as u8)))).collect();
                let lc: Vec<i64> = (0..self.nc).map(|k| fx(self.m.led_value_for(&NodeId::MidiCC(k as u8)))).collect();
                json!({"p": p, "c": c, "ledp": lp, "ledc": lc})
            }
            "events" => {
                self.m.handle_graph_events();
                let got = std::mem::take(&mut *self.obs.got.lock().unwrap());
                json!({"got": got})
            }
            o => panic!("harness: unknown op {}", o),
        }
    }
}

pub fn run(script: &Value) -> Value {
    let mut c = Midi::new(&script["cfg"]);
    let (ev, ok) = drive(script, |op| c.step(op));
    if ok {
        bg_drop(c);
    } else {
        std::mem::forget(c);
    }
    trace(script, ev)
}
