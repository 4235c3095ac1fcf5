// Engine family: Matrix + NodeConfigurator + NodeExecutor.
use crate::util::*;
use hexodsp::dsp::{DynNode1x1Context, NodeId, ParamId, SAtom};
use hexodsp::matrix::{Cell, Matrix, MatrixError, MatrixObserver};
use hexodsp::nodes::{ExternalParams, HxMidiEvent, NodeExecutor};
use hexodsp::{new_node_engine, CellDir, MatrixCellChain};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

pub struct Ext;
impl ExternalParams for Ext {
    fn a1(&self) -> f32 { 0.25 }
    fn a2(&self) -> f32 { 0.5 }
    fn a3(&self) -> f32 { 0.75 }
    fn b1(&self) -> f32 { 0.3125 }
    fn b2(&self) -> f32 { 0.5625 }
    fn b3(&self) -> f32 { 0.8125 }
}

#[derive(Default)]
pub struct Obs {
    pub log: Mutex<Vec<Value>>,
}

impl MatrixObserver for Obs {
    fn update_prop(&self, key: &str) {
        self.log.lock().unwrap().push(json!(["prop", key, 0, 0]));
    }
    fn update_monitor(&self, cell: &Cell) {
        let n = cell.node_id();
        self.log.lock().unwrap().push(json!(["mon", n.name(), n.instance(), 0]));
    }
    fn update_param(&self, p: &ParamId) {
        let n = p.node_id();
        self.log.lock().unwrap().push(json!(["param", n.name(), n.instance(), p.inp()]));
    }
    fn update_matrix(&self) {
        self.log.lock().unwrap().push(json!(["matrix", "", 0, 0]));
    }
    fn update_all(&self) {
        self.log.lock().unwrap().push(json!(["all", "", 0, 0]));
    }
    fn midi_event(&self, _ev: HxMidiEvent) {
        self.log.lock().unwrap().push(json!(["midi", "", 0, 0]));
    }
}

pub fn nid(v: &Value) -> NodeId {
    NodeId::from_str(s(&v[0])).to_instance(u(&v[1]))
}

pub fn pid(v: &Value) -> Option<ParamId> {
    nid(v).param_by_idx(u(&v[2]))
}

fn opt(v: &Value) -> Option<u8> {
    let k = i(v);
    if k < 0 { None } else { Some(k as u8) }
}

pub fn cell(v: &Value) -> Cell {
    let (o, n) = (&v["o"], &v["i"]);
    Cell::empty_at(nid(&v["n"]), u(&v["x"]) as u8, u(&v["y"]) as u8)
        .input(opt(&n[0]), opt(&n[1]), opt(&n[2]))
        .out(opt(&o[0]), opt(&o[1]), opt(&o[2]))
}

fn oj(v: Option<u8>) -> i64 {
    v.map(|k| k as i64).unwrap_or(-1)
}

pub fn cell_json(x: usize, y: usize, c: &Cell) -> Value {
    let p = |d| oj(c.local_port_idx(d));
    json!({"x": x, "y": y, "n": [c.node_id().name(), c.node_id().instance()],
           "o": [p(CellDir::TR), p(CellDir::BR), p(CellDir::B)],
           "i": [p(CellDir::T), p(CellDir::TL), p(CellDir::BL)]})
}

pub fn cells_json(m: &Matrix) -> Value {
    let mut v = vec![];
    m.for_each(|x, y, c| {
        if !c.is_empty() {
            v.push(cell_json(x, y, c));
        }
    });
    json!(v)
}

pub fn res(r: Result<(), MatrixError>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(MatrixError::CycleDetected) => "cycle",
        Err(MatrixError::DuplicatedInput { .. }) => "dup",
        Err(MatrixError::NonEmptyCell { .. }) => "nonempty",
        Err(MatrixError::PosOutOfRange) => "range",
    }
}

pub struct Eng {
    pub m: Matrix,
    pub ex: NodeExecutor,
    pub obs: Arc<Obs>,
    calls: Arc<Mutex<Vec<Value>>>,
    blk: Arc<std::sync::atomic::AtomicUsize>,
    ver: Vec<i64>,
    have: Vec<bool>,
    outbuf: Vec<Vec<f32>>,
}

const NDYN: usize = 24;

pub fn stats(b: &[f32]) -> Value {
    let mut mi = b[0];
    let mut ma = b[0];
    for v in b {
        // NaN must not be hidden by min/max
        if !v.is_finite() {
            mi = *v;
            ma = *v;
            break;
        }
        mi = mi.min(*v);
        ma = ma.max(*v);
    }
    json!([fx(b[0]), fx(b[b.len() - 1]), fx(mi), fx(ma)])
}

impl Eng {
    pub fn new(w: usize, h: usize, sr: f32) -> Self {
        let (nc, mut ex) = new_node_engine();
        ex.set_sample_rate(sr);
        ex.set_external_params(Arc::new(Ext));
        let mut m = Matrix::new(nc, w, h);
        let obs = Arc::new(Obs::default());
        m.set_observer(obs.clone());
        Self {
            m,
            ex,
            obs,
            calls: Arc::new(Mutex::new(vec![])),
            blk: Arc::new(std::sync::atomic::AtomicUsize::new(0)),
            ver: vec![0; NDYN],
            have: vec![false; NDYN],
            outbuf: vec![vec![0.0; 128]; 2],
        }
    }

    pub fn set_dyn(&mut self, inst: usize, ver: i64) {
        let calls = self.calls.clone();
        let blk = self.blk.clone();
        self.m.set_dynamic_node1x1(
            inst,
            Box::new(move |inp: &[f32], out: &mut [f32], ctx: &DynNode1x1Context| {
                let b = blk.load(std::sync::atomic::Ordering::SeqCst);
                let base = (inst as i64 + 1 + 32 * (ver % 2)) as f32 + 64.0 * ((b % 8) as f32);
                calls.lock().unwrap().push(json!({
                    "i": inst, "v": ver, "len": inp.len(),
                    "in": [stats(inp), stats(ctx.alpha_slice()), stats(ctx.beta_slice()),
                           stats(ctx.delta_slice()), stats(ctx.gamma_slice())]}));
                for (f, o) in out.iter_mut().enumerate() {
                    *o = base + (f as f32) / 256.0;
                }
                ctx.led_value().set(base);
                ctx.phase_value().set(base + 0.5);
            }),
        );
    }

    /// A freshly created Rust1x1 node starts with the library's dummy function.
    fn ensure_dyn(&mut self) {
        for inst in 0..NDYN {
            let exists = self.m.unique_index_for(&NodeId::Rust1x1(inst as u8)).is_some();
            if exists && !self.have[inst] {
                let v = self.ver[inst];
                self.set_dyn(inst, v);
            }
            self.have[inst] = exists;
        }
    }

    pub fn block(&mut self, n: usize) -> Value {
        self.blk.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        self.calls.lock().unwrap().clear();
        let inp = vec![0.0f32; n];
        let (a, b) = self.outbuf.split_at_mut(1);
        a[0].iter_mut().for_each(|v| *v = 0.0);
        b[0].iter_mut().for_each(|v| *v = 0.0);
        let mut ctx =
            Ctx { n, out: [&mut a[0][..n], &mut b[0][..n]], inp: [&inp[..], &inp[..]] };
        self.ex.process(&mut ctx);
        let calls: Vec<Value> = std::mem::take(&mut *self.calls.lock().unwrap());
        json!({"calls": calls, "out": [stats(&self.outbuf[0][..n]), stats(&self.outbuf[1][..n])]})
    }

    fn params_json(&self, keys: &Value) -> Value {
        let mut v = vec![];
        for k in keys.as_array().unwrap() {
            let p = pid(k).unwrap();
            let val = match self.m.get_param(&p) {
                Some(at) => fx(at.f()),
                None => -2_000_000_000,
            };
            let ma = match self.m.get_param_modamt(&p) {
                Some(a) => (a * 256.0).round() as i64,
                None => -999,
            };
            v.push(json!([k, val, ma]));
        }
        json!(v)
    }

    pub fn step(&mut self, op: &Value) -> Value {
        match s(&op["op"]) {
            "change" => {
                let cells: Vec<Cell> = op["cells"].as_array().unwrap().iter().map(cell).collect();
                let r = self.m.change_matrix(|m| {
                    for c in cells.iter() {
                        m.place(c.pos().0, c.pos().1, *c);
                    }
                });
                json!({"res": res(r)})
            }
            "placem" => {
                let cells: Vec<Cell> = op["cells"].as_array().unwrap().iter().map(cell).collect();
                let r = self.m.change_matrix_err(|m| m.place_multiple(&cells[..]));
                json!({"res": res(r)})
            }
            "place" => {
                for c in op["cells"].as_array().unwrap() {
                    self.m.place(u(&c["x"]), u(&c["y"]), cell(c));
                }
                json!({})
            }
            "check" => json!({"res": res(self.m.check())}),
            "save" => {
                self.m.save_matrix();
                json!({})
            }
            "restore" => {
                self.m.restore_matrix();
                json!({})
            }
            "sync" => {
                let r = self.m.sync();
                self.ensure_dyn();
                json!({"res": res(r)})
            }
            "setp" => {
                let p = pid(&op["p"]).unwrap();
                self.m.set_param(p, SAtom::param(unfx(i(&op["v"]))));
                json!({})
            }
            "seta" => {
                let p = pid(&op["p"]).unwrap();
                let at = if s(&op["p"][0]) == "test" {
                    SAtom::param(unfx(i(&op["v"])))
                } else {
                    SAtom::setting(i(&op["v"]))
                };
                self.m.set_param(p, at);
                json!({})
            }
            "mod" => {
                let p = pid(&op["p"]).unwrap();
                let a = i(&op["a"]);
                let amt = if a == -999 { None } else { Some(a as f32 / 256.0) };
                let r = self.m.set_param_modamt(p, amt);
                self.ensure_dyn();
                json!({"res": res(r)})
            }
            "prop" => {
                self.m.set_prop(s(&op["k"]), SAtom::setting(i(&op["v"])));
                json!({})
            }
            "getprop" => {
                let v = self.m.get_prop(s(&op["k"])).map(|a| a.i()).unwrap_or(-999);
                json!({"val": v})
            }
            "clear" => {
                self.m.clear();
                self.ensure_dyn();
                json!({})
            }
            "dyn" => {
                let inst = u(&op["i"]);
                self.ver[inst] = i(&op["v"]);
                let v = self.ver[inst];
                self.set_dyn(inst, v);
                json!({})
            }
            "upd" => {
                self.ex.process_graph_updates();
                json!({})
            }
            // what a user interface and the audio side do all the time
            "catch" => {
                for _ in 0..40 {
                    self.m.handle_graph_events();
                    self.m.update_filters();
                    self.ex.process_graph_updates();
                }
                json!({})
            }
            "blk" => self.block(u(&op["n"])),
            "getp" => json!({"vals": self.params_json(&op["ps"])}),
            "led" => {
                let mut v = vec![];
                for n in op["ns"].as_array().unwrap() {
                    let id = nid(n);
                    v.push(json!([n, fx(self.m.led_value_for(&id)), fx(self.m.phase_value_for(&id))]));
                }
                json!({"leds": v})
            }
            "fb" => {
                self.m.update_output_feedback();
                let mut v = vec![];
                for n in op["ns"].as_array().unwrap() {
                    let id = nid(n);
                    v.push(match self.m.out_fb_for(&id, u(&n[2]) as u8) {
                        Some(f) => json!([n, fx(f)]),
                        None => json!([n, -2_000_000_000]),
                    });
                }
                json!({"fbs": v})
            }
            "unused" => {
                let id = self.m.get_unused_instance_node_id(nid(&op["n"]));
                json!({"got": [id.name(), id.instance()]})
            }
            "used" => {
                let mut v = vec![];
                for k in op["ps"].as_array().unwrap() {
                    let p = pid(k).unwrap();
                    v.push(json!([k, self.m.param_input_is_used(p) as i64]));
                }
                json!({"useds": v})
            }
            "conns" => {
                let mut v = vec![];
                if let Some(cs) = self.m.get_connections(u(&op["x"]), u(&op["y"])) {
                    for ((_, d, io), (_, od, oio, (nx, ny))) in cs {
                        v.push(json!([d.as_edge(), io, od.as_edge(), oio, nx, ny]));
                    }
                    json!({"some": 1, "cs": v})
                } else {
                    json!({"some": 0, "cs": v})
                }
            }
            "around" => self.around(u(&op["x"]), u(&op["y"])),
            "path" => {
                let a = (u(&op["a"][0]), u(&op["a"][1]));
                let b = (u(&op["b"][0]), u(&op["b"][1]));
                let p: Vec<u8> = CellDir::path_from_to(a, b).iter().map(|d| d.as_edge()).collect();
                let adj = CellDir::are_adjacent(a, b).map(|d| d.as_edge() as i64).unwrap_or(-1);
                json!({"path": p, "adj": adj})
            }
            "chain" => self.chain(op),
            o => panic!("harness: unknown op {}", o),
        }
    }

    fn around(&mut self, x: usize, y: usize) -> Value {
        let c = match self.m.get_copy(x, y) {
            Some(c) => c,
            None => return json!({"some": 0}),
        };
        let m = &self.m;
        let dirs: Vec<CellDir> = (0..6).map(CellDir::from).collect();
        let which = [CellDir::T, CellDir::B, CellDir::C];
        let mut buf = [0u8; 64];
        let lbl = match c.label(&mut buf) {
            None => json!(["", -1]),
            Some(l) => {
                let mut w = l.split_whitespace();
                let name = w.next().unwrap_or("").to_lowercase();
                json!([name, w.next().and_then(|k| k.parse::<i64>().ok()).unwrap_or(-1)])
            }
        };
        let ao: Vec<Value> = dirs
            .iter()
            .map(|d| match m.get_adjacent_output(x, y, *d) {
                Some((n, o)) => json!([n.name(), n.instance(), o]),
                None => json!(["", 0, -1]),
            })
            .collect();
        let ei: Vec<i64> = dirs.iter().map(|d| m.adjacent_edge_has_input(x, y, *d) as i64).collect();
        let el: Vec<Value> = dirs
            .iter()
            .map(|d| {
                let mut buf = [0u8; 64];
                match m.edge_label(&c, *d, &mut buf) {
                    None => json!([-1, 0]),
                    Some((name, con)) => {
                        let k = if d.is_output() { c.node_id().out(name) } else { c.node_id().inp(name) };
                        json!([oj(k), con as i64])
                    }
                }
            })
            .collect();
        let pc: Vec<Value> = dirs
            .iter()
            .map(|d| match c.is_port_dir_connected(m, *d) {
                Some((a, b)) => json!([a, b]),
                None => json!([-1, -1]),
            })
            .collect();
        let fa: Vec<Value> = which
            .iter()
            .map(|d| {
                let l: Vec<Value> = c
                    .find_all_adjacent_free(m, *d)
                    .iter()
                    .map(|(e, (a, b))| json!([e.as_edge(), a, b]))
                    .collect();
                json!(l)
            })
            .collect();
        let ff: Vec<Value> = which
            .iter()
            .map(|d| match c.find_first_adjacent_free(m, *d) {
                Some((e, k)) => json!([e.as_edge(), oj(k)]),
                None => json!([-1, -1]),
            })
            .collect();
        let du: Vec<Value> = which
            .iter()
            .map(|d| json!(c.find_unconnected_ports(m, *d).iter().map(|e| e.as_edge()).collect::<Vec<u8>>()))
            .collect();
        json!({"some": 1, "n": [c.node_id().name(), c.node_id().instance()], "lbl": lbl, "ao": ao, "ei": ei,
               "el": el, "pc": pc, "fa": fa, "ff": ff, "du": du})
    }

    /// links: [{n, o, i}] with port numbers (-1: none), ps: [[link (from 1), parameter, value]]
    fn chain(&mut self, op: &Value) -> Value {
        let mut ch = MatrixCellChain::new(CellDir::from(u(&op["d"]) as u8));
        let mut ps: Vec<&Value> = op["ps"].as_array().unwrap().iter().collect();
        let early = i(&op["early"]) == 1;
        for (k, l) in op["links"].as_array().unwrap().iter().enumerate() {
            let n = NodeId::from_str(s(&l["n"]));
            let bad = i(&op["bad"]) == k as i64 + 1;
            let oname = if i(&l["o"]) >= 0 { n.out_name_by_idx(i(&l["o"]) as u8).unwrap() } else { "" };
            let iname = if i(&l["i"]) >= 0 { n.inp_name_by_idx(i(&l["i"]) as u8).unwrap() } else { "" };
            let name = if bad && oname == "" && iname == "" { "nosuchnode" } else { n.name() };
            let oname = if bad && oname != "" { "nosuchport" } else { oname };
            let iname = if bad && oname == "" && iname != "" { "nosuchport" } else { iname };
            match (iname != "", oname != "") {
                (true, true) => ch.node_io(name, iname, oname),
                (true, false) => ch.node_inp(name, iname),
                (false, true) => ch.node_out(name, oname),
                (false, false) => ch.node(name),
            };
            if early && i(&op["bad"]) == 0 {
                // parameters right behind their link
                ps.retain(|p| {
                    if u(&p[0]) == k + 1 {
                        let pn = n.inp_name_by_idx(u(&p[1]) as u8).unwrap();
                        ch.set_norm(pn, unfx(i(&p[2])));
                        false
                    } else {
                        true
                    }
                });
            }
        }
        if i(&op["bad"]) == 0 {
            for p in ps {
                let n = NodeId::from_str(s(&op["links"][u(&p[0]) - 1]["n"]));
                ch.params_for_idx(u(&p[0]) - 1);
                let pn = n.inp_name_by_idx(u(&p[1]) as u8).unwrap();
                if u(&p[1]) % 2 == 0 {
                    ch.set_norm(pn, unfx(i(&p[2])));
                } else {
                    ch.set_atom(pn, SAtom::param(unfx(i(&p[2]))));
                }
            }
        }
        let r = ch.place(&mut self.m, u(&op["x"]), u(&op["y"]));
        json!({"res": if r.is_ok() { "ok" } else { "bad" }})
    }

    pub fn common(&mut self) -> Value {
        let ntf: Vec<Value> = std::mem::take(&mut *self.obs.log.lock().unwrap());
        json!({"gen": self.m.get_generation(), "ntf": ntf, "lay": cells_json(&self.m)})
    }
}

pub fn run(script: &Value) -> Value {
    let cfg = &script["cfg"];
    let mut ev = vec![];
    let mut e = Eng::new(u(&cfg["w"]), u(&cfg["h"]), u(&cfg["sr"]) as f32);
    for op in script["ops"].as_array().unwrap() {
        let r = guard(|| {
            let a = e.step(op);
            merge(&a, e.common())
        });
        match r {
            Ok(o) => ev.push(merge(op, o)),
            Err(p) => {
                if p.starts_with("harness:") {
                    eprintln!("{}", p);
                    std::process::exit(3);
                }
                ev.push(merge(op, json!({"panic": p})));
                std::mem::forget(e);
                return trace(script, ev);
            }
        }
    }
    bg_drop(e);
    trace(script, ev)
}
