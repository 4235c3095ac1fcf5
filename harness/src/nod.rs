// Node family: small graphs of arbitrary nodes, fed and observed through function nodes.
use crate::util::*;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::dsp::{DynNode1x1Context, NodeId, ParamId, SAtom};
use hexodsp::nodes::{new_node_engine, NodeConfigurator, NodeExecutor};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

type Bufs = Arc<Mutex<Vec<Vec<f32>>>>;

pub struct Nod {
    nc: NodeConfigurator,
    ex: NodeExecutor,
    inb: Bufs,
    outb: Bufs,
    ids: Vec<NodeId>,
    nsrc: usize,
    nsnk: usize,
    bits: bool,
    cfg: Value,
}

/// A value of a parameter (normalized) from an integer: d: denormalized, in 1/4096; h: a time in
/// half frames; otherwise normalized, in 1/4096.
fn value(p: &ParamId, kind: &str, v: i64, sr: i64) -> f32 {
    match kind {
        "d" => p.norm(unfx(v)),
        "h" if v == 0 => 0.0,
        "h" => p.norm((v as f64 * 500.0 / sr as f64) as f32),
        _ => unfx(v),
    }
}

fn id(v: &Value) -> NodeId {
    NodeId::from_str(s(&v["n"])).to_instance(u(&v["i"]))
}

pub fn inp(n: NodeId, name: &str) -> u8 {
    n.inp(name).unwrap_or_else(|| panic!("harness: no input {} of {:?}", name, n))
}

fn out(n: NodeId, name: &str) -> u8 {
    n.out(name).unwrap_or_else(|| panic!("harness: no output {} of {:?}", name, n))
}

fn param(n: NodeId, name: &str) -> ParamId {
    (0..)
        .map_while(|k| n.param_by_idx(k))
        .find(|p| p.name() == name)
        .unwrap_or_else(|| panic!("harness: no parameter {} of {:?}", name, n))
}

const SNK: usize = 100;

impl Nod {
    /// srat: when the sample rate becomes known; 0: before the graph is made, 1: before the
    /// audio side has picked up the graph, 2: afterwards
    fn new(cfg: &Value, srat: i64) -> Self {
        let (mut nc, mut ex) = new_node_engine();
        if cfg["rt"] == json!(1) {
            // part of the first block a thread processes
            hexodsp::log::init_thread_logger("dsp");
        }
        let rate = i(&cfg["sr"]) as f32;
        if srat == 0 {
            ex.set_sample_rate(rate);
        }
        let a = |k: &str| cfg[k].as_array().unwrap().clone();
        let (nodes, src, snk) = (a("nodes"), a("src"), a("snk"));
        let (nsrc, nsnk) = (src.len(), snk.len());
        let ids: Vec<NodeId> = nodes.iter().map(id).collect();
        let inb: Bufs = Arc::new(Mutex::new(vec![vec![]; nsrc]));
        let outb: Bufs = Arc::new(Mutex::new(vec![vec![]; nsnk]));
        {
            let g = nc.get_node_global();
            let mut g = g.lock().unwrap();
            for k in 0..nsrc {
                let b = inb.clone();
                g.send_dynamic_node1x1(
                    k,
                    Box::new(move |_inp: &[f32], out: &mut [f32], _ctx: &DynNode1x1Context| {
                        aside(|| out.copy_from_slice(&b.lock().unwrap()[k]));
                    }),
                );
            }
            for k in 0..nsnk {
                let b = outb.clone();
                g.send_dynamic_node1x1(
                    SNK + k,
                    Box::new(move |inp: &[f32], out: &mut [f32], _ctx: &DynNode1x1Context| {
                        aside(|| b.lock().unwrap()[k] = inp.to_vec());
                        out.iter_mut().for_each(|o| *o = 0.0);
                    }),
                );
            }
        }
        let rust = |k: usize| NodeId::Rust1x1(k as u8);
        for k in 0..nsrc {
            nc.create_node(rust(k));
        }
        for n in &ids {
            nc.create_node(*n);
        }
        for k in 0..nsnk {
            nc.create_node(rust(SNK + k));
        }
        let mut n = Self { nc, ex, inb, outb, ids, nsrc, nsnk, bits: cfg["bits"] == 1, cfg: cfg.clone() };
        for (k, v) in nodes.iter().enumerate() {
            for (name, v) in v["set"].as_object().unwrap() {
                n.set(k, name, v);
            }
        }
        n.program(&(0..n.ids.len()).collect::<Vec<_>>());
        if srat == 1 {
            n.ex.set_sample_rate(rate);
        }
        n.ex.process_graph_updates();
        if srat == 2 {
            n.ex.set_sample_rate(rate);
        }
        if let Some(p) = cfg.get("pat") {
            n.pattern(p);
        }
        n
    }

    /// Makes a program of the nodes with these numbers and sends it to the audio side.
    fn program(&mut self, on: &[usize]) {
        let a = |k: &str| self.cfg[k].as_array().unwrap().clone();
        let (src, snk, wire) = (a("src"), a("snk"), a("wire"));
        let rust = |k: usize| NodeId::Rust1x1(k as u8);
        let has = |v: &Value| on.contains(&u(v));
        let mut prog = self.nc.rebuild_node_ports();
        for k in 0..self.nsrc {
            self.nc.add_prog_node(&mut prog, &rust(k));
        }
        for k in 0..self.ids.len() {
            if on.contains(&k) {
                self.nc.add_prog_node(&mut prog, &self.ids[k]);
            }
        }
        for (k, c) in snk.iter().enumerate() {
            self.outb.lock().unwrap()[k] = vec![];
            if has(&c[0]) {
                self.nc.add_prog_node(&mut prog, &rust(SNK + k));
            }
        }
        for (k, c) in src.iter().enumerate() {
            if has(&c[0]) {
                let d = self.ids[u(&c[0])];
                self.nc.set_prog_node_exec_connection(&mut prog, (d, inp(d, s(&c[1]))), (rust(k), 0));
            }
        }
        for c in wire.iter() {
            if has(&c[0]) && has(&c[2]) {
                let (f, t) = (self.ids[u(&c[0])], self.ids[u(&c[2])]);
                self.nc.set_prog_node_exec_connection(
                    &mut prog,
                    (t, inp(t, s(&c[3]))),
                    (f, out(f, s(&c[1]))),
                );
            }
        }
        for (k, c) in snk.iter().enumerate() {
            if has(&c[0]) {
                let f = self.ids[u(&c[0])];
                self.nc.set_prog_node_exec_connection(&mut prog, (rust(SNK + k), 0), (f, out(f, s(&c[1]))));
            }
        }
        self.nc.upload_prog(prog, true);
    }

    /// Fills the pattern of the first TSeq and lets the audio side pick it up.
    fn pattern(&mut self, p: &Value) {
        let k = self.ids.iter().position(|n| matches!(n, NodeId::TSeq(_))).unwrap();
        let inst = self.ids[k].instance();
        {
            let g = self.nc.get_node_global();
            let d = g.lock().unwrap().get_pattern_data(inst);
            let mut d = d.lock().unwrap();
            d.set_rows(u(&p["rows"]));
            for (c, t) in p["types"].as_array().unwrap().iter().enumerate() {
                match i(t) {
                    0 => d.set_col_note_type(c),
                    1 => d.set_col_step_type(c),
                    2 => d.set_col_gate_type(c),
                    _ => d.set_col_value_type(c),
                }
            }
            for c in p["cells"].as_array().unwrap() {
                d.set_cell_value(u(&c[0]), u(&c[1]), u(&c[2]) as u16);
            }
        }
        let z = vec![vec![0]; self.nsrc];
        for _ in 0..20 {
            let g = self.nc.get_node_global();
            g.lock().unwrap().check_pattern_data(inst);
            self.block(&json!({"n": 1, "in": z, "host": []}));
        }
    }

    /// A number for what each scope shows.
    fn scopes(&mut self) -> Value {
        let g = self.nc.get_node_global();
        let mut out = vec![];
        for n in &self.ids {
            if let NodeId::Scope(i) = n {
                let h = g.lock().unwrap().get_scope_handle(*i as usize);
                for b in 0..3 {
                    let mut x: u32 = 0x811c9dc5;
                    for k in 0..h.len() {
                        let v = h.read(b, k);
                        for v in [v.0, v.1] {
                            x = (x ^ v.to_bits()).wrapping_mul(0x01000193);
                            x ^= x >> 15;
                        }
                    }
                    out.push(x as i32 as i64);
                }
            }
        }
        json!({"scope": out})
    }

    /// An int is a setting, a string a parameter (a kind of value and an integer), an array an
    /// audio sample.
    fn set(&mut self, k: usize, name: &str, v: &Value) {
        let p = param(self.ids[k], name);
        let at = if let Some(a) = v.as_array() {
            let mut d = vec![i(&a[0]) as f32];
            d.extend(a[1..].iter().map(|x| unfx(i(x))));
            SAtom::audio("x.wav", Arc::new(d))
        } else if let Some(x) = v.as_str() {
            let num = x.trim_start_matches(|c: char| c.is_alphabetic());
            SAtom::param(value(&p, &x[..x.len() - num.len()], num.parse().unwrap(), i(&self.cfg["sr"])))
        } else {
            SAtom::setting(i(v))
        };
        self.nc.set_param(p, at);
    }

    fn num(&self, v: f32) -> i64 {
        if self.bits {
            v.to_bits() as i32 as i64
        } else {
            fx(v)
        }
    }

    fn block(&mut self, op: &Value) -> Value {
        let n = u(&op["n"]);
        {
            let mut b = self.inb.lock().unwrap();
            for k in 0..self.nsrc {
                let c = &self.cfg["src"][k];
                let p = param(self.ids[u(&c[0])], s(&c[1]));
                let kind = c[2].as_str().unwrap_or("");
                let sr = i(&self.cfg["sr"]);
                b[k] = op["in"][k].as_array().unwrap().iter().map(|x| value(&p, kind, i(x), sr)).collect();
                if b[k].len() != n {
                    panic!("harness: input {} has {} of {} frames", k, b[k].len(), n);
                }
            }
        }
        let host = |k: usize| -> Vec<f32> {
            match op["host"][k].as_array() {
                Some(a) => a.iter().map(|x| unfx(i(x))).collect(),
                None => vec![0.0; n],
            }
        };
        let (h0, h1) = (host(0), host(1));
        let (mut o0, mut o1) = (vec![0.0f32; n], vec![0.0f32; n]);
        let mut ctx = Ctx { n, out: [&mut o0[..], &mut o1[..]], inp: [&h0[..], &h1[..]] };
        audio(|| self.ex.process(&mut ctx));
        let b = self.outb.lock().unwrap();
        let mut out: Vec<&Vec<f32>> = (0..self.nsnk).map(|k| &b[k]).collect();
        if self.ids.iter().any(|n| matches!(n, NodeId::Out(_))) {
            out.push(&o0);
            out.push(&o1);
        }
        let fin = out.iter().all(|o| o.iter().all(|v| v.is_finite()));
        let out: Vec<Vec<i64>> = out.iter().map(|o| o.iter().map(|v| self.num(*v)).collect()).collect();
        let led: Vec<Value> = self
            .ids
            .iter()
            .map(|n| json!([self.num(self.nc.led_value_for(n)), self.num(self.nc.phase_value_for(n))]))
            .collect();
        json!({"out": out, "led": led, "fin": fin as i64})
    }

    fn step(&mut self, op: &Value) -> Value {
        match s(&op["op"]) {
            "blk" => self.block(op),
            "scopes" => self.scopes(),
            "set" => {
                self.set(u(&op["k"]), s(&op["name"]), &op["v"]);
                audio(|| self.ex.process_graph_updates());
                json!({})
            }
            "only" => {
                let ks: Vec<usize> = op["ks"].as_array().unwrap().iter().map(u).collect();
                self.program(&ks);
                audio(|| self.ex.process_graph_updates());
                json!({})
            }
            "sr" => {
                self.ex.set_sample_rate(i(&op["v"]) as f32);
                json!({})
            }
            x => panic!("harness: op {}", x),
        }
    }
}

pub fn run(script: &Value) -> Value {
    let mut st = match guard(|| Nod::new(&script["cfg"], 0)) {
        Ok(st) => st,
        Err(p) => {
            eprintln!("{}", p);
            return trace(script, vec![json!({"op": "fresh", "panic": p})]);
        }
    };
    let (ev, ok) = drive(script, |op| {
        if s(&op["op"]) == "fresh" {
            let old = std::mem::replace(&mut st, Nod::new(&script["cfg"], op["srat"].as_i64().unwrap_or(0)));
            bg_drop(old);
            json!({})
        } else {
            st.step(op)
        }
    });
    if ok {
        bg_drop(st);
    } else {
        std::mem::forget(st);
    }
    trace(script, ev)
}
