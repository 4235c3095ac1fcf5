// SynthConstructor family: graphs built from linked builder nodes.
use crate::eng::{nid, stats, Ext};
use crate::util::*;
use hexodsp::build::{ConstructorNode, ConstructorNodeBuilder, ConstructorOp};
use hexodsp::dsp::{DynNode1x1Context, NodeId};
use hexodsp::nodes::NodeExecutor;
use hexodsp::synth_constructor::{SynthConstructor, SynthError};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

struct B(ConstructorNode);
impl ConstructorNodeBuilder for B {
    fn id(&self) -> NodeId {
        self.0.node_id
    }
    fn build(&self) -> ConstructorNode {
        self.0.clone()
    }
}

fn port(n: NodeId, k: usize) -> String {
    n.param_by_idx(k).map(|p| p.name().to_string()).unwrap_or("bogus".to_string())
}

fn outp(n: NodeId, k: usize) -> String {
    n.out_name_by_idx(k as u8).unwrap_or("bogus").to_string()
}

fn build(d: &Value, root: usize) -> B {
    let nodes: Vec<ConstructorNode> = d
        .as_array()
        .unwrap()
        .iter()
        .map(|n| ConstructorNode { node_id: nid(&n["n"]), ops: Rc::new(RefCell::new(vec![])) })
        .collect();
    for (j, n) in d.as_array().unwrap().iter().enumerate() {
        let id = nodes[j].node_id;
        let mut ops = vec![];
        for o in n["ops"].as_array().unwrap() {
            let name = port(id, u(&o[1]));
            ops.push(match s(&o[0]) {
                "set" => ConstructorOp::SetDenorm(name, unfx(i(&o[2]))),
                "mod" => ConstructorOp::SetDenormModAmt(name, unfx(i(&o[2])), i(&o[3]) as f32 / 256.0),
                "atom" => ConstructorOp::SetSetting(name, i(&o[2])),
                "in" => {
                    let src = nodes[u(&o[2])].clone();
                    let out = outp(src.node_id, u(&o[3]));
                    ConstructorOp::Input(name, src, out)
                }
                x => panic!("harness: op {}", x),
            });
        }
        *nodes[j].ops.borrow_mut() = ops;
    }
    B(nodes[root].clone())
}

fn err(e: SynthError) -> &'static str {
    match e {
        SynthError::CycleDetected => "cycle",
        SynthError::BadOutputName(_, _) => "out",
        SynthError::UnknownParam(_, _) => "param",
    }
}

pub struct Con {
    sc: SynthConstructor,
    ex: NodeExecutor,
    calls: Arc<Mutex<Vec<Value>>>,
    blk: Arc<AtomicUsize>,
    ver: Vec<i64>,
    made: Vec<bool>,
    stale: Vec<bool>,
    outbuf: Vec<Vec<f32>>,
}

const NDYN: usize = 24;

impl Con {
    fn new(sr: f32) -> Self {
        let mut sc = SynthConstructor::new();
        let mut ex = sc.executor().unwrap();
        ex.set_sample_rate(sr);
        ex.set_external_params(Arc::new(Ext));
        let mut c = Self {
            sc,
            ex,
            calls: Arc::new(Mutex::new(vec![])),
            blk: Arc::new(AtomicUsize::new(0)),
            ver: vec![0; NDYN],
            made: vec![false; NDYN],
            stale: vec![false; NDYN],
            outbuf: vec![vec![0.0; 128]; 2],
        };
        for k in 0..NDYN {
            c.set_dyn(k);
        }
        c
    }

    /// A function is kept for the first use of its node; for a node that is created once
    /// more after a clear it has to be installed again (as documented).
    fn renew(&mut self) {
        self.sc.poll();
        for k in 0..NDYN {
            if self.sc.output_feedback(&NodeId::Rust1x1(k as u8), 0).is_some() {
                if self.stale[k] {
                    self.set_dyn(k);
                }
                self.made[k] = true;
                self.stale[k] = false;
            }
        }
    }

    fn set_dyn(&mut self, inst: usize) {
        let (calls, blk, ver) = (self.calls.clone(), self.blk.clone(), self.ver[inst]);
        self.sc.set_dynamic_node1x1(
            inst,
            Box::new(move |inp: &[f32], out: &mut [f32], ctx: &DynNode1x1Context| {
                let b = blk.load(Ordering::SeqCst);
                let base = (inst as i64 + 1 + 32 * (ver % 2)) as f32 + 64.0 * ((b % 8) as f32);
                calls.lock().unwrap().push(json!({
                    "i": inst, "v": ver, "len": inp.len(),
                    "in": [stats(inp), stats(ctx.alpha_slice()), stats(ctx.beta_slice()),
                           stats(ctx.delta_slice()), stats(ctx.gamma_slice())]}));
                for (f, o) in out.iter_mut().enumerate() {
                    *o = base + (f as f32) / 256.0;
                }
                ctx.led_value().set(base);
                ctx.phase_value().set(base + 0.5);
            }),
        );
    }

    fn block(&mut self, n: usize) -> Value {
        self.blk.fetch_add(1, Ordering::SeqCst);
        self.calls.lock().unwrap().clear();
        let inp = vec![0.0f32; n];
        let (a, b) = self.outbuf.split_at_mut(1);
        a[0].iter_mut().for_each(|v| *v = 0.0);
        b[0].iter_mut().for_each(|v| *v = 0.0);
        let mut ctx = Ctx { n, out: [&mut a[0][..n], &mut b[0][..n]], inp: [&inp[..], &inp[..]] };
        self.ex.process(&mut ctx);
        let calls: Vec<Value> = std::mem::take(&mut *self.calls.lock().unwrap());
        json!({"calls": calls, "out": [stats(&self.outbuf[0][..n]), stats(&self.outbuf[1][..n])]})
    }

    fn step(&mut self, op: &Value) -> Value {
        match s(&op["op"]) {
            "upload" => {
                let b = build(&op["d"], u(&op["root"]));
                let r = self.sc.upload(&b);
                self.renew();
                json!({"res": r.map(|_| "ok").unwrap_or_else(err)})
            }
            "params" => {
                let b = build(&op["d"], u(&op["root"]));
                let r = self.sc.update_params(&b);
                self.renew();
                json!({"res": r.map(|x| if x { "new" } else { "ok" }).unwrap_or_else(err)})
            }
            "clear" => {
                self.sc.clear();
                self.stale = self.made.clone();
                json!({})
            }
            "dyn" => {
                let k = u(&op["i"]);
                self.ver[k] = i(&op["v"]);
                self.set_dyn(k);
                json!({})
            }
            "upd" => {
                self.ex.process_graph_updates();
                json!({})
            }
            "blk" => self.block(u(&op["n"])),
            "led" => {
                let mut v = vec![];
                for n in op["ns"].as_array().unwrap() {
                    let id = nid(n);
                    v.push(json!([n, fx(self.sc.led_value(&id)), fx(self.sc.phase_value(&id))]));
                }
                json!({"leds": v})
            }
            "fb" => {
                self.sc.poll();
                let mut v = vec![];
                for n in op["ns"].as_array().unwrap() {
                    let id = nid(n);
                    v.push(match self.sc.output_feedback(&id, u(&n[2]) as u8) {
                        Some(f) => json!([n, fx(f)]),
                        None => json!([n, -2_000_000_000]),
                    });
                }
                json!({"fbs": v})
            }
            o => panic!("harness: unknown op {}", o),
        }
    }
}

pub fn run(script: &Value) -> Value {
    let mut c = Con::new(u(&script["cfg"]["sr"]) as f32);
    let (ev, ok) = drive(script, |op| c.step(op));
    if ok {
        bg_drop(c);
    } else {
        std::mem::forget(c);
    }
    trace(script, ev)
}
