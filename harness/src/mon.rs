// Monitor family: what the six monitored signals of a cell show.
use crate::eng::{cell, nid, res, Ext};
use crate::util::*;
use hexodsp::dsp::{DynNode1x1Context, NodeId};
use hexodsp::matrix::{CellDir, Matrix};
use hexodsp::monitor::MON_SIG_CNT;
use hexodsp::new_node_engine;
use hexodsp::nodes::NodeExecutor;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const NDYN: usize = 24;
static LATE: AtomicUsize = AtomicUsize::new(0);

type Runs = Vec<(usize, i64)>;

fn put(r: &mut Runs, v: i64) {
    match r.last_mut() {
        Some(l) if l.1 == v => l.0 += 1,
        _ => r.push((1, v)),
    }
}

/// What a node received (ports 0..) and produced (ports 10..), as runs of equal values.
type Seen = BTreeMap<(String, usize, usize), Runs>;

#[derive(Default)]
struct Shared {
    pos: usize,
    sig: BTreeMap<usize, Vec<(usize, f32)>>,
    seen: Seen,
}

fn value(sig: &[(usize, f32)], mut pos: usize) -> f32 {
    for (n, v) in sig {
        if pos < *n {
            return *v;
        }
        pos -= n;
    }
    sig.last().map(|l| l.1).unwrap_or(0.0)
}

fn sig(v: &Value) -> Vec<(usize, f32)> {
    v.as_array().unwrap().iter().map(|r| (u(&r[0]), unfx(i(&r[1])))).collect()
}

struct Mon {
    m: Matrix,
    ex: NodeExecutor,
    sh: Arc<Mutex<Shared>>,
    have: Vec<bool>,
    /// When everything that was sent will have arrived; only used to know how long to wait.
    wait: Vec<(Vec<i64>, Vec<(i64, i64)>)>,
}

impl Mon {
    fn new(w: usize, h: usize, sr: f32) -> Self {
        let (nc, mut ex) = new_node_engine();
        ex.set_sample_rate(sr);
        ex.set_external_params(Arc::new(Ext));
        Self {
            m: Matrix::new(nc, w, h),
            ex,
            sh: Arc::new(Mutex::new(Shared::default())),
            have: vec![false; NDYN],
            wait: vec![(vec![], vec![]); MON_SIG_CNT],
        }
    }

    fn dyns(&mut self) {
        for inst in 0..NDYN {
            let exists = self.m.unique_index_for(&NodeId::Rust1x1(inst as u8)).is_some();
            if exists && !self.have[inst] {
                let sh = self.sh.clone();
                self.m.set_dynamic_node1x1(
                    inst,
                    Box::new(move |inp: &[f32], out: &mut [f32], ctx: &DynNode1x1Context| {
                        let mut s = sh.lock().unwrap();
                        let none = vec![];
                        let (pos, sg) = (s.pos, s.sig.get(&inst).unwrap_or(&none).clone());
                        for (f, o) in out.iter_mut().enumerate() {
                            *o = value(&sg, pos + f);
                        }
                        let k = |p: usize| ("rust1x1".to_string(), inst, p);
                        for (p, b) in [inp, ctx.alpha_slice(), ctx.beta_slice(), ctx.delta_slice(), ctx.gamma_slice()]
                            .iter()
                            .enumerate()
                        {
                            let r = s.seen.entry(k(p)).or_default();
                            b.iter().for_each(|v| put(r, fx(*v)));
                        }
                        let r = s.seen.entry(k(10)).or_default();
                        out.iter().for_each(|v| put(r, fx(*v)));
                    }),
                );
            }
            self.have[inst] = exists;
        }
    }

    fn play(&mut self, lens: &Value, sigs: &Value, host: &Value) -> Seen {
        let host: Vec<_> = (0..2).map(|c| sig(&host[c])).collect();
        {
            let mut s = self.sh.lock().unwrap();
            s.pos = 0;
            s.seen.clear();
            s.sig = sigs.as_array().unwrap().iter().map(|v| (u(&v[0]), sig(&v[1]))).collect();
        }
        // the two host inputs pass through the "inp" node unchanged
        let mut inps = vec![];
        self.m.for_each(|_, _, c| {
            if let NodeId::Inp(k) = c.node_id() {
                inps.push(k as usize);
            }
        });
        let mut pos = 0;
        for n in lens.as_array().unwrap() {
            for _ in 0..u(&n[0]) {
                let n = u(&n[1]);
                self.sh.lock().unwrap().pos = pos;
                let h: Vec<Vec<f32>> = host.iter().map(|h| (0..n).map(|f| value(h, pos + f)).collect()).collect();
                for k in inps.iter() {
                    for (c, h) in h.iter().enumerate() {
                        let mut s = self.sh.lock().unwrap();
                        let r = s.seen.entry(("inp".to_string(), *k, 10 + c)).or_default();
                        h.iter().for_each(|v| put(r, fx(*v)));
                    }
                }
                let (mut a, mut b) = (vec![0.0f32; n], vec![0.0f32; n]);
                let mut ctx = Ctx { n, out: [&mut a[..], &mut b[..]], inp: [&h[0][..], &h[1][..]] };
                self.ex.process_graph_updates();
                self.ex.process(&mut ctx);
                pos += n;
            }
        }
        std::mem::take(&mut self.sh.lock().unwrap().seen)
    }

    fn shown(&mut self) -> Vec<Vec<(i64, i64)>> {
        (0..MON_SIG_CNT)
            .map(|k| {
                let s = self.m.get_minmax_monitor_samples(k);
                (0..s.len()).map(|j| (fx(s.at(j).0), fx(s.at(j).1))).collect()
            })
            .collect()
    }

    fn note(&mut self, seen: &Seen) {
        let c = *self.m.monitored_cell();
        let n = c.node_id();
        for (k, d) in [CellDir::T, CellDir::TL, CellDir::BL, CellDir::TR, CellDir::BR, CellDir::B].iter().enumerate() {
            if let Some(p) = c.local_port_idx(*d) {
                let p = p as usize + if k > 2 { 10 } else { 0 };
                if let Some(r) = seen.get(&(n.name().to_string(), n.instance(), p)) {
                    let (acc, pts) = &mut self.wait[k];
                    for (len, v) in r {
                        for _ in 0..*len {
                            acc.push(*v);
                            if acc.len() == 900 {
                                pts.push((*acc.iter().min().unwrap(), *acc.iter().max().unwrap()));
                                acc.clear();
                            }
                        }
                    }
                }
            }
        }
    }

    fn settle(&mut self) -> Vec<Vec<(i64, i64)>> {
        let max = if LATE.load(Ordering::SeqCst) > 2 { 150 } else { 6000 };
        let t = Instant::now();
        loop {
            let s = self.shown();
            let ok = s.iter().zip(self.wait.iter()).all(|(s, w)| {
                let k = w.1.len().min(s.len());
                s[s.len() - k..] == w.1[w.1.len() - k..]
            });
            if ok {
                return s;
            }
            if t.elapsed() > Duration::from_millis(max) {
                LATE.fetch_add(1, Ordering::SeqCst);
                return s;
            }
            std::thread::sleep(Duration::from_millis(3));
        }
    }

    /// Goes on with a constant signal on everything until that is what is shown.
    fn calm(&mut self, o: &Value, ports: &[usize]) -> Vec<Vec<(i64, i64)>> {
        let max = if LATE.load(Ordering::SeqCst) > 2 { 1000 } else { 8000 };
        let t = Instant::now();
        let want = i(&o["v"]);
        loop {
            self.play(&json!([[16, 64]]), &o["sig"], &o["host"]);
            std::thread::sleep(Duration::from_millis(12));
            let s = self.shown();
            if ports.iter().all(|k| *s[*k].last().unwrap() == (want, want)) {
                return s;
            }
            if t.elapsed() > Duration::from_millis(max) {
                LATE.fetch_add(1, Ordering::SeqCst);
                return s;
            }
        }
    }

    fn op(&mut self, o: &Value) -> Value {
        match s(&o["op"]) {
            "set" => {
                self.m.place(u(&o["x"]), u(&o["y"]), cell(o));
                json!({})
            }
            "del" => {
                self.m.place(u(&o["x"]), u(&o["y"]), hexodsp::matrix::Cell::empty(NodeId::Nop));
                json!({})
            }
            "param" => {
                if let Some(p) = nid(&o["n"]).param_by_idx(u(&o["p"])) {
                    self.m.set_param(p, unfx(i(&o["v"])).into());
                }
                json!({})
            }
            "sync" => {
                let r = res(self.m.sync());
                self.dyns();
                json!({ "res": r })
            }
            "clear" => {
                self.m.clear();
                self.dyns();
                json!({})
            }
            "mon" => {
                let c = self.m.get_copy(u(&o["x"]), u(&o["y"])).unwrap();
                self.m.monitor_cell(c);
                json!({})
            }
            "play" => {
                let seen = self.play(&o["n"], &o["sig"], &o["host"]);
                self.note(&seen);
                let sg: Vec<Value> = seen.iter().map(|((n, k, p), r)| json!([n, k, p, r])).collect();
                json!({ "seen": sg })
            }
            "drip" => {
                // little by little, for a long time
                let mut all = Seen::new();
                for _ in 0..u(&o["rounds"]) {
                    let seen = self.play(&o["n"], &o["sig"], &o["host"]);
                    self.note(&seen);
                    for (k, r) in seen {
                        let a = all.entry(k).or_default();
                        for (n, v) in r {
                            match a.last_mut() {
                                Some(l) if l.1 == v => l.0 += n,
                                _ => a.push((n, v)),
                            }
                        }
                    }
                    std::thread::sleep(Duration::from_millis(u(&o["ms"]) as u64));
                }
                let sg: Vec<Value> = all.iter().map(|((n, k, p), r)| json!([n, k, p, r])).collect();
                json!({ "seen": sg })
            }
            "storm" => {
                self.play(&o["n"], &o["sig"], &o["host"]);
                json!({})
            }
            "calm" => {
                let ports: Vec<usize> = o["ports"].as_array().unwrap().iter().map(u).collect();
                json!({ "shown": self.calm(o, &ports) })
            }
            "peek" => {
                std::thread::sleep(Duration::from_millis(u(&o["ms"]) as u64));
                json!({ "shown": self.shown() })
            }
            "settle" => json!({ "shown": self.settle() }),
            x => panic!("harness: op {}", x),
        }
    }
}

pub fn run(script: &Value) -> Value {
    let c = &script["cfg"];
    let mut m = Mon::new(u(&c["w"]), u(&c["h"]), u(&c["sr"]) as f32);
    let mut ev = vec![];
    for o in script["ops"].as_array().unwrap() {
        match guard(|| m.op(o)) {
            Ok(r) => {
                let mut b = o.clone();
                b.as_object_mut().unwrap().remove("sig");
                b.as_object_mut().unwrap().remove("host");
                ev.push(merge(&b, r));
            }
            Err(p) => {
                ev.push(merge(o, json!({ "panic": p })));
                break;
            }
        }
    }
    bg_drop(m);
    trace(script, ev)
}
