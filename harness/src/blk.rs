// Block diagram family: a block function that is edited, compiled and run as the
// program of a Code node.
use crate::eng::Eng;
use crate::pat::Ast;
use crate::util::*;
use hexodsp::{Cell, CellDir, DynNode1x1Context, NodeId};
use hexodsp::wblockdsp::{BlockCodeView, BlockDSPError, BlockFun, BlockFunSnapshot};
use hexodsp::{NodeGlobalData, NodeGlobalRef};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use synfx_dsp_jit::engine::CodeEngineBackend;

fn port(v: &Value) -> Value {
    if v.is_string() { v.clone() } else { json!("~") }
}

/// TLC only reads plain ASCII strings.
fn asc(v: &Value) -> Value {
    match v.as_str() {
        Some("π") => json!("PI"),
        Some("2π") => json!("TAU"),
        _ => v.clone(),
    }
}

fn unasc(v: &str) -> &str {
    match v {
        "PI" => "π",
        "TAU" => "2π",
        _ => v,
    }
}

fn sub(v: &Value) -> i64 {
    v.as_i64().unwrap_or(-1)
}

/// Everything that is stored about the diagram, in a form TLC can read.
fn dump(bf: &BlockFun) -> Value {
    let snap = bf.save_snapshot().serialize();
    let mut areas = vec![];
    for a in snap["areas"].as_array().unwrap() {
        let mut blocks: Vec<Value> = a["blocks"]
            .as_array()
            .unwrap()
            .iter()
            .map(|b| {
                let k = &b["block"];
                let rows = u(&k["rows"]);
                let pad = |v: &Value| -> Vec<Value> {
                    let a = v.as_array().unwrap();
                    (0..rows.max(a.len())).map(|j| a.get(j).map(port).unwrap_or(json!("~"))).collect()
                };
                json!({"x": b["x"], "y": b["y"], "id": k["id"], "typ": asc(&k["typ"]), "lbl": asc(&k["lbl"]), "rows": rows,
                       "ins": pad(&k["inputs"]), "outs": pad(&k["outputs"]),
                       "c": [sub(&k["contains"][0]), sub(&k["contains"][1])]})
            })
            .collect();
        blocks.sort_by_key(|b| (i(&b["x"]), i(&b["y"])));
        areas.push(Value::Array(blocks));
    }
    Value::Array(areas)
}

fn err(e: BlockDSPError) -> &'static str {
    match e {
        BlockDSPError::UnknownArea(_) => "area",
        BlockDSPError::UnknownLanguageType(_) => "type",
        BlockDSPError::NoBlockAt(..) => "noblock",
        BlockDSPError::CircularAction(..) => "circular",
        BlockDSPError::NoSpaceAvailable(..) => "space",
    }
}

fn num(v: f32) -> Value {
    if v.is_finite() && v.fract() == 0.0 && v.abs() < 1.0e9 { json!(v as i64) } else { json!(1_000_000_007) }
}

enum Mode {
    /// the code engine of a Code node alone
    Raw(NodeGlobalRef, CodeEngineBackend),
    /// a Code node in a matrix, three of its inputs wired
    Mx(Box<Mx>),
}

struct Mx {
    e: Eng,
    inst: u8,
    wire: Vec<u8>,
    src: Arc<Mutex<[f32; 3]>>,
    cap: Arc<Mutex<Vec<Vec<f32>>>>,
}

impl Mx {
    fn build(&mut self) {
        let code = NodeId::Code(self.inst);
        let w = &self.wire;
        let pos = (3, 3);
        let at = |d: CellDir| d.offs_pos(pos).unwrap();
        let m = &mut self.e.m;
        m.place(3, 3, Cell::empty(code).input(Some(w[0]), Some(w[1]), Some(w[2])).out(Some(0), Some(1), Some(2)));
        let (t, tl, bl) = (at(CellDir::T), at(CellDir::TL), at(CellDir::BL));
        m.place(t.0, t.1, Cell::empty(NodeId::Rust1x1(0)).out(None, None, Some(0)));
        m.place(tl.0, tl.1, Cell::empty(NodeId::Rust1x1(1)).out(None, Some(0), None));
        m.place(bl.0, bl.1, Cell::empty(NodeId::Rust1x1(2)).out(Some(0), None, None));
        let (tr, br, bo) = (at(CellDir::TR), at(CellDir::BR), at(CellDir::B));
        m.place(tr.0, tr.1, Cell::empty(NodeId::Rust1x1(3)).input(None, None, Some(0)));
        m.place(br.0, br.1, Cell::empty(NodeId::Rust1x1(4)).input(None, Some(0), None));
        m.place(bo.0, bo.1, Cell::empty(NodeId::Rust1x1(5)).input(Some(0), None, None));
        m.sync().unwrap();
        for k in 0..3 {
            let src = self.src.clone();
            m.set_dynamic_node1x1(
                k,
                Box::new(move |_i: &[f32], out: &mut [f32], _c: &DynNode1x1Context| {
                    let v = src.lock().unwrap()[k];
                    out.iter_mut().for_each(|o| *o = v);
                }),
            );
            let cap = self.cap.clone();
            m.set_dynamic_node1x1(
                3 + k,
                Box::new(move |i: &[f32], _o: &mut [f32], _c: &DynNode1x1Context| cap.lock().unwrap()[k] = i.to_vec()),
            );
        }
        self.e.ex.process_graph_updates();
    }
}

struct Blk {
    bf: Arc<Mutex<BlockFun>>,
    m: Mode,
}

impl Blk {
    fn new(cfg: &Value) -> Self {
        if let Some(w) = cfg["wire"].as_array() {
            let mut mx = Box::new(Mx {
                e: Eng::new(7, 7, 44100.0),
                inst: u(&cfg["inst"]) as u8,
                wire: w.iter().map(|v| u(v) as u8).collect(),
                src: Arc::new(Mutex::new([0.0; 3])),
                cap: Arc::new(Mutex::new(vec![vec![]; 3])),
            });
            mx.build();
            let bf = mx.e.m.get_block_function(mx.inst as usize).unwrap();
            return Self { bf, m: Mode::Mx(mx) };
        }
        let g = NodeGlobalData::new_ref();
        let (bf, mut be) = {
            let mut h = g.lock().unwrap();
            (h.get_block_function(0).unwrap(), h.get_code_engine_backend(0))
        };
        be.set_sample_rate(44100.0);
        Self { bf, m: Mode::Raw(g, be) }
    }

    fn step(&mut self, op: &Value) -> Value {
        let g = |k: &str| i(&op[k]);
        let (a, x, y) = (op["a"].as_u64().unwrap_or(0) as usize, op["x"].as_i64().unwrap_or(0), op["y"].as_i64().unwrap_or(0));
        match s(&op["op"]) {
            "check" => {
                let r = match &mut self.m {
                    Mode::Raw(g, _) => g.lock().unwrap().check_code(0),
                    Mode::Mx(x) => x.e.m.check_block_function(x.inst as usize),
                };
                return json!({"res": if r.is_ok() { "ok" } else { "err" }});
            }
            "run" => {
                let v: Vec<f32> = op["in"].as_array().unwrap().iter().map(|v| i(v) as f32).collect();
                let got: Vec<Value> = match &mut self.m {
                    Mode::Raw(_, be) => {
                        be.process_updates();
                        (0..g("n"))
                            .map(|_| {
                                let (s1, s2, r) = be.process(v[0], v[1], v[2], v[3], v[4], v[5]);
                                json!([num(s1), num(s2), num(r)])
                            })
                            .collect()
                    }
                    Mode::Mx(x) => {
                        for k in 0..3 {
                            x.src.lock().unwrap()[k] = v[x.wire[k] as usize];
                        }
                        x.e.block(g("n") as usize);
                        let c = x.cap.lock().unwrap();
                        (0..g("n") as usize).map(|f| json!([num(c[1][f]), num(c[2][f]), num(c[0][f])])).collect()
                    }
                };
                return json!({ "got": got });
            }
            "backend" => {
                match &mut self.m {
                    Mode::Raw(g, be) => {
                        *be = g.lock().unwrap().get_code_engine_backend(0);
                        be.set_sample_rate(44100.0);
                    }
                    Mode::Mx(x) => {
                        x.e.m.clear();
                        x.build();
                    }
                }
                return json!({});
            }
            _ => {}
        }
        let mut bf = self.bf.lock().unwrap();
        let gen = bf.generation();
        let r = match s(&op["op"]) {
            "put" => {
                let lbl = s(&op["lbl"]);
                let lbl = if lbl.is_empty() { None } else { Some(lbl.to_string()) };
                bf.instanciate_at(a, x, y, unasc(s(&op["typ"])), lbl)
            }
            "rm" => bf.remove_at(a, x, y),
            "shift" => {
                bf.shift_port(a, x, y, u(&op["row"]), op["out"] == json!(true));
                Ok(())
            }
            "mv" => bf.move_block_from_to(a, x, y, u(&op["a2"]), g("x2"), g("y2")),
            "cl" => bf.clone_block_from_to(a, x, y, u(&op["a2"]), g("x2"), g("y2")),
            "mvc" => bf.move_block_chain_from_to(a, x, y, u(&op["a2"]), g("x2"), g("y2")),
            "split" => {
                let f = s(&op["fill"]);
                bf.split_block_chain_after(a, x, y, if f.is_empty() { None } else { Some(f) })
            }
            "snap" => {
                let t = bf.save_snapshot().serialize().to_string();
                let v: Value = serde_json::from_str(&t).unwrap();
                let sn = BlockFunSnapshot::deserialize(&v).unwrap();
                bf.load_snapshot(&sn);
                Ok(())
            }
            "look" => {
                // the view of the diagram a user interface has
                let mut got = vec![];
                for p in op["at"].as_array().unwrap() {
                    let (pa, px, py) = (u(&p[0]), i(&p[1]), i(&p[2]));
                    let o = bf.origin_at(pa, px, py);
                    let b = o.and_then(|(ox, oy)| {
                        bf.block_at(pa, ox, oy).map(|b| {
                            let mut buf = [0u8; 64];
                            let n = b.label(&mut buf);
                            let lbl = String::from_utf8_lossy(&buf[..n]).to_string();
                            let ins: Vec<bool> = (0..b.rows()).map(|r| b.has_input(r)).collect();
                            let outs: Vec<bool> = (0..b.rows()).map(|r| b.has_output(r)).collect();
                            json!([1, ox, oy, b.rows(), asc(&json!(lbl)), ins, outs,
                                   b.contains(0).map(|v| v as i64).unwrap_or(-1), b.contains(1).map(|v| v as i64).unwrap_or(-1)])
                        })
                    });
                    got.push(b.unwrap_or(json!([0])));
                }
                bf.recalculate_area_sizes();
                let n = bf.save_snapshot().serialize()["areas"].as_array().unwrap().len();
                let sizes: Vec<Value> = (0..n).map(|k| { let (w, h) = bf.area_size(k); json!([w, h]) }).collect();
                let tree = match bf.generate_tree::<Ast>("zero") {
                    Ok(t) => t.show(0).replace("2π", "TAU").replace("π", "PI"),
                    Err(e) => err(e).to_string(),
                };
                return json!({"got": got, "tree": tree, "sizes": sizes, "areas": dump(&bf)});
            }
            o => panic!("harness: unknown op {}", o),
        };
        json!({"res": match r { Ok(()) => "ok", Err(e) => err(e) }, "gen": bf.generation() != gen, "areas": dump(&bf)})
    }
}

pub fn run(script: &Value) -> Value {
    let mut b = Blk::new(&script["cfg"]);
    let (ev, ok) = drive(script, |op| b.step(op));
    if !ok {
        std::mem::forget(b);
    } else if let Mode::Mx(x) = b.m {
        bg_drop(x.e);
    }
    trace(script, ev)
}
