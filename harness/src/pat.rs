// Patch family: the whole saved state (layout, parameters, settings, modulation, properties,
// patterns, block functions), saving, loading and damaged patches.
use crate::eng::{cell, cells_json, res, Eng};
use crate::util::*;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::dsp::{NodeId, ParamId, SAtom};
use hexodsp::matrix_repr::MatrixDeserError;
use hexodsp::wblockdsp::{BlockASTNode, BlockCodeView, BlockFun};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub fn par(v: &Value) -> ParamId {
    let n = NodeId::from_str(s(&v[0])).to_instance(u(&v[1]));
    n.inp_param(s(&v[2])).unwrap_or_else(|| panic!("harness: no parameter {}", v))
}

pub fn atom(v: &Value) -> SAtom {
    match s(&v[0]) {
        "i" => SAtom::setting(v[1].as_str().map(|t| t.parse::<i64>().unwrap()).unwrap_or_else(|| i(&v[1]))),
        "p" => SAtom::param(unfx(i(&v[1]))),
        "s" => SAtom::str(s(&v[1])),
        "as" => SAtom::audio_unloaded(s(&v[1])),
        "ms" => {
            let b: Vec<f32> = (1..9).map(|k| unfx(i(&v[k]))).collect();
            SAtom::micro(&b)
        }
        o => panic!("harness: atom {}", o),
    }
}

pub fn atom_str(a: &SAtom) -> String {
    match a {
        SAtom::Setting(v) => format!("i:{}", v),
        SAtom::Param(v) => format!("p:{}", fx(*v)),
        SAtom::Str(v) => format!("s:{}", v),
        SAtom::AudioSample((p, _)) => format!("as:{}", p),
        SAtom::MicroSample(v) => {
            format!("ms:{}", v.iter().map(|x| fx(*x).to_string()).collect::<Vec<_>>().join(","))
        }
    }
}

fn fxd(v: f32) -> i64 {
    // denormalised values: 1/1000 units
    if !v.is_finite() {
        return 2_000_000_001;
    }
    ((v as f64 * 1000.0).round() as i64).clamp(-2_000_000_000, 2_000_000_000)
}

#[derive(Debug, Clone)]
pub struct Ast(Rc<RefCell<(usize, String, String, Vec<(String, String, Ast)>)>>);

impl BlockASTNode for Ast {
    fn from(id: usize, typ: &str, lbl: &str) -> Self {
        Ast(Rc::new(RefCell::new((id, typ.to_string(), lbl.to_string(), vec![]))))
    }
    fn add_node(&self, in_port: String, out_port: String, node: Self) {
        self.0.borrow_mut().3.push((in_port, out_port, node));
    }
}

impl Ast {
    pub fn show(&self, depth: usize) -> String {
        let b = self.0.borrow();
        if depth > 24 {
            return "...".to_string();
        }
        format!(
            "{}#{}:{}[{}]",
            b.1,
            b.0,
            b.2,
            b.3.iter()
                .map(|(a, o, n)| format!("{}<{}={}", a, o, n.show(depth + 1)))
                .collect::<Vec<_>>()
                .join(" ")
        )
    }
}

/// Everything one can see of a block function.
pub fn bf_show(bf: &mut BlockFun, size: i64) -> String {
    bf.recalculate_area_sizes();
    let mut out = String::new();
    let mut a = 0;
    while let Some(h) = BlockCodeView::area_header(bf, a) {
        let (w, hh) = bf.area_size(a);
        out += &format!("A{} {} {}x{};", a, h, w, hh);
        for x in -size..size {
            for y in -size..size {
                if let Some(b) = bf.block_at(a, x, y) {
                    let mut buf = [0u8; 64];
                    let n = b.label(&mut buf);
                    out += &format!(
                        "@{},{} r{} c{:?},{:?} {} {:?}",
                        x,
                        y,
                        b.rows(),
                        b.contains(0),
                        b.contains(1),
                        String::from_utf8_lossy(&buf[..n]),
                        b.custom_color()
                    );
                    for r in 0..b.rows().min(64) {
                        if b.has_input(r) {
                            let n = b.input_label(r, &mut buf);
                            out += &format!(" i{}{}", r, String::from_utf8_lossy(&buf[..n]));
                        }
                        if b.has_output(r) {
                            let n = b.output_label(r, &mut buf);
                            out += &format!(" o{}{}", r, String::from_utf8_lossy(&buf[..n]));
                        }
                    }
                    out += ";";
                }
            }
        }
        a += 1;
    }
    match bf.generate_tree::<Ast>("zero") {
        Ok(t) => out += &t.show(0),
        Err(e) => out += &format!("{:?}", e),
    }
    out
}

struct Pat {
    e: Eng,
    slots: HashMap<i64, Vec<u8>>,
    watch: Value,
    pats: Vec<usize>,
    bfs: Vec<usize>,
    dir: String,
    w: usize,
    h: usize,
}

fn err_name(e: &MatrixDeserError) -> &'static str {
    match e {
        MatrixDeserError::BadVersion => "version",
        MatrixDeserError::UnknownNode(_) => "node",
        MatrixDeserError::UnknownParamId(_) => "param",
        MatrixDeserError::Deserialization(_) => "syntax",
        MatrixDeserError::IO(_) => "io",
        MatrixDeserError::InvalidAtom(_) => "atom",
        MatrixDeserError::MatrixError(_) => "matrix",
    }
}

/// All leaves and containers of a JSON document, depth first.
fn paths(v: &Value, pre: &mut Vec<Value>, out: &mut Vec<Vec<Value>>) {
    out.push(pre.clone());
    match v {
        Value::Array(a) => {
            for (k, x) in a.iter().enumerate() {
                // the pattern data of one pattern alone has 1536 cells: visit a few
                if k > 9 && a.len() > 40 && k + 2 < a.len() {
                    continue;
                }
                pre.push(json!(k));
                paths(x, pre, out);
                pre.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o.iter() {
                pre.push(json!(k));
                paths(x, pre, out);
                pre.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, p: &[Value]) -> &'a mut Value {
    let mut c = v;
    for k in p {
        c = match k {
            Value::Number(n) => &mut c[n.as_u64().unwrap() as usize],
            Value::String(t) => &mut c[t.as_str()],
            _ => unreachable!(),
        };
    }
    c
}

/// Damages a stored patch: [[kind, position (per mille), value], ...]
fn mutate(data: &[u8], muts: &Value) -> Vec<u8> {
    let mut data = data.to_vec();
    for m in muts.as_array().unwrap() {
        let pos = u(&m[1]);
        match s(&m[0]) {
            "trunc" => {
                let n = data.len() * pos / 1_000_000;
                data.truncate(n);
            }
            "byte" => {
                if !data.is_empty() {
                    let n = (data.len() - 1) * pos / 1_000_000;
                    data[n] = i(&m[2]) as u8;
                }
            }
            kind => {
                let mut v: Value = match serde_json::from_slice(&data) {
                    Ok(v) => v,
                    Err(_) => continue,
                };
                let mut ps = vec![];
                paths(&v, &mut vec![], &mut ps);
                let sect = m[3].as_str().unwrap_or("");
                if !sect.is_empty() {
                    let sel: Vec<Vec<Value>> =
                        ps.iter().filter(|p| p.iter().any(|k| k == sect)).cloned().collect();
                    if !sel.is_empty() {
                        ps = sel;
                    }
                }
                if kind == "real" {
                    let sel: Vec<Vec<Value>> = ps.iter().filter(|p| at(&mut v, p).is_f64()).cloned().collect();
                    if sel.is_empty() {
                        continue;
                    }
                    ps = sel;
                }
                let p = ps[(ps.len() - 1) * pos / 1_000_000].clone();
                match kind {
                    "real" => *at(&mut v, &p) = m[2].clone(),
                    "set" => *at(&mut v, &p) = m[2].clone(),
                    "del" => {
                        if let Some((last, pre)) = p.split_last() {
                            match at(&mut v, pre) {
                                Value::Array(a) => {
                                    a.remove(last.as_u64().unwrap() as usize);
                                }
                                Value::Object(o) => {
                                    o.remove(last.as_str().unwrap());
                                }
                                _ => {}
                            }
                        }
                    }
                    "dup" => {
                        if let Some((last, pre)) = p.split_last() {
                            if let Value::Array(a) = at(&mut v, pre) {
                                let x = a[last.as_u64().unwrap() as usize].clone();
                                for _ in 0..u(&m[2]) {
                                    a.push(x.clone());
                                }
                            }
                        }
                    }
                    o => panic!("harness: mutation {}", o),
                }
                data = v.to_string().into_bytes();
            }
        }
    }
    data
}

/// Rewrites a stored patch in ways with a known meaning: [[kind, section, number], ...]
fn rewrite(data: &[u8], chg: &Value) -> Vec<u8> {
    let mut v: Value = serde_json::from_slice(data).unwrap();
    for c in chg.as_array().unwrap() {
        let n = i(&c[2]);
        match s(&c[0]) {
            "cut" => v[s(&c[1])].as_array_mut().unwrap().truncate(n as usize),
            "num" | "port" => {
                for cell in v["cells"].as_array_mut().unwrap() {
                    let id = NodeId::from_str(s(&cell[0]));
                    for (sect, idx) in [("inputs", 4), ("outputs", 5)] {
                        for k in 0..3 {
                            let x = &mut cell[idx][k];
                            if s(&c[0]) == "port" {
                                if s(&c[1]) == sect && !(x.as_i64() == Some(-1)) {
                                    *x = json!(n);
                                }
                            } else if let Some(name) = x.as_str() {
                                let p = if idx == 4 { id.inp(name) } else { id.out(name) };
                                *x = json!(p.unwrap());
                            }
                        }
                    }
                }
            }
            "extra" => {
                v["comment"] = json!({"cells": [1, 2, {"x": "y"}]});
                for x in v["patterns"].as_array_mut().unwrap() {
                    if x.is_object() {
                        x["color"] = json!([1, "red"]);
                    }
                }
            }
            "v1" => {
                // the first version of the format has normalised values
                v["VERSION"] = json!(n + 1);
                for x in v["params"].as_array_mut().unwrap() {
                    let id = NodeId::from_str(s(&x[0])).to_instance(u(&x[1]));
                    // (a section may contain a parameter that does not exist)
                    if let Some(p) = id.inp_param(s(&x[2])) {
                        x[3] = json!(p.norm(x[3].as_f64().unwrap() as f32));
                    }
                }
            }
            "nover" => {
                v.as_object_mut().unwrap().remove("VERSION");
            }
            "v3" => v["VERSION"] = json!(3),
            "nonode" => v["cells"].as_array_mut().unwrap().push(json!(["nosuchnode", 0, 0, 0, [-1, -1, -1], [-1, -1, -1]])),
            "noparam" => v["params"].as_array_mut().unwrap().push(json!(["sin", 0, "nosuchparam", 0.5])),
            "noatom" => v["atoms"].as_array_mut().unwrap().push(json!(["sin", 0, "nosuchatom", ["i", 1]])),
            o => panic!("harness: change {}", o),
        }
    }
    v.to_string().into_bytes()
}

impl Pat {
    fn fresh(&mut self, sr: f32) {
        let e = Eng::new(self.w, self.h, sr);
        let old = std::mem::replace(&mut self.e, e);
        bg_drop(old);
    }

    fn load_bytes(&mut self, data: &[u8], file: bool) -> Result<(), MatrixDeserError> {
        if file {
            let p = format!("{}/load.hxy", self.dir);
            std::fs::write(&p, data).unwrap();
            hexodsp::load_patch_from_file(&mut self.e.m, &p)
        } else {
            hexodsp::load_patch_from_mem(&mut self.e.m, data)
        }
    }

    fn dump(&mut self) -> Value {
        let mut ps = vec![];
        let mut ats = vec![];
        for k in self.watch.as_array().unwrap() {
            let p = par(k);
            let v = self.e.m.get_param(&p);
            if p.is_atom() {
                let d = p.as_atom_def();
                ats.push(json!([k, atom_str(&v.unwrap_or_else(|| d.clone())), atom_str(&d)]));
            } else {
                let d = p.norm_def();
                let f = v.map(|a| a.f()).unwrap_or(d);
                let ma = self.e.m.get_param_modamt(&p);
                ps.push(json!([k, fx(f), fxd(p.denorm(f)), fx(d), fxd(p.denorm(d)),
                               ma.map(fx).unwrap_or(-99999)]));
            }
        }
        let mut props = vec![];
        for k in ["a", "b", "c"] {
            props.push(json!([k, self.e.m.get_prop(k).map(atom_str).unwrap_or("-".to_string())]));
        }
        let mut pats = vec![];
        for t in self.pats.clone() {
            let pd = self.e.m.get_pattern_data(t).unwrap();
            let mut pd = pd.lock().unwrap();
            let mut cells = vec![];
            for r in 0..256 {
                for c in 0..6 {
                    if let Some(t) = pd.get_cell(r, c).map(|t| t.to_string()) {
                        let shown = if t.len() >= 3 { i64::from_str_radix(&t, 16).unwrap_or(-1) } else { -2 };
                        cells.push(json!([r, c, pd.get_cell_value(r, c), shown]));
                    }
                }
            }
            let ty: Vec<&str> = (0..6)
                .map(|c| {
                    if pd.is_col_note(c) { "n" } else if pd.is_col_step(c) { "s" } else if pd.is_col_gate(c) { "g" } else { "v" }
                })
                .collect();
            pats.push(json!({"id": t, "rows": pd.rows(), "ty": ty, "cells": cells,
                             "cur": [pd.get_cursor().0, pd.get_cursor().1], "es": pd.get_edit_step()}));
        }
        let mut blks = vec![];
        for b in self.bfs.clone() {
            let bf = self.e.m.get_block_function(b).unwrap();
            let mut bf = bf.lock().unwrap();
            blks.push(json!([b, bf_show(&mut bf, 16)]));
        }
        json!({"lay": cells_json(&self.e.m), "ps": ps, "ats": ats, "props": props, "pats": pats, "blks": blks})
    }

    fn step(&mut self, op: &Value) -> Value {
        match s(&op["op"]) {
            "place" => {
                for c in op["cells"].as_array().unwrap() {
                    self.e.m.place(u(&c["x"]), u(&c["y"]), cell(c));
                }
                json!({})
            }
            "sync" => json!({"res": res(self.e.m.sync())}),
            "clear" => {
                self.e.m.clear();
                json!({})
            }
            "setp" => {
                let p = par(&op["k"]);
                let v = unfx(i(&op["v"]));
                self.e.m.set_param(p, SAtom::param(v));
                json!({"d": fxd(p.denorm(v))})
            }
            "seta" => {
                let a = atom(&op["a"]);
                let st = atom_str(&a);
                self.e.m.set_param(par(&op["k"]), a);
                json!({"s": st})
            }
            "mod" => {
                let a = i(&op["a"]);
                let r = self.e.m.set_param_modamt(par(&op["k"]), if a == -99999 { None } else { Some(unfx(a)) });
                json!({"res": res(r)})
            }
            "prop" => {
                let a = atom(&op["a"]);
                let st = atom_str(&a);
                self.e.m.set_prop(s(&op["k"]), a);
                json!({"s": st})
            }
            "pat" => {
                let pd = self.e.m.get_pattern_data(u(&op["t"])).unwrap();
                let mut pd = pd.lock().unwrap();
                let (a, b, c) = (u(&op["a"]), u(&op["b"]), u(&op["c"]));
                match s(&op["k"]) {
                    "set" => pd.set_cell_value(a, b, c as u16),
                    "clr" => pd.clear_cell(a, b),
                    "rows" => pd.set_rows(a),
                    "cur" => pd.set_cursor(a, b),
                    "es" => pd.set_edit_step(a),
                    "n" => pd.set_col_note_type(a),
                    "s" => pd.set_col_step_type(a),
                    "v" => pd.set_col_value_type(a),
                    "g" => pd.set_col_gate_type(a),
                    o => panic!("harness: pat {}", o),
                }
                json!({})
            }
            "blkfun" => {
                let bf = self.e.m.get_block_function(u(&op["b"])).unwrap();
                let mut bf = bf.lock().unwrap();
                let (a, x, y) = (u(&op["a"]), i(&op["x"]), i(&op["y"]));
                let r = match s(&op["k"]) {
                    "new" => bf
                        .instanciate_at(a, x, y, s(&op["typ"]), op["lbl"].as_str().filter(|t| !t.is_empty()).map(|t| t.to_string()))
                        .is_ok(),
                    "rem" => bf.remove_at(a, x, y).is_ok(),
                    "shift" => {
                        let rows = bf.block_at(a, x, y).map(|b| b.rows()).unwrap_or(0);
                        if rows > 1 {
                            bf.shift_port(a, x, y, rows - 1, true);
                        }
                        true
                    }
                    o => panic!("harness: blkfun {}", o),
                };
                json!({"ok": r as i64, "show": bf_show(&mut bf, 16)})
            }
            "save" => {
                let d = if s(&op["how"]) == "file" {
                    let p = format!("{}/save.hxy", self.dir);
                    hexodsp::save_patch_to_file(&mut self.e.m, &p).unwrap();
                    std::fs::read(&p).unwrap()
                } else {
                    hexodsp::save_patch_to_mem(&mut self.e.m)
                };
                self.slots.insert(i(&op["slot"]), d);
                json!({})
            }
            "load" => {
                let d = self.slots[&i(&op["slot"])].clone();
                if i(&op["fresh"]) == 1 {
                    self.fresh(44100.0);
                }
                let r = self.load_bytes(&d, s(&op["how"]) == "file");
                json!({"res": match r { Ok(()) => "ok", Err(e) => err_name(&e) }})
            }
            "loadas" => {
                let d = rewrite(&self.slots[&i(&op["slot"])].clone(), &op["chg"]);
                if i(&op["fresh"]) == 1 {
                    self.fresh(44100.0);
                }
                let r = self.load_bytes(&d, s(&op["how"]) == "file");
                json!({"res": match r { Ok(()) => "ok", Err(e) => err_name(&e) }})
            }
            "loadmut" => {
                let muts: Value = serde_json::from_str(s(&op["muts"])).unwrap();
                let d = mutate(&self.slots[&i(&op["slot"])].clone(), &muts);
                let r = self.load_bytes(&d, s(&op["how"]) == "file");
                json!({"res": match r { Ok(()) => "ok", Err(e) => err_name(&e) }})
            }
            "blk" => {
                self.e.ex.process_graph_updates();
                for _ in 0..u(&op["n"]) {
                    self.e.block(128);
                }
                json!({})
            }
            "chk" => {
                for t in self.pats.clone() {
                    for _ in 0..8 {
                        self.e.m.check_pattern_data(t);
                    }
                }
                let mut rs = vec![];
                for b in self.bfs.clone() {
                    rs.push(self.e.m.check_block_function(b).is_ok() as i64);
                }
                json!({"compiled": rs})
            }
            "dump" => self.dump(),
            o => panic!("harness: unknown op {}", o),
        }
    }
}

pub fn run(script: &Value) -> Value {
    let cfg = &script["cfg"];
    let (w, h) = (u(&cfg["w"]), u(&cfg["h"]));
    let dir = std::env::var("HEXO_SCRATCH").unwrap_or("/tmp".to_string());
    let mut p = Pat {
        e: Eng::new(w, h, 44100.0),
        slots: HashMap::new(),
        watch: cfg["watch"].clone(),
        pats: cfg["pats"].as_array().unwrap().iter().map(u).collect(),
        bfs: cfg["bfs"].as_array().unwrap().iter().map(u).collect(),
        dir,
        w,
        h,
    };
    let (ev, ok) = drive(script, |op| p.step(op));
    if ok {
        bg_drop(p.e);
    } else {
        std::mem::forget(p.e);
    }
    trace(script, ev)
}

/// The node catalogue, for the script generators.
pub fn catalog() -> Value {
    let mut out = vec![];
    {
        for n in hexodsp::dsp::ALL_NODE_IDS.iter().filter(|n| **n != NodeId::Nop) {
            let mut ins = vec![];
            let mut ats = vec![];
            let mut k = 0;
            while let Some(p) = n.param_by_idx(k) {
                if p.is_atom() {
                    ats.push(json!([p.name(), atom_str(&p.as_atom_def()), p.setting_min_max().map(|m| json!([m.0, m.1]))]));
                } else {
                    let mm = p.param_min_max().unwrap().0;
                    ins.push(json!([p.name(), mm.0, mm.1]));
                }
                k += 1;
            }
            let mut outs = vec![];
            let mut o = 0;
            while let Some(nm) = n.out_name_by_idx(o) {
                outs.push(nm);
                o += 1;
            }
            out.push(json!({"n": n.name(), "ins": ins, "ats": ats, "outs": outs}));
        }
    }
    json!(out)
}
