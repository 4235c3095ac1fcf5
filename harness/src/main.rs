// Conformance harness: executes operation scripts on the real HexoDSP code and
// records what was observed.  It contains no expectations: those live in ../spec.
mod util;
mod eng;
mod trk;
mod pat;
mod sav;
mod blk;
mod con;
mod midi;
mod nod;
mod rt;
mod mon;

use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn run(family: &str, script: &Value) -> Value {
    match family {
        "eng" => eng::run(script),
        "trk" => trk::run(script),
        "pat" => pat::run(script),
        "sav" => sav::run(script),
        "blk" => blk::run(script),
        "con" => con::run(script),
        "midi" => midi::run(script),
        "rt" => rt::run(script),
        "mon" => mon::run(script),
        "nod" => nod::run(script),
        _ => panic!("unknown family {}", family),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "catalog" {
        std::fs::write(&args[2], pat::catalog().to_string()).unwrap();
        return;
    }
    let (family, inp, out) = (&args[1], &args[2], &args[3]);
    std::panic::set_hook(Box::new(|info| util::note_panic(info)));
    let r = std::io::BufReader::new(std::fs::File::open(inp).unwrap());
    let mut w = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for line in r.lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let script: Value = serde_json::from_str(&line).unwrap();
        // liveness marker, so that a crash or hang can be attributed to this script
        writeln!(w, "{}", json!({"start": script["id"]})).unwrap();
        w.flush().unwrap();
        let tr = run(family, &script);
        writeln!(w, "{}", tr).unwrap();
        w.flush().unwrap();
    }
    writeln!(w, "{}", json!({"done": 1})).unwrap();
    w.flush().unwrap();
    // engines are torn down in the background (their drop thread naps 250ms)
    std::process::exit(0);
}
