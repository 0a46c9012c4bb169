//! Driver compiled together with generated code: JSON lines in, JSON lines out.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Probe = fn(&str) -> Value;

fn guarded(f: impl FnOnce() -> Value) -> Value {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| json!({"st": "panic", "ok": false}))
}

/// Reads a value and validates it.
pub fn valid<T>(x: &str) -> Value
where
    T: std::str::FromStr + xsd_parser::generator::validator::Validate,
{
    match x.parse::<T>() {
        Err(_) => json!({"st": "err", "ok": false}),
        Ok(v) => {
            let ok = v.validate().is_ok();
            json!({"st": "ok", "ok": ok})
        }
    }
}

/// Reads a document, writes it, reads it again.
pub fn trip<T>(x: &str) -> Value
where
    T: yaserde::YaSerialize + yaserde::YaDeserialize + PartialEq + std::fmt::Debug,
{
    let v: T = match yaserde::de::from_str(x) {
        Err(e) => return json!({"st": "de", "msg": e}),
        Ok(v) => v,
    };
    let debug = format!("{:?}", v);
    let out = match yaserde::ser::to_string(&v) {
        Err(e) => return json!({"st": "ser", "msg": e, "debug": debug}),
        Ok(s) => s,
    };
    let back: Result<T, String> = yaserde::de::from_str(&out);
    let (st, eq) = match &back {
        Err(_) => ("again", false),
        Ok(w) => ("ok", *w == v),
    };
    json!({"st": st, "eq": eq, "out": out, "debug": debug})
}

pub fn serve(probe: fn(&str) -> Option<Probe>) {
    std::panic::set_hook(Box::new(|_| {}));
    let work = move || {
        let stdin = std::io::stdin();
        let mut out = std::io::BufWriter::new(std::io::stdout());
        for line in stdin.lock().lines() {
            let cmd: Value = serde_json::from_str(&line.unwrap()).unwrap();
            let f = probe(cmd["p"].as_str().unwrap()).unwrap();
            let res: Vec<Value> = cmd["xs"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| guarded(|| f(x.as_str().unwrap())))
                .collect();
            writeln!(out, "{}", json!({"id": cmd["id"], "st": "ok", "res": res})).unwrap();
            out.flush().unwrap();
        }
    };
    std::thread::Builder::new().stack_size(64 << 20).spawn(work).unwrap().join().unwrap();
}
