//! Drives the code under test: one JSON command per line in, one JSON observation per line
//! out. It only calls and projects; what is right is decided by the specification.
mod custom;
mod lex;
mod notes;
mod project;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

static PANIC: Mutex<String> = Mutex::new(String::new());

fn guarded(f: impl FnOnce() -> Value) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => json!({"st": "panic", "msg": PANIC.lock().unwrap().clone()}),
    }
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

pub fn generate(text: &'static str) -> Result<String, String> {
    let file = xsd_parser::parser::parse(text).map_err(|_| "err".to_string())?;
    Ok(xsd_parser::generator::builder::GeneratorBuilder::default().build().generate_rs_file(&file))
}

/// The tokens of the code, documentation attributes apart.
fn token_text(code: &str) -> String {
    use proc_macro2::{Delimiter, TokenStream, TokenTree};
    fn walk(ts: TokenStream, out: &mut String) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&toks[i], toks.get(i + 1)) {
                if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket
                    && g.stream().to_string().starts_with("doc") {
                    i += 2;
                    continue;
                }
            }
            match &toks[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    out.push_str(o);
                    walk(g.stream(), out);
                    out.push_str(c);
                }
                t => {
                    out.push_str(&t.to_string());
                    out.push(' ');
                }
            }
            i += 1;
        }
    }
    let mut s = String::new();
    match code.parse::<TokenStream>() {
        Ok(ts) => walk(ts, &mut s),
        Err(e) => s = format!("not Rust: {}", e),
    }
    s
}

fn projected(code: &str, raw: bool) -> Value {
    let mut v = match project::project(code) {
        Err(e) => json!({"st": "syntax", "msg": e, "items": [], "fns": [], "other": [], "uses": []}),
        Ok(p) => json!({"st": "ok", "items": p.items, "fns": p.fns, "other": p.other, "uses": p.uses}),
    };
    if raw {
        v["code"] = json!(code);
    }
    v
}

fn xsd(cmd: &Value) -> Value {
    let raw = cmd["raw"] == json!(true);
    match generate(leak(cmd["text"].as_str().unwrap())) {
        Err(e) => json!({"st": e}),
        Ok(code) => {
            let mut v = projected(&code, raw);
            if cmd["tokens"] == json!(true) {
                v["tokens"] = json!(token_text(&code));
            }
            if cmd["notes"] == json!(true) {
                v["notes"] = json!(notes::notes(&code));
            }
            v
        }
    }
}

fn wsdl_code(text: &'static str) -> Result<(String, String), String> {
    let doc = Box::leak(Box::new(
        roxmltree::Document::parse(text).map_err(|_| "err".to_string())?,
    ));
    let root: &'static roxmltree::Node<'static, 'static> = Box::leak(Box::new(doc.root_element()));
    let definitions = wsdl_parser::parser::definitions::Definitions::new(root);
    let gen = xsd_parser::generator::builder::GeneratorBuilder::default().build();
    let schemas: Vec<_> = definitions.types().iter().flat_map(|t| t.schemas()).collect();
    let code: Vec<String> = schemas
        .iter()
        .map(|f| gen.generate_rs_file(&xsd_parser::parser::schema::parse_schema(f)))
        .collect();
    let fns = wsdl_parser::generator::generate(&definitions);
    Ok((code.join(""), fns))
}

fn wsdl(cmd: &Value) -> Value {
    match wsdl_code(leak(cmd["text"].as_str().unwrap())) {
        Err(e) => json!({"st": e}),
        Ok((schemas, fns)) => {
            let mut v = projected(&(schemas + &fns), cmd["raw"] == json!(true));
            v["notes"] = json!(notes::notes(&fns));
            v
        }
    }
}

/// What the library tells of a WSDL document.
fn wsdl_model(cmd: &Value) -> Value {
    use wsdl_parser::parser::{binding::Binding, definitions::Definitions, port_type::{Fault, OperationType, Param}};
    let text: &'static str = leak(cmd["text"].as_str().unwrap());
    let doc = match roxmltree::Document::parse(text) {
        Ok(d) => Box::leak(Box::new(d)),
        Err(_) => return json!({"st": "err"}),
    };
    let root: &'static roxmltree::Node<'static, 'static> = Box::leak(Box::new(doc.root_element()));
    let d = Definitions::new(root);
    let param = |p: &Param| {
        let m = d.get_message_by_param(p);
        json!({"name": p.name().unwrap_or(""), "msg": p.message(), "finds": m.map(|m| m.name()).unwrap_or("")})
    };
    let none = json!({"name": "", "msg": "", "finds": ""});
    let faults = |fs: &Vec<Fault>| -> Vec<Value> { fs.iter().map(|f| json!({"name": f.name(), "msg": f.message()})).collect() };
    let pts: Vec<Value> = d.port_types().iter().map(|(key, p)| {
        let ops: Vec<Value> = p.operations().iter().map(|o| {
            let (kind, i, out, f) = match o.operation_type() {
                OperationType::RequestResponse { input, output, faults: f } => ("rr", param(input), param(output), faults(f)),
                OperationType::OneWay { input } => ("ow", param(input), none.clone(), vec![]),
                OperationType::SolicitResponse { output, input, faults: f } => ("sr", param(input), param(output), faults(f)),
                OperationType::Notification { output } => ("no", none.clone(), param(output), vec![]),
            };
            json!({"name": o.name(), "order": o.parameter_order().unwrap_or(""), "doc": o.documentation().unwrap_or(""),
                   "kind": kind, "inp": i, "out": out, "faults": f})
        }).collect();
        json!({"key": key, "name": p.name(), "ops": ops})
    }).collect();
    let msgs: Vec<Value> = d.messages().iter().map(|(key, m)| {
        let parts: Vec<Value> = m.parts().iter().map(|p| {
            let (by, q) = match (p.element(), p.type_()) {
                (Some(e), None) => ("element", e),
                (None, Some(t)) => ("type", t),
                (None, None) => ("none", ""),
                _ => ("both", ""),
            };
            json!({"name": p.name(), "by": by, "q": q})
        }).collect();
        json!({"key": key, "name": m.name(), "parts": parts})
    }).collect();
    let imports: Vec<Value> = d.imports().iter().map(|(key, i)| json!({"key": key, "ns": i.namespace(), "loc": i.location()})).collect();
    let types: Vec<Vec<&str>> = d.types().iter().map(|t| t.schemas().iter().map(|s| s.attribute("targetNamespace").unwrap_or("")).collect::<Vec<_>>()
        .into_iter().map(|s| &*Box::leak(s.to_string().into_boxed_str())).collect()).collect();
    let binds: Vec<Value> = root.children().filter(|n| n.has_tag_name(("http://schemas.xmlsoap.org/wsdl/", "binding")))
        .map(|n| { let b = Binding::new(&n); json!({"name": b.name(), "ty": b.type_()}) }).collect();
    json!({"st": "ok", "model": {
        "name": d.name().unwrap_or(""),
        "tns": d.target_namespace().map(|n| vec![n.name().unwrap_or(""), n.uri()]).unwrap_or_default(),
        "imports": imports, "types": types, "msgs": msgs, "pts": pts, "binds": binds}})
}

/// A history of calls in one process: parsed files and generators are reused.
fn session(cmd: &Value) -> Value {
    use xsd_parser::generator::{builder::GeneratorBuilder, Generator};
    use xsd_parser::parser::types::RsFile;
    let mut files: Vec<Option<RsFile<'static>>> = vec![];
    let mut gens: Vec<Generator<'static>> = vec![];
    let texts: Vec<&'static str> =
        cmd["texts"].as_array().unwrap().iter().map(|t| leak(t.as_str().unwrap())).collect();
    let mut out = vec![];
    for op in cmd["ops"].as_array().unwrap() {
        let a = op["a"].as_str().unwrap();
        let n = |k: &str| op[k].as_u64().unwrap_or(0) as usize;
        let res = guarded(|| match a {
            "parse" => {
                let f = xsd_parser::parser::parse(texts[n("t") - 1]).ok();
                let ok = f.is_some();
                files.push(f);
                json!({"st": if ok { "ok" } else { "err" }})
            }
            "new" => {
                gens.push(GeneratorBuilder::default().build());
                json!({"st": "ok"})
            }
            "clone" => {
                let f = files[n("f") - 1].clone();
                files.push(f);
                json!({"st": "ok"})
            }
            "gen" => match &files[n("f") - 1] {
                Some(f) => json!({"st": "ok", "code": gens[n("g") - 1].generate_rs_file(f)}),
                None => json!({"st": "nofile"}),
            },
            "entity" => match &files[n("f") - 1] {
                // single entities through the same generator
                Some(f) => {
                    let code: String = f.types.iter().map(|e| gens[n("g") - 1].generate(e)).collect();
                    json!({"st": "ok", "code": code})
                }
                None => json!({"st": "nofile"}),
            },
            "wsdl" => match wsdl_code(texts[n("t") - 1]) {
                Ok((a, b)) => json!({"st": "ok", "code": a + &b}),
                Err(_) => json!({"st": "err"}),
            },
            _ => json!({"st": "?"}),
        });
        if a == "parse" && res["st"] == json!("panic") {
            files.push(None);
        }
        out.push(res);
    }
    json!({"st": "ok", "res": out})
}

fn dispatch(cmd: &Value) -> Value {
    match cmd["cmd"].as_str().unwrap() {
        "custom" => custom::observe(cmd, leak(cmd["text"].as_str().unwrap())),
        "xsd" => xsd(cmd),
        "wsdl" => wsdl(cmd),
        "wsdlmodel" => wsdl_model(cmd),
        "parse" => match xsd_parser::parser::parse(leak(cmd["text"].as_str().unwrap())) {
            Ok(_) => json!({"st": "ok"}),
            Err(_) => json!({"st": "err"}),
        },
        "session" => session(cmd),
        "project" => projected(cmd["text"].as_str().unwrap(), false),
        "lex" => lex::lex(cmd),
        c => json!({"st": format!("unknown command {}", c)}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        *PANIC.lock().unwrap() = i.to_string();
    }));
    let work = || {
        let stdin = std::io::stdin();
        let mut out = std::io::BufWriter::new(std::io::stdout());
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            if line.is_empty() {
                continue;
            }
            let cmd: Value = serde_json::from_str(&line).unwrap();
            let mut res = guarded(|| dispatch(&cmd));
            res["id"] = cmd["id"].clone();
            serde_json::to_writer(&mut out, &res).unwrap();
            out.write_all(b"\n").unwrap();
            out.flush().unwrap();
        }
    };
    std::thread::Builder::new().stack_size(64 << 20).spawn(work).unwrap().join().unwrap();
}
