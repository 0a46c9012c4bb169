//! Projection of generated Rust code to plain data: what is defined, where, with which
//! members, types and (de)serialization attributes. Formatting, comments and order of the
//! code are not part of it.
use quote::ToTokens;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

fn tight<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

fn ident(i: &syn::Ident) -> String {
    i.to_string()
}

#[derive(Default)]
struct Ya {
    prefix: String,
    namespace: String,
    rename: Option<String>,
    attribute: bool,
    flatten: bool,
    text: bool,
    other: Vec<String>,
    count: usize,
}

fn yaserde(attrs: &[syn::Attribute]) -> Ya {
    let mut ya = Ya::default();
    for a in attrs.iter().filter(|a| a.path().is_ident("yaserde")) {
        ya.count += 1;
        let res = a.parse_nested_meta(|m| {
            let key = m.path.get_ident().map(ident).unwrap_or_default();
            let val = if m.input.peek(syn::Token![=]) {
                let v = m.value()?;
                let l: syn::LitStr = v.parse()?;
                Some(l.value())
            } else {
                None
            };
            match (key.as_str(), val) {
                ("prefix", Some(v)) => ya.prefix = v,
                ("namespace", Some(v)) => ya.namespace = v,
                ("rename", Some(v)) => ya.rename = Some(v),
                ("attribute", None) => ya.attribute = true,
                ("flatten", None) => ya.flatten = true,
                ("text", None) => ya.text = true,
                // how the default namespace is spelt: judged by the bytes written and read (P09)
                ("default_namespace", Some(v)) if v.is_empty() => (),
                (k, v) => ya.other.push(format!("{}={}", k, v.unwrap_or_default())),
            }
            Ok(())
        });
        if res.is_err() {
            ya.other.push(format!("?{}", tight(a)));
        }
    }
    ya
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs.iter().filter(|a| a.path().is_ident("derive")) {
        let _ = a.parse_nested_meta(|m| {
            v.push(tight(&m.path));
            Ok(())
        });
    }
    v
}

fn other_attrs(attrs: &[syn::Attribute]) -> Vec<String> {
    attrs
        .iter()
        .filter(|a| {
            !a.path().is_ident("derive") && !a.path().is_ident("yaserde") && !a.path().is_ident("doc")
                && !a.path().is_ident("allow")
        })
        .map(tight)
        .collect()
}

pub struct Projection {
    pub items: Vec<Value>,
    pub fns: Vec<Value>,
    pub other: Vec<String>,
    /// Type paths that occur in definitions: (module path, path text)
    pub uses: Vec<Value>,
}

fn collect_paths(t: &syn::Type, path: &[String], out: &mut Vec<Value>) {
    match t {
        syn::Type::Path(p) => {
            let segs: Vec<String> = p.path.segments.iter().map(|s| ident(&s.ident)).collect();
            out.push(json!({"path": path, "segs": segs}));
            for s in &p.path.segments {
                if let syn::PathArguments::AngleBracketed(ab) = &s.arguments {
                    for a in &ab.args {
                        if let syn::GenericArgument::Type(t) = a {
                            collect_paths(t, path, out);
                        }
                    }
                }
            }
        }
        syn::Type::Reference(r) => collect_paths(&r.elem, path, out),
        _ => (),
    }
}

pub fn project(code: &str) -> Result<Projection, String> {
    let file = syn::parse_file(code).map_err(|e| e.to_string())?;
    let mut p = Projection { items: vec![], fns: vec![], other: vec![], uses: vec![] };
    let mut impls: BTreeMap<(Vec<String>, String), Vec<String>> = BTreeMap::new();
    walk(&file.items, &[], &mut p, &mut impls);
    for it in p.items.iter_mut() {
        let o = it.as_object_mut().unwrap();
        if o.get("odd").map_or(false, |v| v.as_array().map_or(false, |a| a.is_empty())) {
            o.remove("odd");
        }
        if o["k"] == "mod" {
            continue;
        }
        let path: Vec<String> =
            o["path"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect();
        let key = (path, o["name"].as_str().unwrap().to_string());
        let mut v = impls.get(&key).cloned().unwrap_or_default();
        v.sort();
        o.insert("impls".into(), json!(v));
    }
    // implementations for nothing that is defined
    for (path, name) in impls.keys() {
        let found = p.items.iter().any(|i| {
            i["k"] != "mod" && i["name"] == json!(name) && i["path"] == json!(path)
        });
        if !found {
            p.other.push(format!("impl for {}::{}", path.join("::"), name));
        }
    }
    Ok(p)
}

fn walk(
    items: &[syn::Item],
    path: &[String],
    p: &mut Projection,
    impls: &mut BTreeMap<(Vec<String>, String), Vec<String>>,
) {
    for item in items {
        match item {
            syn::Item::Struct(s) => {
                let ya = yaserde(&s.attrs);
                let mut o = Map::new();
                o.insert("path".into(), json!(path));
                o.insert("name".into(), json!(ident(&s.ident)));
                o.insert("derives".into(), json!(derives(&s.attrs)));
                o.insert("odd".into(), json!(odd(&s.attrs, &ya, &s.vis, &s.generics)));
                match &s.fields {
                    syn::Fields::Unnamed(u) => {
                        o.insert("k".into(), json!("tuple"));
                        let tys: Vec<String> = u.unnamed.iter().map(|f| tight(&f.ty)).collect();
                        for f in &u.unnamed {
                            collect_paths(&f.ty, path, &mut p.uses);
                        }
                        o.insert("ty".into(), json!(tys.join(",")));
                    }
                    fields => {
                        o.insert("k".into(), json!("struct"));
                        o.insert("yp".into(), json!(ya.prefix));
                        o.insert("yns".into(), json!(ya.namespace));
                        let fs: Vec<Value> = fields
                            .iter()
                            .map(|f| {
                                let ya = yaserde(&f.attrs);
                                collect_paths(&f.ty, path, &mut p.uses);
                                let id = f.ident.as_ref().map(ident).unwrap_or_default();
                                let src = if ya.flatten {
                                    "ch"
                                } else if ya.attribute {
                                    "at"
                                } else if ya.text {
                                    "tx"
                                } else {
                                    "el"
                                };
                                let xml = if src == "ch" || src == "tx" {
                                    ya.rename.clone().unwrap_or_default()
                                } else {
                                    ya.rename.clone().unwrap_or_else(|| id.clone())
                                };
                                let mut odd = ya.other.clone();
                                odd.extend(other_attrs(&f.attrs));
                                if !matches!(f.vis, syn::Visibility::Public(_)) {
                                    odd.push("private".into());
                                }
                                let mut fo = json!({"id": id, "ty": tight(&f.ty), "src": src,
                                    "pre": ya.prefix, "xml": xml});
                                if !odd.is_empty() {
                                    fo["odd"] = json!(odd);
                                }
                                fo
                            })
                            .collect();
                        o.insert("fields".into(), json!(fs));
                    }
                }
                p.items.push(Value::Object(o));
            }
            syn::Item::Enum(e) => {
                let ya = yaserde(&e.attrs);
                let cases: Vec<Value> = e
                    .variants
                    .iter()
                    .map(|v| {
                        let ya = yaserde(&v.attrs);
                        let tys: Vec<String> = v.fields.iter().map(|f| tight(&f.ty)).collect();
                        for f in v.fields.iter() {
                            collect_paths(&f.ty, path, &mut p.uses);
                        }
                        let id = ident(&v.ident);
                        let mut odd = ya.other.clone();
                        odd.extend(other_attrs(&v.attrs));
                        if ya.attribute || ya.flatten || ya.text {
                            odd.push("attr".into());
                        }
                        let mut c = json!({"id": id, "ty": tys.join(","), "pre": ya.prefix,
                            "xml": ya.rename.unwrap_or(id)});
                        if !odd.is_empty() {
                            c["odd"] = json!(odd);
                        }
                        c
                    })
                    .collect();
                p.items.push(json!({"k": "enum", "path": path, "name": ident(&e.ident),
                    "derives": derives(&e.attrs), "yp": ya.prefix, "yns": ya.namespace,
                    "odd": odd(&e.attrs, &ya, &e.vis, &e.generics), "cases": cases}));
            }
            syn::Item::Mod(m) => {
                let mut inner = path.to_vec();
                inner.push(ident(&m.ident));
                let content = m.content.as_ref().map(|c| c.1.as_slice()).unwrap_or(&[]);
                let has_super = content.iter().any(|i| match i {
                    syn::Item::Use(u) => tight(&u.tree) == "super::*",
                    _ => false,
                });
                p.items.push(json!({"k": "mod", "path": path, "name": ident(&m.ident),
                    "super": has_super}));
                walk(content, &inner, p, impls);
            }
            syn::Item::Impl(i) => {
                let tr = i.trait_.as_ref().map(|t| tight(&t.1)).unwrap_or_default();
                impls.entry((path.to_vec(), tight(&i.self_ty))).or_default().push(tr);
            }
            syn::Item::Use(u) if tight(&u.tree) == "super::*" => (),
            syn::Item::Fn(f) => {
                let args: Vec<Value> = f
                    .sig
                    .inputs
                    .iter()
                    .map(|a| match a {
                        syn::FnArg::Typed(t) => {
                            collect_paths(&t.ty, path, &mut p.uses);
                            json!({"id": tight(&t.pat), "ty": tight(&t.ty)})
                        }
                        _ => json!({"id": "self", "ty": ""}),
                    })
                    .collect();
                let ret = match &f.sig.output {
                    syn::ReturnType::Default => "".to_string(),
                    syn::ReturnType::Type(_, t) => tight(t),
                };
                p.fns.push(json!({"path": path, "name": ident(&f.sig.ident),
                    "async": f.sig.asyncness.is_some(),
                    "pub": matches!(f.vis, syn::Visibility::Public(_)),
                    "generics": f.sig.generics.params.iter().map(tight).collect::<Vec<_>>(),
                    "args": args, "ret": ret, "body": tight(&f.block)}));
            }
            other => p.other.push(tight(other)),
        }
    }
}

fn odd(attrs: &[syn::Attribute], ya: &Ya, vis: &syn::Visibility, g: &syn::Generics) -> Vec<String> {
    let mut v = ya.other.clone();
    v.extend(other_attrs(attrs));
    if ya.rename.is_some() || ya.attribute || ya.flatten || ya.text {
        v.push("yaserde".into());
    }
    if !matches!(vis, syn::Visibility::Public(_)) {
        v.push("private".into());
    }
    if !g.params.is_empty() {
        v.push("generic".into());
    }
    v
}
