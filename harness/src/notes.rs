//! Comments of generated code: the words in front of each definition, member and variant.
use proc_macro2::{LineColumn, Span, TokenStream, TokenTree};
use serde_json::{json, Value};

struct Anchor {
    at: LineColumn,
    path: Vec<String>,
    name: String,
    mem: String,
}

fn anchors(items: &[syn::Item], path: &[String], out: &mut Vec<Anchor>) {
    let mut add = |span: Span, name: &syn::Ident, mem: String| {
        out.push(Anchor { at: span.start(), path: path.to_vec(), name: name.to_string(), mem })
    };
    for item in items {
        match item {
            syn::Item::Struct(s) => {
                add(s.ident.span(), &s.ident, String::new());
                for id in s.fields.iter().filter_map(|f| f.ident.as_ref()) {
                    add(id.span(), &s.ident, id.to_string());
                }
            }
            syn::Item::Enum(e) => {
                add(e.ident.span(), &e.ident, String::new());
                for v in &e.variants {
                    add(v.ident.span(), &e.ident, v.ident.to_string());
                }
            }
            syn::Item::Fn(f) => add(f.sig.ident.span(), &f.sig.ident, String::new()),
            _ => (),
        }
    }
    for item in items {
        if let syn::Item::Mod(m) = item {
            let mut inner = path.to_vec();
            inner.push(m.ident.to_string());
            anchors(m.content.as_ref().map(|c| c.1.as_slice()).unwrap_or(&[]), &inner, out);
        }
    }
}

fn token_ends(ts: TokenStream, out: &mut Vec<(LineColumn, LineColumn)>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                out.push((g.span_open().start(), g.span_open().end()));
                token_ends(g.stream(), out);
                out.push((g.span_close().start(), g.span_close().end()));
            }
            t => out.push((t.span().start(), t.span().end())),
        }
    }
}

/// The words of the comments in a text of comments and whitespace.
fn comment_words(text: &str, out: &mut Vec<String>) {
    let mut rest = text;
    while let Some(i) = rest.find('/') {
        let body = &rest[i..];
        let (inner, len) = if body.starts_with("/*") {
            let end = body.find("*/").unwrap_or(body.len());
            (&body[2.min(end)..end], (end + 2).min(body.len()))
        } else {
            let end = body.find('\n').unwrap_or(body.len());
            (body[..end].strip_prefix("//").unwrap_or(&body[1..end]), end)
        };
        out.extend(inner.split_whitespace().map(str::to_string));
        rest = &body[len..];
    }
}

pub fn notes(code: &str) -> Vec<Value> {
    let (file, tokens) = match (syn::parse_file(code), code.parse::<TokenStream>()) {
        (Ok(f), Ok(t)) => (f, t),
        _ => return vec![],
    };
    let mut ends = vec![];
    token_ends(tokens, &mut ends);
    let mut wanted = vec![];
    anchors(&file.items, &[], &mut wanted);
    wanted.sort_by_key(|a| (a.at.line, a.at.column));

    // byte offset of every line
    let mut starts = vec![0];
    starts.extend(code.match_indices('\n').map(|(i, _)| i + 1));
    let offset = |p: LineColumn| {
        let line = &code[starts[p.line - 1]..];
        starts[p.line - 1] + line.char_indices().nth(p.column).map_or(line.len(), |(i, _)| i)
    };

    let mut out = vec![];
    let mut words = vec![];
    let mut last = 0;
    let mut next = wanted.into_iter().peekable();
    for (from, to) in ends {
        let at = offset(from);
        if at > last {
            comment_words(&code[last..at], &mut words);
        }
        last = offset(to).max(last);
        while next.peek().map_or(false, |a| a.at == from) {
            let a = next.next().unwrap();
            out.push(json!({"path": a.path, "name": a.name, "mem": a.mem,
                "words": std::mem::take(&mut words)}));
        }
    }
    comment_words(&code[last..], &mut words);
    out.push(json!({"path": Vec::<String>::new(), "name": "", "mem": "", "words": words}));
    out
}
