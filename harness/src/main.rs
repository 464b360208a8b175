//! Conformance driver: performs the requests read from stdin on the real
//! amxml crate through its public API only, and writes what was observed,
//! one JSON object per request, to stdout.
//!
//! A request is one line of TAB-separated fields (escapes: \t \n \r \\ \0):
//!   sax  <xml>
//!   dom  <xml>                       parse + dump of the tree
//!   xp   <xml> <ctx> <xpath>...      evaluate each xpath at node #ctx
//!   mut  <xml> <xml2> <op>...        mutation history (see do_mut)
//!
//! Every request runs in a worker thread with a time budget; a panic or a
//! budget overrun is an observation ("panic" / "hang"), not a failure of
//! the driver.

use amxml::dom::*;
use amxml::sax::*;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::time::Duration;

mod json;
mod mutate;
use json::J;

fn unesc(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('t') => r.push('\t'),
                Some('n') => r.push('\n'),
                Some('r') => r.push('\r'),
                Some('0') => r.push('\0'),
                Some(x) => r.push(x),
                None => {}
            }
        } else {
            r.push(c);
        }
    }
    r
}

pub fn cps(s: &str) -> J {
    J::A(s.chars().map(|c| J::I(c as i64)).collect())
}

fn do_sax(xml: &str) -> J {
    let mut dec = match SaxDecoder::new(xml) {
        Ok(d) => d,
        Err(_) => return J::O(vec![("toks", J::A(vec![])), ("end", J::s("newerr"))]),
    };
    let mut toks = vec![];
    let limit = xml.chars().count() * 2 + 16;
    let mut end = "limit";
    for _ in 0..limit {
        match dec.raw_token() {
            Ok(XmlToken::EOF) => {
                // EOF must be stable
                end = match dec.raw_token() {
                    Ok(XmlToken::EOF) => "eof",
                    _ => "eof-unstable",
                };
                break;
            }
            Ok(XmlToken::StartElement { name, attr }) => toks.push(J::O(vec![
                ("k", J::s("S")),
                ("n", cps(&name)),
                ("v", J::A(vec![])),
                (
                    "a",
                    J::A(attr
                        .iter()
                        .map(|a| J::O(vec![("n", cps(a.name())), ("v", cps(a.value()))]))
                        .collect()),
                ),
            ])),
            Ok(XmlToken::EndElement { name }) => toks.push(tok("E", &name, "")),
            Ok(XmlToken::CharData { chardata }) => toks.push(tok("T", "", &chardata)),
            Ok(XmlToken::ProcInst { target, inst }) => toks.push(tok("P", &target, &inst)),
            Ok(XmlToken::Comment { comment }) => toks.push(tok("C", "", &comment)),
            Ok(XmlToken::Directive { directive }) => toks.push(tok("D", "", &directive)),
            Err(_) => {
                end = "err";
                break;
            }
        }
    }
    J::O(vec![("toks", J::A(toks)), ("end", J::s(end))])
}

fn tok(k: &'static str, n: &str, v: &str) -> J {
    J::O(vec![
        ("k", J::s(k)),
        ("n", cps(n)),
        ("v", cps(v)),
        ("a", J::A(vec![])),
    ])
}

pub fn type_name(n: &NodePtr) -> &'static str {
    match n.node_type() {
        NodeType::DocumentRoot => "doc",
        NodeType::Element => "elem",
        NodeType::Text => "text",
        NodeType::Comment => "comm",
        NodeType::XMLDecl => "decl",
        NodeType::Instruction => "pi",
        NodeType::Attribute => "attr",
        NodeType::Directive => "dir",
    }
}

/// All nodes of the tree in document order: node, its attributes, its children.
pub fn all_nodes(n: &NodePtr, out: &mut Vec<NodePtr>) {
    out.push(n.rc_clone());
    for a in n.attributes().iter() {
        out.push(a.rc_clone());
    }
    for c in n.children().iter() {
        all_nodes(c, out);
    }
}

pub fn idx(nodes: &Vec<NodePtr>, n: &NodePtr) -> i64 {
    for (i, m) in nodes.iter().enumerate() {
        if m == n {
            return i as i64 + 1;
        }
    }
    0
}

pub fn dump(nodes: &Vec<NodePtr>) -> J {
    J::A(nodes
        .iter()
        .map(|n| {
            J::O(vec![
                ("t", J::s(type_name(n))),
                ("n", cps(&n.name())),
                ("v", cps(&n.value())),
                (
                    "p",
                    J::I(match n.parent() {
                        Some(p) => idx(nodes, &p),
                        None => 0,
                    }),
                ),
                ("c", J::A(n.children().iter().map(|c| J::I(idx(nodes, c))).collect())),
                ("a", J::A(n.attributes().iter().map(|c| J::I(idx(nodes, c))).collect())),
            ])
        })
        .collect())
}

fn do_dom(xml: &str) -> J {
    let doc = match new_document(xml) {
        Ok(d) => d,
        Err(_) => return J::O(vec![("ok", J::B(false))]),
    };
    let mut nodes = vec![];
    all_nodes(&doc, &mut nodes);
    let mut views = vec![];
    for n in nodes.iter() {
        views.push(J::O(vec![
            ("ts", cps(&n.to_string())),
            ("ps", cps(&n.to_pretty_string())),
            ("ix", cps(&n.inner_xml())),
            ("ln", cps(&n.local_name())),
            ("sn", cps(&n.space_name())),
            ("ns", cps(&n.namespace_uri())),
            ("db", cps(&format!("{:?}", n))),
            ("rt", J::I(idx(&nodes, &n.root()))),
            ("re", J::I(idx(&nodes, &n.root_element()))),
            (
                "fc",
                J::I(n.first_child().map(|c| idx(&nodes, &c)).unwrap_or(0)),
            ),
            (
                "nc",
                J::A((0..n.children().len() + 1)
                    .map(|i| J::I(n.nth_child(i).map(|c| idx(&nodes, &c)).unwrap_or(0)))
                    .collect()),
            ),
            (
                "av",
                J::A(n
                    .attributes()
                    .iter()
                    .map(|a| match n.attribute_value(&a.name()) {
                        Some(v) => cps(&v),
                        None => J::A(vec![J::I(-1)]),
                    })
                    .collect()),
            ),
        ]));
    }
    // reparse
    let ser = doc.to_string();
    let rep = match new_document(&ser) {
        Ok(d2) => {
            let mut n2 = vec![];
            all_nodes(&d2, &mut n2);
            J::O(vec![
                ("ok", J::B(true)),
                ("nodes", dump(&n2)),
                ("ts", cps(&d2.to_string())),
            ])
        }
        Err(_) => J::O(vec![("ok", J::B(false))]),
    };
    J::O(vec![
        ("ok", J::B(true)),
        ("nodes", dump(&nodes)),
        ("views", J::A(views)),
        ("rep", rep),
    ])
}

pub fn items(nodes: &Vec<NodePtr>, seq: &amxml::xpath::Sequence) -> J {
    let mut v = vec![];
    for i in 0..seq.len() {
        let it = seq.get_item(i);
        match it.as_nodeptr() {
            Some(n) => v.push(J::O(vec![("n", J::I(idx(nodes, &n))), ("s", J::A(vec![]))])),
            None => v.push(J::O(vec![("n", J::I(-1)), ("s", cps(&it.to_string()))])),
        }
    }
    J::A(v)
}

// What an error says it is: of the text of the query, of the library itself, or of the evaluation.
fn class(text: &str) -> &'static str {
    if text.starts_with("Syntax Error in XPath") {
        "syntax"
    } else if text.starts_with("Can't Occur") {
        "internal"
    } else {
        "other"
    }
}

fn eval_one(nodes: &Vec<NodePtr>, ctx: &NodePtr, xpath: &str, full: bool) -> J {
    let r = ctx.eval_xpath(xpath);
    let mut o = match r {
        Ok(ref seq) => vec![("ok", J::B(true)), ("items", items(nodes, seq)), ("c", J::s(""))],
        Err(ref e) => vec![("ok", J::B(false)), ("items", J::A(vec![])), ("c", J::s(class(&e.to_string())))],
    };
    if full {
        match r {
            Ok(ref seq) => o.push(("ts", cps(&seq.to_string()))),
            Err(_) => o.push(("ts", J::A(vec![]))),
        }
        match ctx.get_nodeset(xpath) {
            Ok(ns) => {
                o.push(("nsok", J::B(true)));
                o.push(("ns", J::A(ns.iter().map(|n| J::I(idx(nodes, n))).collect())));
            }
            Err(_) => {
                o.push(("nsok", J::B(false)));
                o.push(("ns", J::A(vec![])));
            }
        }
        o.push((
            "fn",
            J::I(ctx.get_first_node(xpath).map(|n| idx(nodes, &n)).unwrap_or(0)),
        ));
        let mut en = vec![];
        let ok = ctx.each_node(xpath, |n| en.push(J::I(idx(nodes, &n)))).is_ok();
        o.push(("enok", J::B(ok)));
        o.push(("en", J::A(en)));
        // a second evaluation
        match ctx.eval_xpath(xpath) {
            Ok(ref seq) => {
                o.push(("ok2", J::B(true)));
                o.push(("items2", items(nodes, seq)));
            }
            Err(_) => {
                o.push(("ok2", J::B(false)));
                o.push(("items2", J::A(vec![])));
            }
        }
    }
    J::O(o)
}

fn guarded<F: FnOnce() -> J>(f: F) -> J {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(j) => j,
        Err(_) => J::O(vec![("panic", J::B(true))]),
    }
}

fn do_xp(xml: &str, ctx: usize, xpaths: &[String], full: bool) -> J {
    let doc = match new_document(xml) {
        Ok(d) => d,
        Err(_) => return J::O(vec![("docerr", J::B(true))]),
    };
    let mut nodes = vec![];
    all_nodes(&doc, &mut nodes);
    let c = nodes[(ctx - 1) % nodes.len()].rc_clone();
    let before = doc.to_string();
    let mut res = vec![];
    for x in xpaths {
        res.push(guarded(|| eval_one(&nodes, &c, x, full)));
    }
    let mut after = vec![];
    all_nodes(&doc, &mut after);
    let same = doc.to_string() == before
        && after.len() == nodes.len()
        && after.iter().zip(nodes.iter()).all(|(a, b)| a == b);
    J::O(vec![("nodes", dump(&nodes)), ("res", J::A(res)), ("same", J::B(same))])
}

fn handle(line: &str) -> J {
    let f: Vec<String> = line.split('\t').map(unesc).collect();
    match f[0].as_str() {
        "sax" => guarded(|| do_sax(&f[1])),
        "dom" => guarded(|| do_dom(&f[1])),
        "xp" => guarded(|| do_xp(&f[1], f[2].parse().unwrap(), &f[3..], false)),
        "xpf" => guarded(|| do_xp(&f[1], f[2].parse().unwrap(), &f[3..], true)),
        "mut" => guarded(|| mutate::do_mut(&f[1], &f[2], &f[3..])),
        _ => J::O(vec![("badreq", J::B(true))]),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let budget: u64 = std::env::var("REQ_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    let (qtx, qrx) = mpsc::channel::<String>();
    let (rtx, rrx) = mpsc::channel::<String>();
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            for line in qrx {
                let j = handle(&line);
                if rtx.send(j.to_string()).is_err() {
                    return;
                }
            }
        })
        .unwrap();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        qtx.send(line).unwrap();
        match rrx.recv_timeout(Duration::from_secs(budget)) {
            Ok(s) => {
                writeln!(out, "{}", s).unwrap();
                out.flush().unwrap();
            }
            Err(_) => {
                writeln!(out, "{{\"hang\":true}}").unwrap();
                out.flush().unwrap();
                std::process::exit(3);
            }
        }
    }
}
