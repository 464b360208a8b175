//! Mutation histories.  Nodes are numbered: those of the first document in
//! document order, then those of the second, then every new node in the
//! order in which it is discovered (document order inside a new subtree).
//!
//! Ops (one field each, parts separated by spaces; names and values are
//! given as dot-separated code points):
//!   append A B | prev A B | next A B | replace A B | delete A B
//!   set A NAME VALUE | unset A NAME
//!   query CTX XPATH
//!   each CTX XPATH ACT [B]   each_node, whose callback edits the document:
//!                delete | set | append B | next B | replace B
//!   keep A       every other node of the tree of A is let go of, except
//!                those of the subtree of A
//! An op may be prefixed by "~": its effect is not looked at afterwards.

use amxml::dom::*;
use crate::json::J;
use std::panic::{catch_unwind, AssertUnwindSafe};
use crate::{all_nodes, cps, idx, items, type_name};

fn text(s: &str) -> String {
    s.split('.')
        .filter(|x| !x.is_empty())
        .map(|x| std::char::from_u32(x.parse().unwrap()).unwrap())
        .collect()
}

fn discover(table: &mut Vec<NodePtr>, gone: &mut Vec<bool>) {
    let mut i = 0;
    while i < table.len() {
        let n = table[i].rc_clone();
        let mut found = vec![];
        for x in n.attributes().iter().chain(n.children().iter()) {
            if idx(table, x) == 0 {
                all_nodes(x, &mut found);
            }
        }
        for x in found {
            if idx(table, &x) == 0 {
                table.push(x);
                gone.push(false);
            }
        }
        i += 1;
    }
}

fn observe(table: &Vec<NodePtr>, gone: &Vec<bool>) -> Vec<(&'static str, J)> {
    let nodes = J::A(table
        .iter()
        .zip(gone.iter())
        .map(|(n, g)| {
            if *g {
                let none = || J::A(vec![]);
                return J::O(vec![("t", J::s("gone")), ("n", none()), ("v", none()), ("p", J::I(0)), ("c", none()), ("a", none())]);
            }
            J::O(vec![
                ("t", J::s(type_name(n))),
                ("n", cps(&n.name())),
                ("v", cps(&n.value())),
                ("p", J::I(n.parent().map(|p| idx(table, &p)).unwrap_or(0))),
                ("c", J::A(n.children().iter().map(|c| J::I(idx(table, c))).collect())),
                ("a", J::A(n.attributes().iter().map(|c| J::I(idx(table, c))).collect())),
            ])
        })
        .collect());
    let roots = J::A(table.iter().map(|n| J::I(idx(table, &n.root()))).collect());
    // document order of the nodes of each tree, by document_order()
    let mut ord = vec![];
    for (r, g) in table.iter().zip(gone.iter()) {
        if !g && r.parent().is_none() {
            let mut v = vec![];
            all_nodes(r, &mut v);
            v.sort_by_key(|n| n.document_order());
            ord.push(J::A(v.iter().map(|n| J::I(idx(table, n))).collect()));
        }
    }
    // the same through a query at each parentless node
    let mut q = vec![];
    for (r, g) in table.iter().zip(gone.iter()) {
        if !g && r.parent().is_none() {
            q.push(match r.get_nodeset("descendant-or-self::node()/attribute::node() | descendant-or-self::node()") {
                Ok(v) => J::A(v.iter().map(|n| J::I(idx(table, n))).collect()),
                Err(_) => J::A(vec![J::I(-1)]),
            });
        }
    }
    vec![
        ("nodes", nodes),
        ("roots", roots),
        ("ord", J::A(ord)),
        ("qo", J::A(q)),
        ("ts", match gone.iter().position(|g| !g) {
            Some(i) => cps(&table[i].to_string()),
            None => J::A(vec![]),
        }),
    ]
}

pub fn do_mut(xml: &str, xml2: &str, ops: &[String]) -> J {
    let d1 = match new_document(xml) {
        Ok(d) => d,
        Err(_) => return J::O(vec![("docerr", J::B(true))]),
    };
    let d2 = match new_document(xml2) {
        Ok(d) => d,
        Err(_) => return J::O(vec![("docerr", J::B(true))]),
    };
    let mut table = vec![];
    all_nodes(&d1, &mut table);
    all_nodes(&d2, &mut table);
    drop(d1);
    drop(d2);
    let mut gone = vec![false; table.len()];
    let mut evs = vec![];
    let mut o = vec![("look", J::B(true))];
    o.append(&mut observe(&table, &gone));
    evs.push(J::O(o));
    for op in ops {
        let (look, op) = if op.starts_with('~') {
            (false, &op[1..])
        } else {
            (true, &op[..])
        };
        let mut extra = vec![];
        let r = catch_unwind(AssertUnwindSafe(|| {
            let f: Vec<&str> = op.splitn(4, ' ').collect();
            let a = table[f[1].parse::<usize>().unwrap() - 1].rc_clone();
            let node = |s: &str| table[s.parse::<usize>().unwrap() - 1].rc_clone();
            match f[0] {
                "append" => a.append_child(&node(f[2])),
                "prev" => a.insert_as_previous_sibling(&node(f[2])),
                "next" => a.insert_as_next_sibling(&node(f[2])),
                "replace" => a.replace_with(&node(f[2])),
                "delete" => a.delete_child(&node(f[2])),
                "set" => a.clone().set_attribute(&text(f[2]), &text(f[3])),
                "unset" => a.clone().delete_attribute(&text(f[2])),
                "each" => {
                    let x = text(f[2]);
                    let g: Vec<&str> = f[3].split(' ').collect();
                    let b = if g.len() > 1 { Some(node(g[1])) } else { None };
                    let mut seen = vec![];
                    let ok = a
                        .each_node(&x, |mut n| {
                            seen.push(J::I(idx(&table, &n)));
                            let elem = n.node_type() == NodeType::Element;
                            match (g[0], &b) {
                                ("delete", _) => {
                                    if let Some(p) = n.parent() {
                                        p.delete_child(&n);
                                    }
                                }
                                ("set", _) => {
                                    if elem {
                                        n.set_attribute("k", "v");
                                    }
                                }
                                ("append", Some(b)) => {
                                    if elem || n.node_type() == NodeType::DocumentRoot {
                                        n.append_child(b);
                                    }
                                }
                                ("next", Some(b)) => n.insert_as_next_sibling(b),
                                ("replace", Some(b)) => n.replace_with(b),
                                _ => panic!("bad act"),
                            }
                            discover(&mut table, &mut gone);
                        })
                        .is_ok();
                    extra.push(("ok", J::B(ok)));
                    extra.push(("seen", J::A(seen)));
                }
                "keep" => {
                    let mut all = vec![];
                    all_nodes(&a.root(), &mut all);
                    let mut own = vec![];
                    all_nodes(&a, &mut own);
                    for x in all.iter() {
                        let i = idx(&table, x) as usize;
                        if idx(&own, x) == 0 && i > 0 {
                            table[i - 1] = new_document("").unwrap();
                            gone[i - 1] = true;
                        }
                    }
                }
                "query" => {
                    let x = text(f[2]);
                    return Some(match a.eval_xpath(&x) {
                        Ok(ref s) => vec![("ok", J::B(true)), ("items", items(&table, s))],
                        Err(_) => vec![("ok", J::B(false)), ("items", J::A(vec![]))],
                    });
                }
                _ => panic!("bad op"),
            }
            None
        }));
        let ev = match r {
            Err(_) => {
                evs.push(J::O(vec![("panic", J::B(true))]));
                break;
            }
            Ok(Some(mut v)) => {
                v.push(("look", J::B(false)));
                J::O(v)
            }
            Ok(None) => {
                let r2 = catch_unwind(AssertUnwindSafe(|| {
                    discover(&mut table, &mut gone);
                    if look {
                        observe(&table, &gone)
                    } else {
                        vec![]
                    }
                }));
                match r2 {
                    Ok(mut v) => {
                        v.append(&mut extra);
                        v.push(("look", J::B(look)));
                        J::O(v)
                    }
                    Err(_) => {
                        evs.push(J::O(vec![("panic", J::B(true))]));
                        break;
                    }
                }
            }
        };
        evs.push(ev);
    }
    J::O(vec![("evs", J::A(evs))])
}
