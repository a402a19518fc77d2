//! C16, the other half: what loom cannot see. Threads over one shared green tree run under Miri,
//! whose race detector judges every single memory access of every execution by happens-before.
use mc::check;
use mc::engine::{Cx, Family, Tier, family, hash_of};
use mc::model::*;
use mc::tree::{Gm, green as green_of};
use rowan::{GreenNode, GreenNodeBuilder, GreenToken, NodeCache, NodeOrToken, SyntaxKind, cursor};

#[path = "../../../loom/src/traits.rs"]
mod traits;

type Green = NodeOrToken<GreenNode, GreenToken>;
type Ref<'a> = NodeOrToken<&'a rowan::GreenNodeData, &'a rowan::GreenTokenData>;

fn own(c: Ref<'_>) -> Green {
    match c {
        NodeOrToken::Node(n) => NodeOrToken::Node(n.to_owned()),
        NodeOrToken::Token(t) => NodeOrToken::Token(t.to_owned()),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
    Drop,
    Clone,
    Read,
    Compare,
    Format,
    Replace,
    Insert,
    Splice,
    Child,
    Wrap,
    Build,
    Syntax,
    Mutate,
    Typed,
}
const OPS: [Op; 14] = [
    Op::Drop, Op::Clone, Op::Read, Op::Compare, Op::Format, Op::Replace, Op::Insert, Op::Splice, Op::Child,
    Op::Wrap, Op::Build, Op::Syntax, Op::Mutate, Op::Typed,
];

fn same(g: &Green, e: &El) -> bool {
    match (g, e) {
        (NodeOrToken::Node(n), e) => same_green(n, e) && u32::from(n.text_len()) == e.len(),
        (NodeOrToken::Token(g), T(k, s)) => g.kind().0 == *k && g.text() == s && u32::from(g.text_len()) == e.len(),
        _ => false,
    }
}

/// Runs one operation on an own handle; returns what is left of it and what it has to be.
fn exec(g: Green, e: &El, op: Op) -> Option<(Green, El)> {
    let first = |e: &El| e.children()[0].clone();
    let node = |k: u16, c: Vec<El>| N(k, c);
    let kind = e.kind();
    let mut c = e.children().to_vec();
    match op {
        Op::Drop => return None,
        Op::Clone => {
            let h = g.clone();
            drop(g);
            return Some((h, e.clone()));
        }
        Op::Read => {
            assert!(same(&g, e), "the contents differ from {e:?}");
        }
        Op::Compare => {
            let fresh = e.green_el();
            assert!(g == fresh && fresh == g && hash_of(&g) == hash_of(&fresh), "a fresh copy of {e:?} is not equal");
        }
        Op::Format => {
            assert_eq!(g.to_string(), e.text());
            assert_eq!(format!("{g:?}"), format!("{:?}", e.green_el()));
        }
        _ => {
            let NodeOrToken::Node(n) = &g else { return Some((g, e.clone())) };
            let n = n.clone();
            match op {
                Op::Syntax => {
                    let root = cursor::SyntaxNode::new_root(n);
                    let all: String = root.descendants_with_tokens().filter_map(|x| x.into_token()).map(|t| t.text().to_string()).collect();
                    let last = root.last_token();
                    drop(root);
                    assert_eq!(all, e.text());
                    assert_eq!(last.is_some(), Flat::new(e).tokens().next().is_some());
                }
                Op::Typed => {
                    use mc::api::Lang;
                    let root = rowan::SyntaxNode::<Lang>::new_root(n);
                    let t = root.text().to_string();
                    let p = rowan::ast::SyntaxNodePtr::new(&root);
                    assert!(p.to_node(&root) == root);
                    let s = serde_json::to_string(&root).unwrap();
                    assert!(s.len() > 10);
                    assert_eq!(t, e.text());
                }
                Op::Build => {
                    let mut cache = NodeCache::default();
                    for _ in 0..2 {
                        let mut b = GreenNodeBuilder::with_cache(&mut cache);
                        emit(e, &mut b);
                        let h = b.finish();
                        assert!(g == NodeOrToken::Node(h));
                    }
                }
                Op::Wrap => {
                    let w = GreenNode::new(SyntaxKind(8), [g.clone(), g.clone()]);
                    return Some((NodeOrToken::Node(w), node(8, vec![e.clone(), e.clone()])));
                }
                _ if c.is_empty() => {}
                Op::Replace => {
                    let h = n.replace_child(0, t(9, "new").green_el());
                    c[0] = t(9, "new");
                    return Some((NodeOrToken::Node(h), node(kind, c)));
                }
                Op::Insert => {
                    let h = n.insert_child(n.children().len(), own(n.children().next().unwrap()));
                    c.push(first(e));
                    return Some((NodeOrToken::Node(h), node(kind, c)));
                }
                Op::Splice => {
                    let l = own(n.children().last().unwrap());
                    let le = c.last().unwrap().clone();
                    let h = n.splice_children(0..1, [l.clone(), l]);
                    c.splice(0..1, [le.clone(), le]);
                    return Some((NodeOrToken::Node(h), node(kind, c)));
                }
                Op::Child => return Some((own(n.children().next().unwrap()), first(e))),
                Op::Mutate => {
                    let root = cursor::SyntaxNode::new_root(n).clone_for_update();
                    let x = root.first_child_or_token().unwrap();
                    let l = root.last_child_or_token().unwrap();
                    x.detach();
                    drop(x);
                    let index = l.index();
                    let text = l.to_string();
                    assert_eq!(text, e.children().last().unwrap().text());
                    let h = root.green().into_owned();
                    c.remove(0);
                    assert!(c.is_empty() || index == c.len() - 1);
                    return Some((NodeOrToken::Node(h), node(kind, c)));
                }
                _ => unreachable!(),
            }
        }
    }
    Some((g, e.clone()))
}

fn emit(e: &El, b: &mut GreenNodeBuilder<'_>) {
    match e {
        T(k, s) => b.token(SyntaxKind(*k), s),
        N(k, c) => {
            b.start_node(SyntaxKind(*k));
            c.iter().for_each(|e| emit(e, b));
            b.finish_node();
        }
    }
}

fn scenes() -> Vec<(El, Gm)> {
    let (a, b) = (t(10, "a"), t(11, "bé"));
    vec![
        (N(1, vec![a.clone(), b.clone()]), Gm::Direct),
        (N(0, vec![N(1, vec![a.clone()]), N(1, vec![a.clone()])]), Gm::Built),
        (N(2, vec![]), Gm::Direct),
        (N(3, vec![N(1, vec![b, N(4, vec![])]), a]), Gm::Direct),
    ]
}

/// Runs one thread per list of operations; the initial handle of thread `i` is the tree or its first child.
/// `keep`: the main thread keeps a handle meanwhile. `give`: it gets the remaining handles.
fn program(cx: &mut Cx, scene: usize, threads: &[(bool, Vec<Op>)], keep: bool, give: bool) {
    cx.case(|| format!("shared tree {:?}; threads (starting with its first child or it; operations) {threads:?}; the main thread keeps a handle: {keep}; gets the remaining ones: {give}", scenes()[scene].0));
    cx.state(&(scene, threads, keep, give));
    let (e, gm) = &scenes()[scene];
    let g = green_of(e, *gm);
    let mut joins = Vec::new();
    let mut starts = Vec::new();
    for (child, ops) in threads {
        let s = if *child {
            (own(g.children().next().unwrap()), e.children()[0].clone())
        } else {
            (NodeOrToken::Node(g.clone()), e.clone())
        };
        starts.push((s, ops.clone()));
    }
    let kept = keep.then(|| g.clone());
    drop(g);
    for ((g, e), ops) in starts {
        joins.push(std::thread::spawn(move || {
            let mut cur = Some((g, e));
            for op in ops {
                let Some((g, e)) = cur.take() else { break };
                cur = exec(g, &e, op);
            }
            if let Some((g, e)) = &cur {
                assert!(same(g, e), "the contents differ from {e:?}");
            }
            if give { cur } else { None }
        }));
    }
    if let Some(g) = &kept {
        check!(cx, same_green(g, e), "the main thread reads something else than {e:?}");
    }
    drop(kept);
    for (i, j) in joins.into_iter().enumerate() {
        cx.steps(threads[i].1.len() as u64 + 2);
        match j.join() {
            Err(p) => cx.fail(format!(
                "thread {i}: panic: {}",
                p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
            )),
            Ok(Some((g, e))) => check!(cx, same(&g, &e), "what thread {i} made differs from {e:?}"),
            Ok(None) => {}
        }
    }
    cx.nontrivial += 1;
}

fn main() {
    mc::engine::main("C16", |tier: Tier| -> Vec<Family> {
        let n = OPS.len() as u64;
        let q = tier == Tier::Quick;
        let mut v = vec![traits::family_of(), family(
            "races-pairs",
            format!("two threads, one operation each out of {OPS:?}, over 4 shared trees, starting with the tree or its first child; every pair, in the thorough tier in both orders of starting; the main thread keeps a handle or not"),
            4 * n * n,
            move |cx, i| {
                let (s, i) = ((i % 4) as usize, i / 4);
                let (a, b) = (OPS[(i % n) as usize], OPS[(i / n) as usize]);
                if q && i % n > i / n {
                    return;
                }
                let some = !scenes()[s].0.children().is_empty();
                let k = i as usize % 2 == 0;
                program(cx, s, &[(false, vec![a]), (false, vec![b])], k, !k);
                if some {
                    program(cx, s, &[(false, vec![a]), (true, vec![b])], !k, k);
                    if !q {
                        program(cx, s, &[(true, vec![a]), (false, vec![b])], k, k);
                        program(cx, s, &[(true, vec![a]), (true, vec![b])], !k, !k);
                    }
                }
            },
        )];
        if !q {
            v.push(family(
                "races-two-and-one",
                format!("two threads, two and one operations out of {OPS:?}, over 2 shared trees, started in both orders"),
                2 * n * n * n,
                move |cx, i| {
                    let (s, i) = ((i % 2) as usize, i / 2);
                    let (a, b, c) = (OPS[(i % n) as usize], OPS[(i / n % n) as usize], OPS[(i / n / n) as usize]);
                    program(cx, s, &[(false, vec![a, b]), (false, vec![c])], true, true);
                    program(cx, s, &[(false, vec![c]), (false, vec![a, b])], false, false);
                },
            ));
        }
        v
    })
}
