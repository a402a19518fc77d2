//! C08: child and sibling iterators yield each element exactly once.
use mc::api::*;
use mc::engine::{Cx, Family, Tier, family};
use mc::model::*;
use mc::tree::*;
use mc::{alloc, check, check_eq};
use rowan::{Direction, NodeOrToken, SyntaxKind, cursor};

/// A node with these children (bit: node or token), somewhere inside a larger tree.
/// Child `i` has kind `100 + i`. Returns the tree and the number of the node.
fn host(n: usize, nodes: u64, variant: usize) -> (El, usize) {
    let c: Vec<El> = (0..n)
        .map(|i| {
            let k = 100 + i as u16;
            if nodes >> i & 1 == 1 {
                match (i + variant) % 3 {
                    0 => N(k, vec![]),
                    1 => N(k, vec![t(1, "ab")]),
                    _ => N(k, vec![N(2, vec![t(1, "é")]), t(1, "")]),
                }
            } else {
                t(k, ["x", "", "日本"][(i + variant) % 3])
            }
        })
        .collect();
    match variant {
        0 => (N(9, c), 0),
        v if v >= 2 => FAR[v - 2].put(&N(9, c)),
        _ => (N(8, vec![t(3, "left"), N(7, vec![t(3, "l")]), N(9, c), t(3, "right"), N(9, vec![])]), 4),
    }
}

fn el<A: Api>(x: &A::N) -> E<A> {
    NodeOrToken::Node(x.clone())
}

/// One kind of child iterator, so that both can be driven alike.
trait Kids<A: Api>: Clone {
    fn get(&mut self) -> Option<E<A>>;
    fn by_kind<'a>(self, m: Pred<'a>) -> BoxIter<'a, E<A>>;
}
struct KN<A: Api>(A::NC);
struct KE<A: Api>(A::EC);
impl<A: Api> Clone for KN<A> {
    fn clone(&self) -> Self {
        KN(self.0.clone())
    }
}
impl<A: Api> Clone for KE<A> {
    fn clone(&self) -> Self {
        KE(self.0.clone())
    }
}
impl<A: Api> Kids<A> for KN<A> {
    fn get(&mut self) -> Option<E<A>> {
        self.0.next().map(NodeOrToken::Node)
    }
    fn by_kind<'a>(self, m: Pred<'a>) -> BoxIter<'a, E<A>> {
        Box::new(A::nc_by_kind(self.0, m).map(NodeOrToken::Node))
    }
}
impl<A: Api> Kids<A> for KE<A> {
    fn get(&mut self) -> Option<E<A>> {
        self.0.next()
    }
    fn by_kind<'a>(self, m: Pred<'a>) -> BoxIter<'a, E<A>> {
        A::ec_by_kind(self.0, m)
    }
}

fn prehold<A: Api>(root: &A::N, f: &Flat, kids: &[usize], how: usize) -> Vec<(E<A>, usize)> {
    let ids: Vec<usize> = match how {
        0 => vec![],
        1 => kids.to_vec(),
        2 => kids.iter().rev().copied().collect(),
        _ => kids.iter().skip(1).step_by(2).copied().collect(),
    };
    ids.into_iter().map(|i| (reach::<A>(root, f, i, how % HOWS).unwrap(), i)).collect()
}

fn next_is<A: Api, K: Kids<A>>(cx: &mut Cx, f: &Flat, it: &mut K, want: Option<usize>, what: &str) -> Option<E<A>> {
    cx.step();
    let got = it.get();
    match (&got, want) {
        (None, None) => {}
        (Some(e), Some(id)) => denotes::<A>(cx, f, e, id, what),
        (Some(e), None) => cx.fail(format!("{what}: an element at {:?} past the end", r32(A::e_range(e)))),
        (None, Some(id)) => cx.fail(format!("{what}: ends, expected element {id}")),
    }
    got
}

/// Drives the iterator by a script: per step 0 = drop the handle, 1 = keep it, 2 = first run a clone
/// of the iterator to its end, 3 = first keep a clone to be run at the end.
fn script<A: Api, K: Kids<A>>(cx: &mut Cx, f: &Flat, mut it: K, want: &[usize], mut code: u64, what: &str) {
    let mut held: Vec<(E<A>, usize)> = Vec::new();
    let mut later: Vec<(K, usize)> = Vec::new();
    for i in 0..=want.len() {
        match code % 4 {
            0 => {
                next_is::<A, K>(cx, f, &mut it, want.get(i).copied(), what);
            }
            1 => {
                if let Some(e) = next_is::<A, K>(cx, f, &mut it, want.get(i).copied(), what) {
                    held.push((e, want[i]));
                }
            }
            2 => {
                let mut c = it.clone();
                for j in i..=want.len() {
                    next_is::<A, K>(cx, f, &mut c, want.get(j).copied(), "clone run to its end");
                }
                next_is::<A, K>(cx, f, &mut it, want.get(i).copied(), what);
            }
            _ => {
                later.push((it.clone(), i));
                if let Some(e) = next_is::<A, K>(cx, f, &mut it, want.get(i).copied(), what) {
                    held.push((e.clone(), want[i]));
                    drop(e);
                }
            }
        }
        code /= 4;
        for (e, id) in &held {
            attrs::<A>(cx, f, e, *id, "a handle kept while the iterator advances");
        }
    }
    next_is::<A, K>(cx, f, &mut it, None, "after the end");
    drop(it);
    for (mut c, i) in later {
        for j in i..=want.len() {
            next_is::<A, K>(cx, f, &mut c, want.get(j).copied(), "clone kept for later");
        }
    }
    for (e, id) in &held {
        denotes::<A>(cx, f, e, *id, "a handle kept beyond the iterator");
    }
}

/// `taken` children plainly (kept or dropped by `hold`), then the rest filtered by `mask`.
fn filtered<A: Api, K: Kids<A>>(cx: &mut Cx, f: &Flat, mut it: K, want: &[usize], taken: usize, mask: u64, hold: u64, fork: bool, what: &str) {
    let mut held: Vec<(E<A>, usize)> = Vec::new();
    for i in 0..taken {
        if let Some(e) = next_is::<A, K>(cx, f, &mut it, want.get(i).copied(), what) {
            if hold >> i & 1 == 1 {
                held.push((e, want[i]));
            }
        }
    }
    let pred = |k: u16| k >= 100 && mask >> (k - 100) & 1 == 1;
    let rest: Vec<usize> =
        want.iter().skip(taken).copied().filter(|&i| pred(f.els[i].kind)).collect();
    let other = fork.then(|| it.clone());
    for it in [Some(it), other].into_iter().flatten() {
        let mut b = it.by_kind(&pred);
        for (j, id) in rest.iter().map(|&i| Some(i)).chain([None, None]).enumerate() {
            cx.step();
            let got = b.next();
            match (&got, id) {
                (None, None) => {}
                (Some(e), Some(id)) => denotes::<A>(cx, f, e, id, what),
                (got, id) => cx.fail(format!(
                    "{what}: {j}th after by_kind: got {:?}, expected {id:?} of {rest:?}",
                    got.as_ref().map(|e| r32(A::e_range(e)))
                )),
            }
            if hold >> (taken + j) & 1 == 1 {
                if let (Some(e), Some(id)) = (got, id) {
                    held.push((e, id));
                }
            }
        }
    }
    for (e, id) in &held {
        denotes::<A>(cx, f, e, *id, "a handle kept");
    }
}

fn siblings<A: Api>(cx: &mut Cx, f: &Flat, root: &A::N, kids: &[usize], hold: u64, e: &El) {
    for (i, &start) in kids.iter().enumerate() {
        for (dir, next) in [(Direction::Next, true), (Direction::Prev, false)] {
            cx.case(|| format!("{} {e:?} siblings of element {start} {} hold {hold:b}", A::NAME, if next { "next" } else { "prev" }));
            let line: Vec<usize> =
                if next { kids[i..].to_vec() } else { kids[..=i].iter().rev().copied().collect() };
            let h = reach::<A>(root, f, start, i % HOWS).unwrap();
            let mut held = Vec::new();
            let drive = |cx: &mut Cx, it: &mut dyn Iterator<Item = E<A>>, line: &[usize], held: &mut Vec<(E<A>, usize)>| {
                for (j, &id) in line.iter().enumerate() {
                    cx.step();
                    let Some(e) = it.next() else {
                        cx.fail(format!("siblings of element {start} end after {j}, expected {line:?}"))
                    };
                    denotes::<A>(cx, f, &e, id, "sibling");
                    if hold >> j & 1 == 1 {
                        held.push((e, id));
                    }
                }
                check!(cx, it.next().is_none(), "siblings of element {start} do not end after {line:?}");
            };
            match &h {
                NodeOrToken::Node(n) => {
                    drive(cx, &mut A::siblings_with_tokens(n, dir), &line, &mut held);
                    let only: Vec<usize> = line.iter().copied().filter(|&i| f.els[i].node).collect();
                    drive(cx, &mut A::siblings(n, dir).map(|n| el::<A>(&n)), &only, &mut held);
                }
                NodeOrToken::Token(k) => drive(cx, &mut A::t_siblings_with_tokens(k, dir), &line, &mut held),
            }
            for (e, id) in &held {
                denotes::<A>(cx, f, e, *id, "a sibling kept");
            }
            denotes::<A>(cx, f, &h, start, "the starting element");
        }
    }
}

/// The consuming steps of the untyped interface.
fn consuming(cx: &mut Cx, f: &Flat, root: &cursor::SyntaxNode, kids: &[usize], hold: u64, e: &El) {
    for (i, &start) in kids.iter().enumerate() {
        for tokens in [true, false] {
            if !tokens && !f.els[start].node {
                continue;
            }
            let line: Vec<usize> =
                kids[i + 1..].iter().copied().filter(|&k| tokens || f.els[k].node).collect();
            cx.case(|| format!("cursor {e:?} consuming steps from element {start} tokens={tokens} hold {hold:b}"));
            cx.nontrivial += 1;
            let mut cur = reach::<Cur>(root, f, start, i % HOWS);
            let mut held = Vec::new();
            for (j, id) in line.iter().map(|&i| Some(i)).chain([None]).enumerate() {
                let c = cur.take().unwrap();
                if hold >> j & 1 == 1 {
                    held.push((c.clone(), if j == 0 { start } else { line[j - 1] }));
                }
                cx.step();
                cur = if tokens {
                    c.to_next_sibling_or_token()
                } else {
                    c.into_node().unwrap().to_next_sibling().map(NodeOrToken::Node)
                };
                match (&cur, id) {
                    (None, None) => {}
                    (Some(e), Some(id)) => denotes::<Cur>(cx, f, e, id, "consuming step"),
                    (got, id) => cx.fail(format!("consuming step {j} from element {start}: got {got:?}, expected {id:?}")),
                }
            }
            for (e, id) in &held {
                denotes::<Cur>(cx, f, e, *id, "a handle kept over consuming steps");
            }
        }
    }
}

/// Clones of an iterator that is already filtered.
fn filtered_clones(cx: &mut Cx, f: &Flat, n: &cursor::SyntaxNode, want: &[usize], mask: u64, what: &str) {
    let pred = |k: SyntaxKind| k.0 >= 100 && mask >> (k.0 - 100) & 1 == 1;
    let rest: Vec<usize> = want.iter().copied().filter(|&i| pred(SyntaxKind(f.els[i].kind))).collect();
    for at in 0..=rest.len() {
        let mut it = n.children_with_tokens().by_kind(pred);
        let first: Vec<_> = it.by_ref().take(at).collect();
        let c = it.clone();
        yields::<Cur>(cx, f, first.into_iter(), &rest[..at], what);
        yields::<Cur>(cx, f, c, &rest[at..], "clone of a filtered iterator");
        yields::<Cur>(cx, f, it, &rest[at..], what);
        let nodes: Vec<usize> = rest.iter().copied().filter(|&i| f.els[i].node).collect();
        if at <= nodes.len() {
            let mut it = n.children().by_kind(pred);
            let first: Vec<_> = it.by_ref().take(at).map(NodeOrToken::Node).collect();
            let c = it.clone();
            yields::<Cur>(cx, f, first.into_iter(), &nodes[..at], what);
            yields::<Cur>(cx, f, it.map(NodeOrToken::Node), &nodes[at..], what);
            yields::<Cur>(cx, f, c.map(NodeOrToken::Node), &nodes[at..], "clone of a filtered iterator");
        }
    }
}

fn node_of<A: Api>(cx: &Cx, root: &A::N, f: &Flat, id: usize) -> A::N {
    match reach::<A>(root, f, id, 0) {
        Some(NodeOrToken::Node(n)) => n,
        _ => cx.fail("not reached"),
    }
}

fn all<A: Api>(cx: &mut Cx, n: usize, nodes: u64, variant: usize, mode: Mode) {
    let (e, id) = host(n, nodes, variant);
    let f = Flat::new(&e);
    cx.state(&(&e, mode.mutable()));
    let kids = f.els[id].children.clone();
    let nkids: Vec<usize> = kids.iter().copied().filter(|&i| f.els[i].node).collect();
    let root = make::<A>(&e, Gm::Direct, mode);
    let parent = node_of::<A>(cx, &root, &f, id);
    for pre in 0..4 {
        let _held = prehold::<A>(&root, &f, &kids, pre);
        for code in 0..4u64.pow(n as u32 + 1) {
            cx.case(|| format!("{} {mode:?} {e:?} children of element {id}, script {code}, handles held before: {pre}", A::NAME));
            cx.nontrivial += 1;
            script::<A, KE<A>>(cx, &f, KE(A::children_with_tokens(&parent)), &kids, code, "children_with_tokens");
            if code < 4u64.pow(nkids.len() as u32 + 1) {
                script::<A, KN<A>>(cx, &f, KN(A::children(&parent)), &nkids, code, "children");
            }
        }
        for taken in 0..=n + 1 {
            for mask in 0..1u64 << n {
                for hold in [0, !0, 0x5555, 0xAAAA, 3] {
                    for fork in [false, true] {
                        cx.case(|| format!("{} {mode:?} {e:?} children of element {id}: {taken} taken, then kinds {mask:b}, hold {hold:b}, fork {fork}, handles held before: {pre}", A::NAME));
                        filtered::<A, KE<A>>(cx, &f, KE(A::children_with_tokens(&parent)), &kids, taken, mask, hold, fork, "children_with_tokens by_kind");
                        filtered::<A, KN<A>>(cx, &f, KN(A::children(&parent)), &nkids, taken, mask, hold, fork, "children by_kind");
                    }
                }
            }
        }
        for hold in 0..1u64 << n {
            siblings::<A>(cx, &f, &root, &kids, hold, &e);
        }
        same_tree::<A>(cx, &root, &f, "the tree afterwards");
    }
}

fn raw_only(cx: &mut Cx, n: usize, nodes: u64, variant: usize, mode: Mode) {
    let (e, id) = host(n, nodes, variant);
    let f = Flat::new(&e);
    let kids = f.els[id].children.clone();
    for pre in 0..4 {
        let before = alloc::live();
        {
            let root = make::<Cur>(&e, Gm::Direct, mode);
            let _held = prehold::<Cur>(&root, &f, &kids, pre);
            for hold in 0..1u64 << (n + 1) {
                consuming(cx, &f, &root, &kids, hold, &e);
            }
            // a root has no sibling
            let r = root.clone();
            check!(cx, r.to_next_sibling().is_none(), "a root has a next sibling");
            let parent = node_of::<Cur>(cx, &root, &f, id);
            for mask in 0..1u64 << n {
                filtered_clones(cx, &f, &parent, &kids, mask, "filtered");
            }
        }
        // unshared root stepped by itself
        check!(cx, make::<Cur>(&e, Gm::Built, mode).to_next_sibling().is_none(), "a root has a next sibling");
        check!(cx, NodeOrToken::Node(make::<Cur>(&e, Gm::Built, mode)).to_next_sibling_or_token().is_none(), "a root has a next sibling");
        check_eq!(cx, alloc::live(), before, "memory still allocated after all handles are gone");
    }
}

/// The provided methods of all child and sibling iterators.
fn provided_all<A: Api>(cx: &mut Cx, n: usize, nodes: u64, variant: usize, mode: Mode) {
    let (e, id) = host(n, nodes, variant);
    let f = Flat::new(&e);
    cx.state(&(&e, mode.mutable()));
    let kids = f.els[id].children.clone();
    let only = |v: &[usize]| v.iter().copied().filter(|&i| f.els[i].node).collect::<Vec<_>>();
    let nkids = only(&kids);
    let root = make::<A>(&e, Gm::Direct, mode);
    for pre in 0..2 {
        let _held = prehold::<A>(&root, &f, &kids, pre);
        let parent = el::<A>(&node_of::<A>(cx, &root, &f, id));
        let case = |it: &str| format!("{} {mode:?} {e:?} {it} of element {id}, handles held before: {pre}", A::NAME);
        cx.case(|| case("children_with_tokens"));
        provided::<A>(cx, &f, &parent, It::Els, 0, &plainly(&kids), &|| "children_with_tokens".into());
        cx.case(|| case("children"));
        provided::<A>(cx, &f, &parent, It::Children, 0, &plainly(&nkids), &|| "children".into());
        for mask in 0..1u64 << n {
            let pred = |k: u16| k >= 100 && mask >> (k - 100) & 1 == 1;
            for at in [0, 1, 2] {
                cx.case(|| case(&format!("after {at} by kinds {mask:b}")));
                let rest = |v: &[usize]| plainly(&v.iter().skip(at).copied().filter(|&i| pred(f.els[i].kind)).collect::<Vec<_>>());
                provided::<A>(cx, &f, &parent, It::ElsBy(at, &pred), 0, &rest(&kids), &|| "children_with_tokens by_kind".into());
                provided::<A>(cx, &f, &parent, It::ChildrenBy(at, &pred), 0, &rest(&nkids), &|| "children by_kind".into());
                cx.nontrivial += 1;
            }
        }
        for (i, &start) in kids.iter().enumerate() {
            let h = reach::<A>(&root, &f, start, i % HOWS).unwrap();
            let before: Vec<usize> = kids[..=i].iter().rev().copied().collect();
            for (d, line) in [(Direction::Next, &kids[i..]), (Direction::Prev, &before[..])] {
                cx.case(|| case(&format!("siblings {d:?} of child {i}")));
                provided::<A>(cx, &f, &h, It::ElSiblings(d), 0, &plainly(line), &|| "siblings_with_tokens".into());
                if f.els[start].node {
                    provided::<A>(cx, &f, &h, It::Siblings(d), 0, &plainly(&only(line)), &|| "siblings".into());
                }
            }
        }
    }
    same_tree::<A>(cx, &root, &f, "the tree afterwards");
}

fn scaled<A: Api>(cx: &mut Cx, e: &El, f: &Flat, mode: Mode, id: usize) {
    let root = make::<A>(e, Gm::Built, mode);
    let n = reach::<A>(&root, f, id, 0).unwrap().into_node().unwrap();
    let kids = &f.els[id].children;
    let nkids: Vec<usize> = kids.iter().copied().filter(|&i| f.els[i].node).collect();
    for every in [0, 1, 2, 5] {
        cx.case(|| format!("{} {mode:?} {e:?} children of element {id} keeping every {every}th", A::NAME));
        let mut held = Vec::new();
        for (list, got) in [
            (kids, &mut A::children_with_tokens(&n) as &mut dyn Iterator<Item = E<A>>),
            (&nkids, &mut A::children(&n).map(|n| el::<A>(&n))),
        ] {
            run_along::<A>(cx, f, list, got, every, &mut held);
        }
        for (x, id) in &held {
            attrs::<A>(cx, f, x, *id, "a child kept");
        }
    }
    if id == 0 {
        return;
    }
    // the siblings of the element from itself on
    let around = &f.els[f.els[id].parent.unwrap()].children;
    let at = around.iter().position(|&i| i == id).unwrap();
    for every in [0, 1, 2] {
        for d in [Direction::Next, Direction::Prev] {
            cx.case(|| format!("{} {mode:?} {e:?} siblings {d:?} of element {id} keeping every {every}th", A::NAME));
            let list: Vec<usize> = match d {
                Direction::Next => around[at..].to_vec(),
                Direction::Prev => around[..=at].iter().rev().copied().collect(),
            };
            let nlist: Vec<usize> = list.iter().copied().filter(|&i| f.els[i].node).collect();
            let mut held = Vec::new();
            run_along::<A>(cx, f, &list, &mut A::siblings_with_tokens(&n, d), every, &mut held);
            run_along::<A>(cx, f, &nlist, &mut A::siblings(&n, d).map(|n| el::<A>(&n)), every, &mut held);
            for (x, id) in &held {
                attrs::<A>(cx, f, x, *id, "a sibling kept");
            }
        }
    }
}

fn run_along<A: Api>(cx: &mut Cx, f: &Flat, list: &[usize], got: &mut dyn Iterator<Item = E<A>>, every: usize, held: &mut Vec<(E<A>, usize)>) {
    for (j, &id) in list.iter().enumerate() {
        cx.step();
        let Some(x) = got.next() else { cx.fail(format!("they end after {j} of {}", list.len())) };
        attrs::<A>(cx, f, &x, id, "one of them");
        if every > 0 && j % every == 0 {
            held.push((x, id));
        }
    }
    check!(cx, got.next().is_none(), "more than {}", list.len());
}

fn main() {
    mc::engine::main("C08", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        let max = tier.pick(5usize, 6);
        // (n, nodes, variant, mode)
        let mut units = Vec::new();
        for n in 0..=max {
            for nodes in 0..1u64 << n {
                for variant in 0..2 {
                    for mode in MODES {
                        units.push((n, nodes, variant, mode));
                    }
                }
            }
        }
        let u2 = units.clone();
        v.push(family("scripts", format!("0..={max} children, every choice of node or token, at the root and inside a tree; before every step: drop, keep, fork and run, fork and keep; filtering at every point by every set of kinds; siblings from everywhere, all handles kept or dropped"),
            units.len() as u64, move |cx, i| {
                let (n, nodes, variant, mode) = units[i as usize];
                all::<Cur>(cx, n, nodes, variant, mode);
                all::<Typ>(cx, n, nodes, variant, mode);
            }));
        let u2c = u2.clone();
        v.push(family("consuming", "the consuming sibling steps of the untyped interface, every set of steps at which a second handle exists; clones of filtered iterators; nothing remains allocated", u2c.len() as u64, move |cx, i| {
            let (n, nodes, variant, mode) = u2c[i as usize];
            raw_only(cx, n, nodes, variant, mode);
        }));
        let u3: Vec<_> = u2.iter().copied().collect();
        let top = tier.pick(3usize, 4);
        let mut units = Vec::new();
        for n in 0..=top {
            for nodes in 0..1u64 << n {
                for variant in 2..2 + FAR.len() {
                    for mode in [Mode::Imm, Mode::Mut] {
                        units.push((n, nodes, variant, mode));
                    }
                }
            }
        }
        v.push(family("far", format!("the same scripts, filters, siblings and consuming steps for 0..={top} children of a node placed far down, far behind other siblings or far into the text: {FAR:?}"), units.len() as u64, move |cx, i| {
            let (n, nodes, variant, mode) = units[i as usize];
            all::<Cur>(cx, n, nodes, variant, mode);
            all::<Typ>(cx, n, nodes, variant, mode);
            raw_only(cx, n, nodes, variant, mode);
        }));
        v.push(family("provided-methods", format!("nth, count, fold, size_hint and the other provided methods of every child and sibling iterator from every point of its run, with every argument; 0..={max} children, filtered by every set of kinds"), u3.len() as u64, move |cx, i| {
            let (n, nodes, variant, mode) = u3[i as usize];
            provided_all::<Cur>(cx, n, nodes, variant, mode);
            provided_all::<Typ>(cx, n, nodes, variant, mode);
        }));
        let w: Vec<usize> = (5..=70).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1025, 65535, 65536, 65537]).collect();
        let mut scale = scale_trees(&w, &[]);
        let roots = scale.len() as u64;
        scale.extend(scale_trees(&[6, 9, 12], &[2, 9, 30]));
        v.push(family("scale", format!("root with {w:?} children (mutable up to 1025); every node of {} trees wide, deep and both: their children and their siblings", scale.len() as u64 - roots), scale.len() as u64, move |cx, i| {
            let e = &scale[i as usize];
            cx.state(e);
            let f = Flat::new(e);
            if i >= roots {
                for id in f.nodes() {
                    for mode in MODES {
                        scaled::<Cur>(cx, e, &f, mode, id);
                        scaled::<Typ>(cx, e, &f, mode, id);
                    }
                }
                return;
            }
            scaled::<Cur>(cx, e, &f, Mode::Imm, 0);
            scaled::<Typ>(cx, e, &f, Mode::Imm, 0);
            if e.children().len() < 2000 {
                scaled::<Cur>(cx, e, &f, Mode::Mut, 0);
                scaled::<Typ>(cx, e, &f, Mode::Mut, 0);
            }
        }));
        v
    })
}
