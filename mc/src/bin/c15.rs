//! C15: refused calls and panicking callbacks leave everything usable.
use mc::api::*;
use mc::engine::{Cx, Family, Tier, family, guard, small};
use mc::model::*;
use mc::tree::*;
use mc::world::*;
use mc::huge::{self, D};
use mc::{alloc, check, check_eq};
use std::rc::Rc;
use rowan::{GreenNode, GreenNodeBuilder, NodeCache, NodeOrToken, SyntaxKind, TextRange, TextSize};
use std::cell::{Cell, RefCell};

fn memory(cx: &mut Cx) {
    let e = alloc::take_errors();
    check!(cx, !e.any(), "memory errors: {e:?}");
}
fn settle(cx: &mut Cx) {
    alloc::verify();
    memory(cx);
}

fn named(e: &El, n: &mut u16) -> El {
    *n += 1;
    let k = *n;
    match e {
        N(_, c) => N(nth_kind(k), c.iter().map(|x| named(x, n)).collect()),
        T(..) => t(nth_kind(k), ["a", "bc", "", "def", "é"][k as usize % 5]),
    }
}

/// What the inserted sequence consists of.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Item {
    Old(usize),
    Fresh(usize),
    /// An immutable node or token.
    Imm(bool),
    Panic,
    /// Performs this many-th edit of the current model, then yields a fresh element.
    Edit(usize),
}

fn imm<A: Api>(token: bool) -> E<A> {
    let root = A::new_root(N(70, vec![t(71, "imm"), N(72, vec![])]).green());
    if token { A::first_child_or_token(&root).unwrap() } else { NodeOrToken::Node(A::first_child(&root).unwrap()) }
}

const SLIM: Edits = Edits { wide_ranges: false, pairs: false, fresh: 2, keep: false, handles: false, detach: true };

/// A splice with arbitrary items; then, optionally, one more edit.
fn splice<A: Api>(cx: &mut Cx, trees: &[El], order: &[Vec<usize>], gm: Gm, n: usize, a: usize, b: usize, items: &[Item], after: Option<usize>) -> usize {
    let h = History { trees, gm, mode: Mode::Mut, order, how: 1, ops: &[] };
    cx.case(|| format!("{} splice_children of element {n} at {a}..{b} with {items:?}, then edit {after:?}", h.describe(A::NAME)));
    let (r, m) = h.start::<A>();
    // trees that have nothing to do with it
    let outside = make::<A>(&N(80, vec![t(81, "out"), N(82, vec![t(83, "side")])]), gm, Mode::Mut);
    let outside_el = N(80, vec![t(81, "out"), N(82, vec![t(83, "side")])]);
    let snapshot = r.h.iter().flatten().next().map(|x| A::e_ancestors(x).last().map(|n| (A::green(&n), El::read(&A::green(&n)))));
    let node = r.get(&m, n, 0).into_node().unwrap();
    // old elements are looked up beforehand, as a caller would
    let olds: Vec<Option<E<A>>> = items.iter().map(|i| match i { Item::Old(o) => Some(r.get(&m, *o, 1)), _ => None }).collect();
    let ed = if items.iter().any(|i| matches!(i, Item::Edit(_))) { edits(&m, SLIM) } else { vec![] };
    let cell = RefCell::new(r);
    let mm = RefCell::new(m.clone());
    let edits_done = Cell::new(false);
    let mut it = items.iter().zip(olds).map(|(i, o)| match i {
        Item::Old(_) => o.unwrap(),
        Item::Fresh(k) => fresh_real::<A>(*k),
        Item::Imm(k) => imm::<A>(*k),
        Item::Panic => panic!("the iterator panics"),
        Item::Edit(k) => {
            // the tree may have changed since: find out what is there
            let mut r = cell.borrow_mut();
            let op = &ed[*k % ed.len()];
            edits_done.set(true);
            let m = mm.borrow();
            raw_edit::<A>(&mut r, &m, op);
            fresh_real::<A>(0)
        }
    });
    let done = guard(|| A::splice_iter(&node, a..b, &mut it));
    let _ = it;
    let mut r = cell.into_inner();
    cx.step();
    drop(node);
    let m = mm.into_inner();
    let mut known: Vec<u16> = m.els.iter().map(|e| e.kind).collect();
    known.sort();
    let m2 = resync::<A>(cx, &mut r, &m, if done.is_some() { "after the call" } else { "after the refused call" });
    cx.state(&m2);
    // nothing is there twice
    let mut seen: Vec<u16> = m2.els.iter().map(|e| e.kind).filter(|k| known.contains(k)).collect();
    let total = seen.len();
    seen.sort();
    seen.dedup();
    check!(cx, seen.len() == total, "an element is in the trees twice");
    let mut unexpected = m2.els.iter().map(|e| e.kind).filter(|k| !known.contains(k) && !(60..=66).contains(k));
    check!(cx, unexpected.next().is_none(), "an element that was refused is in the tree");
    let must_refuse = !edits_done.get() && items.iter().any(|i| matches!(i, Item::Panic | Item::Imm(_)));
    check!(cx, !(must_refuse && done.is_some()), "accepted, expected a panic");
    if let Some(Some((g, e))) = snapshot {
        check!(cx, same_green(&g, &e), "a green tree taken before was changed");
    }
    same_tree::<A>(cx, &outside, &Flat::new(&outside_el), "a tree not involved");
    // it can be edited
    let next = if m2.els.len() <= 60 || after.is_some_and(|k| k >= NEAR) { edits(&m2, SLIM) } else { near_live(&m2) };
    if let Some(k) = after.map(|k| k % NEAR) {
        if let Some(op) = next.get(k) {
            let mut m3 = m2.clone();
            if m3.apply(op) {
                r.exec(&m2, op);
                r.verify(cx, &m3, "after a later edit");
            } else {
                check!(cx, guard(|| r.exec(&m2, op)).is_none(), "a later edit is accepted, expected a panic");
            }
        }
    }
    drop(r);
    memory(cx);
    next.len()
}

/// Added to the number of a later edit: one of all of them, in a large tree, too.
const NEAR: usize = 1 << 20;

/// In large trees: edits of the first two live elements and their parents.
fn near_live(m: &Model) -> Vec<Op> {
    let mut v = Vec::new();
    for i in (0..m.els.len()).filter(|&i| m.els[i].live).take(2) {
        v.push(Op::Detach(i));
        if m.els[i].node {
            let c = m.els[i].children.len();
            v.push(Op::Splice(i, 0, c.min(1), vec![Ins::Fresh(1, true)]));
            v.push(Op::Splice(i, c, c, vec![Ins::Fresh(0, false)]));
        }
        if let Some(p) = m.els[i].parent {
            let at = m.index(i);
            v.push(Op::Splice(p, at, at + 1, vec![Ins::Fresh(1, false)]));
            v.push(Op::Splice(p, at, at, vec![Ins::Fresh(0, true)]));
            v.push(Op::Splice(p, 0, at, vec![]));
            v.push(Op::Detach(p));
        }
    }
    v
}

/// An edit from within a callback: the handles involved are looked up in the tree as it is.
fn raw_edit<A: Api>(r: &mut Real<A>, m: &Model, op: &Op) {
    let alive = |r: &Real<A>, id: usize| -> Option<E<A>> { r.h[id].clone() };
    match op {
        Op::Detach(id) => {
            if let Some(e) = alive(r, *id) {
                A::e_detach(&e);
            } else if let Some(p) = m.els[*id].parent.and_then(|p| alive(r, p)) {
                if let Some(c) = p.into_node().and_then(|p| A::children_with_tokens(&p).nth(m.index(*id))) {
                    A::e_detach(&c);
                }
            }
        }
        Op::Splice(n, a, b, _) => {
            if let Some(NodeOrToken::Node(n)) = alive(r, *n) {
                let w = A::children_with_tokens(&n).count();
                A::splice(&n, (*a).min(w)..(*b).min(w), vec![fresh_real::<A>(1)]);
            }
        }
        _ => {}
    }
}

fn item_lists(m: &Model, n: usize, x: usize) -> Vec<Vec<Item>> {
    let mut v: Vec<Vec<Item>> = vec![];
    let here = m.present();
    let anc: Vec<usize> = here.iter().copied().filter(|&o| m.contains(o, n)).collect();
    let oth: Vec<usize> = here.iter().copied().filter(|&o| !m.contains(o, n)).collect();
    // refused at some step
    for bad in anc.iter().map(|&o| Item::Old(o)).chain([Item::Imm(false), Item::Imm(true), Item::Panic]) {
        v.push(vec![bad]);
        v.push(vec![Item::Fresh(1), bad]);
        v.push(vec![bad, Item::Fresh(0)]);
        for &o in &oth {
            v.push(vec![Item::Old(o), bad]);
            if x > 1 {
                v.push(vec![Item::Fresh(0), Item::Old(o), bad]);
            }
        }
    }
    v
}

/// All splices that have to be refused, or whose iterator panics.
fn refused<A: Api>(cx: &mut Cx, trees: &[El], order: &[Vec<usize>], gm: Gm, x: usize, follow: bool) {
    let mut m = Model::default();
    for t in trees {
        m.add(t);
    }
    order.iter().flatten().for_each(|&i| m.els[i].live = true);
    let here = m.present();
    for &n in here.iter().filter(|&&i| m.els[i].node) {
        let c = m.els[n].children.len();
        let lists = item_lists(&m, n, x);
        for a in 0..=c {
            for b in [a, a + 1] {
                for items in &lists {
                    go_splice::<A>(cx, trees, order, gm, n, a, b, items, follow);
                }
            }
        }
        // beyond the end
        for a in [c + 1, c + 2, 1 << 32, (1 << 32) + c, usize::MAX] {
            let mut lists: Vec<Vec<Item>> = vec![vec![Item::Fresh(1)], vec![Item::Fresh(0), Item::Fresh(1)]];
            for &o in &here {
                if !m.contains(o, n) {
                    lists.push(vec![Item::Old(o)]);
                }
            }
            for items in lists {
                let b = a.saturating_add(1);
                go_splice::<A>(cx, trees, order, gm, n, a, b, &items, follow);
            }
        }
    }
}

fn go_splice<A: Api>(cx: &mut Cx, trees: &[El], order: &[Vec<usize>], gm: Gm, n: usize, a: usize, b: usize, items: &[Item], follow: bool) {
    let k = splice::<A>(cx, trees, order, gm, n, a, b, items, None);
    cx.nontrivial += 1;
    if follow {
        for j in 0..k {
            splice::<A>(cx, trees, order, gm, n, a, b, items, Some(j));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// predicates

const SEARCHES: usize = 10;

/// Runs search `kind` from `x`; what it found.
fn search<A: Api>(x: &E<A>, kind: usize, p: Pred) -> Option<Vec<E<A>>> {
    let node = |n: Option<A::N>| n.map(NodeOrToken::Node).into_iter().collect::<Vec<E<A>>>();
    Some(match (kind, x) {
        (0, NodeOrToken::Node(n)) => node(A::first_child_by_kind(n, p)),
        (1, NodeOrToken::Node(n)) => A::first_child_or_token_by_kind(n, p).into_iter().collect(),
        (2, NodeOrToken::Node(n)) => node(A::next_sibling_by_kind(n, p)),
        (3, NodeOrToken::Node(n)) => A::next_sibling_or_token_by_kind(n, p).into_iter().collect(),
        (4, NodeOrToken::Node(n)) => A::nc_by_kind(A::children(n), p).take(20).map(NodeOrToken::Node).collect(),
        (5, NodeOrToken::Node(n)) => A::ec_by_kind(A::children_with_tokens(n), p).take(20).collect(),
        (6, NodeOrToken::Node(n)) => {
            let mut it = A::children_with_tokens(n);
            it.next();
            A::ec_by_kind(it, p).take(20).collect()
        }
        (7, NodeOrToken::Node(n)) => {
            let mut it = A::children(n);
            it.next();
            A::nc_by_kind(it, p).take(20).map(NodeOrToken::Node).collect()
        }
        (8, NodeOrToken::Token(k)) => A::t_next_sibling_or_token_by_kind(k, p)?.into_iter().collect(),
        (9, x) => A::e_next_by_kind(x, p)?.into_iter().collect(),
        _ => return None,
    })
}

#[derive(Clone, Debug)]
enum Do {
    Panic,
    Edit(Op),
    /// Lets go of all handles held but one.
    DropHandles,
}

fn predicate<A: Api>(cx: &mut Cx, e: &El, gm: Gm, mode: Mode, sel: &[usize], id: usize, kind: usize, at: usize, answer: usize, what: &Do) -> bool {
    let h = History { trees: std::slice::from_ref(e), gm, mode, order: &[sel.to_vec()], how: 1, ops: &[] };
    cx.case(|| format!("{}: search {kind} (0.. first_child, first_child_or_token, next_sibling, next_sibling_or_token, children, children_with_tokens, the two advanced once, all by kind) from element {id}; the predicate (answers {answer}: never, always, even kinds) does {what:?} at call {at}", h.describe(A::NAME)));
    let mut m = Model::default();
    m.add(e);
    let mut r0 = Real::<A>::default();
    let root = make::<A>(e, gm, mode);
    r0.add(root, &m, 0, sel, 1);
    sel.iter().for_each(|&i| m.els[i].live = true);
    let x = r0.get(&m, id, 0);
    let r = RefCell::new(r0);
    let m = RefCell::new(m);
    let calls = Cell::new(0);
    let p = |k: u16| {
        let c = calls.get();
        calls.set(c + 1);
        if c == at {
            match what {
                Do::Panic => panic!("the predicate panics"),
                Do::Edit(op) => {
                    let (mut r, mut m) = (r.borrow_mut(), m.borrow_mut());
                    r.exec(&m, op);
                    m.apply(op);
                }
                Do::DropHandles => {
                    let (mut r, mut m) = (r.borrow_mut(), m.borrow_mut());
                    for &i in &sel[1..] {
                        r.h[i] = None;
                        m.els[i].live = false;
                    }
                }
            }
        }
        match answer {
            0 => false,
            1 => true,
            _ => k % 2 == 0,
        }
    };
    let got = guard(|| search::<A>(&x, kind, &p));
    let reached = calls.get() > at;
    if let Some(None) = got {
        return false;
    }
    cx.step();
    check!(cx, got.is_none() == (reached && matches!(what, Do::Panic)), "{}", if got.is_none() { "the search panics by itself" } else { "the panic of the predicate was swallowed" });
    let mut r = r.into_inner();
    let mut m = m.into_inner();
    // what was found is still an element of some tree, with consistent handles
    if let Some(Some(found)) = got {
        for f in found {
            r.h.push(Some(f));
        }
    }
    let found: Vec<Option<E<A>>> = r.h.split_off(m.els.len());
    if mode.mutable() {
        cx.state(&m);
        r.verify(cx, &m, "after the search");
        r.h.extend(found);
        let m2 = resync::<A>(cx, &mut r, &m, "after the search, with what it found");
        for op in edits(&m2, SLIM).iter().step_by(5).take(2) {
            let mut m3 = m2.clone();
            if m3.apply(op) {
                r.exec(&m2, op);
                r.verify(cx, &m3, "a later edit");
                break;
            }
        }
    } else {
        let f = Flat::new(e);
        for (i, h) in r.h.iter().enumerate() {
            if let Some(h) = h {
                denotes::<A>(cx, &f, h, i, "a handle after the search");
            }
        }
        for x in found.into_iter().flatten() {
            let i = (0..f.len()).find(|&i| f.els[i].kind == A::e_kind(&x));
            check!(cx, i.is_some(), "something not in the tree was found");
            denotes::<A>(cx, &f, &x, i.unwrap(), "what was found");
        }
        m.els.clear();
    }
    drop(x);
    drop(r);
    memory(cx);
    reached
}

fn predicates<A: Api>(cx: &mut Cx, e: &El, gm: Gm, mode: Mode, sel: &[usize]) {
    let mut m = Model::default();
    m.add(e);
    sel.iter().for_each(|&i| m.els[i].live = true);
    let mut dos = vec![Do::Panic, Do::DropHandles];
    if mode.mutable() {
        dos.extend(edits(&m, Edits { fresh: 1, ..SLIM }).into_iter().filter(|op| m.clone().apply(op)).map(Do::Edit));
    }
    for id in 0..e.size() {
        for kind in 0..SEARCHES {
            for d in &dos {
                for answer in 0..3 {
                    for at in 0..6 {
                        let reached = predicate::<A>(cx, e, gm, mode, sel, id, kind, at, answer, d);
                        cx.nontrivial += reached as u64;
                        if !reached {
                            break;
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// green trees, builders, texts, writers

/// An iterator that reports one length, yields another, and may panic.
struct Lying<T> {
    items: Vec<T>,
    said: usize,
    panic_at: usize,
    given: usize,
    /// Resumes after having returned `None` this often.
    gap: usize,
}
impl<T> Iterator for Lying<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.given == self.panic_at {
            panic!("the iterator panics");
        }
        if self.gap == 0 && !self.items.is_empty() {
            self.given += 1;
            Some(self.items.remove(0))
        } else {
            self.gap = self.gap.saturating_sub(1);
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.said, Some(self.said))
    }
}
impl<T> ExactSizeIterator for Lying<T> {}

fn lying(cx: &mut Cx, n: usize, said: usize, panic_at: usize, nodes: u64, gap: usize) {
    cx.case(|| format!("GreenNode::new with {n} children (nodes {nodes:b}) from an iterator that says {said}, panics at {panic_at}, ends {gap} times too early"));
    let els: Vec<El> = (0..n).map(|i| if nodes >> (i % 64) & 1 == 1 { N(2, vec![t(3, "abc")]) } else { t(4, "de") }).collect();
    let items: Vec<GreenEl> = els.iter().map(|e| e.green_el()).collect();
    let keep = items.clone();
    let r = guard(|| GreenNode::new(SyntaxKind(1), Lying { items, said, panic_at, given: 0, gap }));
    cx.step();
    if panic_at <= n && panic_at <= said && (said == n || panic_at <= said.min(n)) && gap == 0 && panic_at < said.min(n) {
        check!(cx, r.is_none(), "the panic was swallowed");
    }
    if let Some(g) = r {
        // whatever was built is a proper tree over what was yielded
        let e = El::read(&g);
        let k = e.children().len();
        check!(cx, k <= n && e.children() == &els[..k], "a tree of other children was built: {e:?}");
        check_eq!(cx, u32::from(g.text_len()), e.len(), "length of the tree built");
        drop(g.clone());
    }
    // the children are still usable
    for (g, e) in keep.iter().zip(&els) {
        match g {
            NodeOrToken::Node(g) => check!(cx, same_green(g, e), "a child"),
            NodeOrToken::Token(g) => check_eq!(cx, g.text(), e.text(), "a child"),
        }
    }
    drop(keep);
    memory(cx);
    cx.nontrivial += 1;
}

fn green_ops(cx: &mut Cx, e: &El, gm: Gm) {
    let w = e.children().len();
    let new: GreenEl = N(3, vec![t(4, "n")]).green_el();
    for op in 0..9 {
        for i in [w, w + 1, w + 2, 1 << 32, usize::MAX] {
            if i == w && matches!(op, 1 | 3 | 4) {
                continue;
            }
            cx.case(|| format!("{gm:?} {e:?}: green edit {op} at {i}, beyond the {w} children"));
            let g = green(e, gm);
            let before = g.clone();
            let bad = i.saturating_add(1);
            let two = |n: usize| Lying { items: vec![new.clone(); 2], said: 2, panic_at: n, given: 0, gap: 0 };
            let r = guard(|| match op {
                0 => g.replace_child(i, new.clone()),
                1 => g.insert_child(i, new.clone()),
                2 => g.remove_child(i),
                3 => g.splice_children(i..i, vec![new.clone()]),
                4 => g.splice_children(..i, vec![]),
                5 => g.splice_children(w.., two(0)),
                6 => g.splice_children(0..0, two(1)),
                7 => g.splice_children(0..w, two(1)),
                _ => g.splice_children(i..bad, vec![new.clone(), new.clone()]),
            });
            cx.step();
            // replacing a child that does not exist: whether it is refused is not specified
            check!(cx, r.is_none() || op == 0 && same_green(r.as_ref().unwrap(), e), "accepted, expected a panic: {:?}", r.as_ref().map(|g| El::read(g)));
            check!(cx, same_green(&g, e) && same_green(&before, e), "the node was changed");
            check!(cx, same_green(&g.insert_child(0, new.clone()), &{ let mut f = e.clone(); f.children_mut().insert(0, N(3, vec![t(4, "n")])); f }), "a later edit");
            drop((g, before));
            memory(cx);
            cx.nontrivial += 1;
        }
    }
}

/// Calls that must be refused on a builder, after every sequence of calls; the cache stays good.
fn builder(cx: &mut Cx, code: u64, len: usize, bad: usize, shared: bool) {
    cx.case(|| {
        let mut c = code;
        let v: Vec<&str> = (0..len).map(|_| { let x = c % 5; c /= 5; ["start", "token a", "token b", "finish", "checkpoint"][x as usize] }).collect();
        format!("builder calls {v:?} (finish with none open left out), then refused call {bad} (0 finish_node, 1 finish, 2 start at a checkpoint beyond, 3 start at a checkpoint before the innermost open node, 4 two roots); shared cache {shared}")
    });
    let mut cache = NodeCache::default();
    let first = N(1, vec![t(2, "a"), t(2, "b"), N(1, vec![])]);
    let g0 = first.green_cached(&mut cache);
    let mut own = NodeCache::default();
    let used = if shared { &mut cache } else { &mut own };
    let mut b = GreenNodeBuilder::with_cache(used);
    let mut open: Vec<usize> = vec![];
    let mut n = 0usize;
    let mut cps = vec![];
    let mut c = code;
    let mut root_tokens = 0;
    for _ in 0..len {
        match c % 5 {
            0 => {
                b.start_node(SyntaxKind(1));
                open.push(n);
            }
            k @ 1..=2 => {
                b.token(SyntaxKind(2), ["a", "b"][k as usize - 1]);
                n += 1;
                root_tokens += open.is_empty() as usize;
            }
            3 => {
                if let Some(o) = open.pop() {
                    b.finish_node();
                    n = o + 1;
                }
            }
            _ => cps.push((b.checkpoint(), n)),
        }
        c /= 5;
    }
    let applicable = match bad {
        0 => open.is_empty(),
        1 => n != 1 && open.is_empty(),
        2 => cps.iter().any(|c| c.1 > n),
        3 => open.last().is_some_and(|&o| cps.iter().any(|c| c.1 < o)),
        _ => n > 1 && open.is_empty(),
    };
    if applicable {
        cx.step();
        cx.nontrivial += 1;
        let refused = match bad {
            0 => guard(|| b.finish_node()).is_none(),
            2 => {
                let p = cps.iter().find(|c| c.1 > n).unwrap().0;
                guard(|| b.start_node_at(p, SyntaxKind(3))).is_none()
            }
            3 => {
                let o = *open.last().unwrap();
                let p = cps.iter().find(|c| c.1 < o).unwrap().0;
                guard(|| b.start_node_at(p, SyntaxKind(3))).is_none()
            }
            _ => {
                let r = guard(|| b.finish());
                check!(cx, r.is_none(), "finish is accepted with {n} elements");
                check!(cx, same_green(&g0, &first), "a tree built before");
                let g = first.green_cached(&mut cache);
                check!(cx, same_green(&g, &first), "a tree built with the same cache afterwards");
                drop((g, g0, cache, own));
                memory(cx);
                return;
            }
        };
        check!(cx, refused, "accepted, expected a panic");
        // it goes on as if the call had not been made
        b.start_node(SyntaxKind(5));
        b.token(SyntaxKind(2), "z");
        b.finish_node();
        n += 1;
        while let Some(o) = open.pop() {
            b.finish_node();
            n = o + 1;
        }
        if n == 1 && root_tokens == 0 {
            let g = b.finish();
            let mut f = g.clone();
            // the last thing built is the one built after the refused call
            loop {
                if f.kind() == SyntaxKind(5) {
                    break;
                }
                match f.children().last() {
                    Some(NodeOrToken::Node(x)) => {
                        let x = x.to_owned();
                        f = x;
                    }
                    _ => cx.fail("what was built after the refused call is missing"),
                }
            }
        } else {
            drop(b);
        }
    } else {
        drop(b);
    }
    check!(cx, same_green(&g0, &first), "a tree built before");
    let g = first.green_cached(&mut cache);
    check!(cx, same_green(&g, &first), "a tree built with the same cache afterwards");
    drop((g, g0, cache, own));
    memory(cx);
}

/// Texts: ranges refused, callbacks that panic or edit the tree at each chunk.
fn texts<A: Api>(cx: &mut Cx, e: &El, gm: Gm, mode: Mode, sel: &[usize]) {
    let f = Flat::new(e);
    let mut m0 = Model::default();
    m0.add(e);
    sel.iter().for_each(|&i| m0.els[i].live = true);
    for id in f.nodes() {
        let len = f.els[id].end - f.els[id].start;
        let start = || -> (Real<A>, Model, A::N) {
            let mut r = Real::<A>::default();
            let root = make::<A>(e, gm, mode);
            r.add(root, &m0, 0, sel, 1);
            let n = r.get(&m0, id, 0).into_node().unwrap();
            (r, m0.clone(), n)
        };
        let unchanged = |cx: &mut Cx, r: &Real<A>, m: &Model, what: &str| {
            if mode.mutable() {
                r.verify(cx, m, what);
            } else {
                for (i, h) in r.h.iter().enumerate() {
                    if let Some(h) = h {
                        denotes::<A>(cx, &f, h, i, what);
                    }
                }
            }
        };
        // refused slices and lookups
        for (a, b) in [(0, len + 1), (len + 1, len + 2), (len + 1, len + 1), (1, len + 1)] {
            for call in 0..5 {
                cx.case(|| format!("{} {gm:?} {mode:?} {e:?} handles {sel:?}: call {call} (0 slice, 1 slice from, 2 slice to, 3 token_at_offset, 4 covering_element) of element {id} with {a}..{b}, beyond its {len} bytes", A::NAME));
                let (r, m, n) = start();
                let t = A::text(&n);
                let s = f.els[id].start;
                let ok = match call {
                    0 => guard(|| t.slice(TextRange::new(a.into(), b.into()))).is_some(),
                    1 if a > len => guard(|| t.slice(TextSize::from(a)..)).is_some(),
                    2 => guard(|| t.slice(..TextSize::from(b))).is_some(),
                    3 => guard(|| A::token_at_offset(&n, (s + b).into())).is_some(),
                    4 => guard(|| A::covering_element(&n, range(s + a, s + b))).is_some(),
                    _ => false,
                };
                cx.step();
                check!(cx, !ok, "accepted, expected a panic");
                drop(t);
                unchanged(cx, &r, &m, "after the refused call");
                drop((r, n));
                memory(cx);
                cx.nontrivial += 1;
            }
        }
        // callbacks
        let mut dos = vec![Do::Panic, Do::DropHandles];
        if mode.mutable() {
            dos.extend(edits(&m0, Edits { fresh: 1, ..SLIM }).into_iter().filter(|op| m0.clone().apply(op)).map(Do::Edit));
        }
        for d in &dos {
            for at in 0..4 {
                cx.case(|| format!("{} {gm:?} {mode:?} {e:?} handles {sel:?}: the chunks of the text of element {id}, the callback does {d:?} at chunk {at}", A::NAME));
                let (r, m, n) = start();
                let t = A::text(&n);
                let (r, m) = (RefCell::new(r), RefCell::new(m));
                let mut calls = 0;
                let done = guard(|| {
                    t.for_each_chunk(|chunk| {
                        if calls == at {
                            let before = chunk.to_string();
                            match d {
                                Do::Panic => panic!("the callback panics"),
                                Do::Edit(op) => {
                                    let (mut r, mut m) = (r.borrow_mut(), m.borrow_mut());
                                    r.exec(&m, op);
                                    m.apply(op);
                                }
                                Do::DropHandles => {
                                    let (mut r, mut m) = (r.borrow_mut(), m.borrow_mut());
                                    for &i in &sel[1..] {
                                        r.h[i] = None;
                                        m.els[i].live = false;
                                    }
                                }
                            }
                            check!(cx, chunk == before, "the chunk changed while it was lent: {before:?} became {chunk:?}");
                        }
                        calls += 1;
                    })
                });
                let _ = done;
                cx.step();
                drop(t);
                let (r, m) = (r.into_inner(), m.into_inner());
                drop(n);
                unchanged(cx, &r, &m, "after the callback");
                drop(r);
                memory(cx);
                if calls <= at {
                    break;
                }
                cx.nontrivial += 1;
            }
        }
    }
}

/// A writer that fails or panics after some bytes.
struct Fails(usize, bool);
impl std::fmt::Write for Fails {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            if self.1 {
                panic!("the writer panics")
            }
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}
impl std::io::Write for Fails {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.len() > self.0 {
            if self.1 {
                panic!("the writer panics")
            }
            return Err(std::io::Error::other("full"));
        }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn writers(cx: &mut Cx, e: &El, gm: Gm, mode: Mode) {
    use std::fmt::Write as _;
    let f = Flat::new(e);
    for id in 0..f.len() {
        for form in 0..5 {
            for panics in [false, true] {
                for room in (0..24).chain([40, 60, 80, 100]) {
                    cx.case(|| format!("{gm:?} {mode:?} {e:?}: form {form} (Display, Debug, alternate Debug, serialized, green Debug) of element {id} written to something that {} after {room} bytes", if panics { "panics" } else { "fails" }));
                    let root = make::<Typ>(e, gm, mode);
                    let x = reach::<Typ>(&root, &f, id, 1).unwrap();
                    let mut w = Fails(room, panics);
                    let r = guard(|| match (form, &x) {
                        (0, x) => write!(w, "{x}").is_ok(),
                        (1, x) => write!(w, "{x:?}").is_ok(),
                        (2, x) => write!(w, "{x:#?}").is_ok(),
                        (3, NodeOrToken::Node(n)) => serde_json::to_writer(&mut w, n).is_ok(),
                        (3, NodeOrToken::Token(n)) => serde_json::to_writer(&mut w, n).is_ok(),
                        (_, NodeOrToken::Node(n)) => write!(w, "{:?}", n.green()).is_ok(),
                        (_, NodeOrToken::Token(n)) => write!(w, "{:?}", n.green()).is_ok(),
                    });
                    cx.step();
                    denotes::<Typ>(cx, &f, &x, id, "afterwards");
                    if mode.mutable() {
                        x_detach(&x);
                    }
                    drop((x, root));
                    memory(cx);
                    cx.nontrivial += 1;
                    if r == Some(true) {
                        break;
                    }
                }
            }
        }
    }
}

/// A writer that does something at one of its calls.
struct Acts<'a> {
    out: String,
    calls: usize,
    at: usize,
    act: &'a dyn Fn(),
}
impl Acts<'_> {
    fn put(&mut self, s: &str) {
        if self.calls == self.at {
            let before = s.to_string();
            (self.act)();
            // what was lent is still what it was
            assert_eq!(s, before);
        }
        self.calls += 1;
        self.out.push_str(s);
    }
}
impl std::fmt::Write for Acts<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.put(s);
        Ok(())
    }
}
impl std::io::Write for Acts<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.put(&String::from_utf8_lossy(b));
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// All forms of an element written to something that edits the tree meanwhile.
fn acting_writer(cx: &mut Cx, e: &El, gm: Gm, mode: Mode, sel: &[usize], id: usize, form: usize, at: usize, what: &Do) -> bool {
    use std::fmt::Write as _;
    let h = History { trees: std::slice::from_ref(e), gm, mode, order: &[sel.to_vec()], how: 1, ops: &[] };
    cx.case(|| format!("{}: form {form} (Display, Debug, alternate Debug, serialized, its text, the text's Debug) of element {id} written to something that does {what:?} at its call {at}", h.describe(Typ::NAME)));
    let mut m = Model::default();
    m.add(e);
    let mut r = Real::<Typ>::default();
    let root = make::<Typ>(e, gm, mode);
    r.add(root, &m, 0, sel, 1);
    sel.iter().for_each(|&i| m.els[i].live = true);
    let x = r.get(&m, id, 0);
    let write = |x: &E<Typ>, w: &mut Acts| {
        let ok = match (form, x) {
            (0, x) => write!(w, "{x}").is_ok(),
            (1, x) => write!(w, "{x:?}").is_ok(),
            (2, x) => write!(w, "{x:#?}").is_ok(),
            (3, NodeOrToken::Node(n)) => serde_json::to_writer(w, n).is_ok(),
            (3, NodeOrToken::Token(n)) => serde_json::to_writer(w, n).is_ok(),
            (4, NodeOrToken::Node(n)) => write!(w, "{}", n.text()).is_ok(),
            (_, NodeOrToken::Node(n)) => write!(w, "{:?}", n.text()).is_ok(),
            (_, NodeOrToken::Token(n)) => write!(w, "{}", n.text()).is_ok(),
        };
        assert!(ok);
    };
    let mut plain = Acts { out: String::new(), calls: 0, at: usize::MAX, act: &|| () };
    write(&x, &mut plain);
    if plain.calls <= at {
        return false;
    }
    let cells = (RefCell::new(r), RefCell::new(m), Cell::new(0));
    let mut w = Acts {
        out: String::new(),
        calls: 0,
        at,
        act: &|| match what {
            Do::Panic => panic!("the writer panics"),
            Do::Edit(op) => {
                let (mut r, mut m) = (cells.0.borrow_mut(), cells.1.borrow_mut());
                r.exec(&m, op);
                m.apply(op);
            }
            Do::DropHandles => {
                let (mut r, mut m) = (cells.0.borrow_mut(), cells.1.borrow_mut());
                for &i in &sel[1..] {
                    r.h[i] = None;
                    m.els[i].live = false;
                }
            }
        },
    };
    let done = guard(|| write(&x, &mut w));
    cx.step();
    check!(cx, w.calls >= at, "the writer was called only {} times", w.calls);
    // (the alternate Debug form notices that it did not leave all it entered, and the range of a text
    // may no longer be one of whole characters: these may panic)
    check!(cx, [2, 4, 5].contains(&form) && matches!(what, Do::Edit(_)) || done.is_none() == matches!(what, Do::Panic), "panicked: {}", done.is_none());
    if matches!(what, Do::DropHandles) {
        check_eq!(cx, w.out, plain.out, "what was written");
    }
    drop(w);
    let (r, m) = (cells.0.into_inner(), cells.1.into_inner());
    drop(x);
    if mode.mutable() {
        cx.state(&m);
        r.verify(cx, &m, "after the writing");
        for op in edits(&m, SLIM).iter().step_by(5).take(2) {
            let mut m3 = m.clone();
            if m3.apply(op) {
                let mut r = r;
                r.exec(&m, op);
                r.verify(cx, &m3, "a later edit");
                drop(r);
                break;
            }
        }
    } else {
        let f = Flat::new(e);
        for (i, h) in r.h.iter().enumerate() {
            if let Some(h) = h {
                denotes::<Typ>(cx, &f, h, i, "a handle after the writing");
            }
        }
    }
    memory(cx);
    true
}

fn acting_writers(cx: &mut Cx, e: &El, gm: Gm, mode: Mode, sel: &[usize]) {
    let mut m = Model::default();
    m.add(e);
    sel.iter().for_each(|&i| m.els[i].live = true);
    let mut dos = vec![Do::Panic, Do::DropHandles];
    if mode.mutable() {
        dos.extend(edits(&m, Edits { fresh: 1, ..SLIM }).into_iter().filter(|op| m.clone().apply(op)).map(Do::Edit));
    }
    for id in 0..e.size() {
        for form in 0..6 {
            for d in &dos {
                // serialized forms are written in very many calls
                let step = if form == 3 { 5 } else { 1 };
                for at in (0..if form == 3 { 200 } else { 40 }).step_by(step) {
                    if !acting_writer(cx, e, gm, mode, sel, id, form, at, d) {
                        break;
                    }
                    cx.nontrivial += 1;
                }
            }
        }
    }
}

fn x_detach(x: &E<Typ>) {
    Typ::e_detach(x)
}

/// Substitutions of another kind, and of token by token of another kind, are refused.
fn substitute<A: Api>(cx: &mut Cx, e: &El, gm: Gm, mode: Mode) {
    let f = Flat::new(e);
    for id in 0..f.len() {
        cx.case(|| format!("{} {gm:?} {mode:?} {e:?}: element {id} replaced by one of another kind", A::NAME));
        let root = make::<A>(e, gm, mode);
        let x = reach::<A>(&root, &f, id, 1).unwrap();
        let r = guard(|| match &x {
            NodeOrToken::Node(n) => A::replace_with(n, N(99, vec![]).green()),
            NodeOrToken::Token(k) => A::t_replace_with(k, t(99, "zz").green_el().into_token().unwrap()),
        });
        cx.step();
        check!(cx, r.is_none(), "accepted, expected a panic");
        same_tree::<A>(cx, &root, &f, "the tree");
        denotes::<A>(cx, &f, &x, id, "the element");
        drop((x, root));
        memory(cx);
        cx.nontrivial += 1;
    }
}

/// The tree below a node, as far as the given paths reach, agrees with its green tree.
fn tiles<A: Api>(cx: &mut Cx, root: &A::N, what: &str) {
    let mut at = NodeOrToken::Node(root.clone());
    loop {
        let NodeOrToken::Node(n) = &at else { break };
        cx.step();
        let (s, e) = huge::e32(A::range(n));
        let g = A::green(n);
        check_eq!(cx, u32::from(g.text_len()) as u64, e - s, "{what}: green length");
        let (mut a, mut next, mut c) = (s, None, 0);
        for (i, x) in A::children_with_tokens(n).enumerate() {
            let (b, e) = huge::e32(A::e_range(&x));
            check_eq!(cx, b, a, "{what}: start of child {i}");
            check_eq!(cx, A::e_index(&x), i, "{what}: index of child {i}");
            a = e;
            c += 1;
            if x.as_node().is_some() {
                next = Some(x);
            }
        }
        check_eq!(cx, a, e, "{what}: end of the last child");
        check_eq!(cx, c, g.children().len(), "{what}: number of children");
        match next {
            Some(x) => at = x,
            None => break,
        }
    }
}

/// Edits that would make the text of a mutable tree longer than an offset can count.
fn too_long<A: Api>(cx: &mut Cx, name: &str, d: &Rc<D>, first: bool) {
    let room = huge::MAX - d.len;
    let paths = d.paths();
    let green = d.green();
    let of_len = |k: u16, len: u64| huge::node(k, huge::shapes(len).remove(0).1.kids().to_vec()).green();
    let (small_a, small_b) = (of_len(92, room / 2), of_len(93, room - room / 2 + 1));
    for p in &paths[..paths.len().min(4)] {
        for depth in [0, 1, p.len() / 2, p.len() - 1] {
            let target = &p[..depth.min(p.len() - 1)];
            let x = d.along(target).pop().unwrap().1;
            let width = x.kids().len();
            let mut places = vec![0, width / 2, width];
            places.dedup();
            for at in places {
                for (extra, tok) in [(0, false), (1, false), (1, true), (huge::MIB, false)] {
                    let grow = room + extra;
                    if tok && grow > 1 << 21 {
                        continue;
                    }
                    cx.case(|| format!("{} {name}, {} bytes: {grow} bytes inserted at {at} of {target:?} ({})", A::NAME, d.len, if tok { "token" } else { "node" }));
                    cx.state(&(name, d.len, target, at, extra, tok));
                    let root = A::new_root_mut(green.clone());
                    // handles along the path, taken before or after the call
                    let mut hs = huge::reach::<A>(&root, d, p, first as usize);
                    let n = hs[target.len()].clone().into_node().unwrap();
                    if !first {
                        hs.clear();
                    }
                    let x: E<A> = if tok {
                        let r = A::new_root_mut(GreenNode::new(SyntaxKind(90), [rowan::GreenToken::new(SyntaxKind(91), &huge::token_text(grow)).into()]));
                        let t = A::first_child_or_token(&r).unwrap();
                        A::e_detach(&t);
                        t
                    } else {
                        NodeOrToken::Node(A::new_root_mut(of_len(90, grow)))
                    };
                    let done = guard(|| A::splice(&n, at..at, vec![x.clone()]));
                    cx.step();
                    if extra == 0 {
                        check!(cx, done.is_some(), "refused though it fits");
                        check_eq!(cx, huge::e32(A::range(&root)), (0, huge::MAX), "range of the root");
                        check_eq!(cx, A::e_parent(&x).as_ref(), Some(&n), "parent of the inserted element");
                        check_eq!(cx, A::e_index(&x), at, "index of the inserted element");
                        tiles::<A>(cx, &root, "after the insertion");
                        // and out again
                        A::e_detach(&x);
                    } else {
                        check!(cx, done.is_none(), "a text of {} bytes is accepted, expected a panic", d.len + grow);
                        cx.nontrivial += 1;
                    }
                    check!(cx, A::e_parent(&x).is_none(), "the element has a parent");
                    check_eq!(cx, huge::e32(A::e_range(&x)), (0, grow), "range of the element");
                    check_eq!(cx, A::e_kind(&x), if tok { 91 } else { 90 }, "kind of the element");
                    if !first {
                        hs = huge::reach::<A>(&root, d, p, 1);
                    }
                    for (i, h) in hs.iter().enumerate() {
                        huge::is_at::<A>(cx, d, &p[..i], h, "afterwards");
                    }
                    tiles::<A>(cx, &root, "afterwards");
                    // several at once: what came before is in, what did not fit is not
                    let one = |g: &GreenNode| NodeOrToken::Node(A::new_root_mut(g.clone()));
                    let (a, b, c) = (one(&small_a), one(&small_b), one(&of_len(94, 1)));
                    let done = guard(|| A::splice(&n, at..at, vec![a.clone(), b.clone(), c.clone()]));
                    cx.step();
                    check!(cx, done.is_none(), "two that do not fit together are accepted");
                    check!(cx, A::e_parent(&b).is_none() && A::e_parent(&c).is_none(), "what did not fit is in");
                    check_eq!(cx, huge::e32(A::e_range(&b)), (0, room - room / 2 + 1), "range of what did not fit");
                    tiles::<A>(cx, &root, "after the partly refused splice");
                    if A::e_parent(&a).is_some() {
                        A::e_detach(&a);
                    }
                    for (i, h) in hs.iter().enumerate() {
                        huge::is_at::<A>(cx, d, &p[..i], h, "after the partly refused splice was undone");
                    }
                    // moved within the tree, and replaced by as much: fits
                    if width > 0 && extra != 0 {
                        let h = hs[target.len() + 1].clone();
                        let len = huge::e32(A::e_range(&h));
                        let i = A::e_index(&h);
                        let done = guard(|| A::splice(&n, 0..0, vec![h.clone()]));
                        check!(cx, done.is_some(), "moving a child within its node is refused");
                        tiles::<A>(cx, &root, "after a move");
                        let done = guard(|| A::splice(&n, 0..1, vec![one(&of_len(95, len.1 - len.0))]));
                        check!(cx, done.is_some(), "replacing child {i} by one of the same length is refused");
                        tiles::<A>(cx, &root, "after a replacement");
                        check_eq!(cx, huge::e32(A::range(&root)), (0, d.len), "range of the root");
                    }
                    drop((hs, n, x, root, a, b, c));
                    memory(cx);
                }
            }
        }
    }
}

fn main() {
    mc::engine::main("C15", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        let sm = small();
        // refused splices
        let top = if sm { 3 } else { tier.pick(4, 5) };
        let mut units = Vec::new();
        for s in shapes(1, top) {
            for sel in subsets(s.size(), 0) {
                if !sel.is_empty() {
                    units.push((s.clone(), sel));
                }
            }
        }
        v.push(family("refused-splices", format!("all shapes of up to {top} elements, every set of live handles, every splice that is refused (beyond the end, ancestors, immutable elements) or whose iterator panics, at every step; then every further edit (shapes of up to {})", tier.pick(3, 4)), units.len() as u64, move |cx, i| {
            let (s, sel) = &units[i as usize];
            let e = named(s, &mut 0);
            let follow = s.size() <= cx.tier.pick(3, 4) && !small();
            refused::<Cur>(cx, &[e.clone()], &[sel.clone()], GMS[(i % 2) as usize], 2, follow);
            if s.size() <= 3 {
                refused::<Typ>(cx, &[e], &[sel.clone()], GMS[((i + 1) % 2) as usize], 2, false);
            }
            settle(cx);
        }));
        // the same on wide nodes
        let widths: Vec<usize> = if sm { vec![9, 33] } else { tier.pick(vec![9, 17, 33, 65, 129], vec![9, 16, 17, 33, 64, 65, 128, 129, 256, 257, 300, 520]) };
        v.push(family("refused-wide", format!("nodes with {widths:?} children inside a larger tree, handles to none, a few or all of them: splices at the ends, the middle and beyond with up to 260 elements of which the last (or none) is immutable, the node itself, an ancestor, or a panic, elements of the node itself among them; then one of three further edits"), widths.len() as u64 * 3 * 2, move |cx, i| {
            let n = widths[(i / 6) as usize];
            let c: Vec<El> = (0..n).map(|k| {
                let kind = 100 + k as u16;
                if k % 2 == 0 { t(kind, ["a", "", "é"][k % 3]) } else { N(kind, if k % 3 == 0 { vec![] } else { vec![t(5000 + kind, "b")] }) }
            }).collect();
            let e = N(20, vec![t(21, "l"), N(22, c), t(23, "r")]);
            let f = Flat::new(&e);
            let at = 2;
            let kids = f.els[at].children.clone();
            let few = [0, 1, n / 2, n - 2, n - 1].map(|k| kids[k]);
            let mut order = vec![at];
            match i / 2 % 3 {
                0 => {}
                1 => order.extend(few),
                _ => order.extend(kids.iter().rev()),
            }
            let ends = [Item::Fresh(0), Item::Panic, Item::Imm(i % 2 == 0), Item::Old(0), Item::Old(at), Item::Old(few[2])];
            let mut lists: Vec<Vec<Item>> = Vec::new();
            for k in [0, 1, 7, 260] {
                for end in ends {
                    if k == 260 && (matches!(end, Item::Fresh(_)) || n > 33) {
                        continue;
                    }
                    let mut v: Vec<Item> = (0..k).map(Item::Fresh).collect();
                    v.push(end);
                    lists.push(v);
                }
            }
            for end in ends {
                lists.push(vec![Item::Old(few[4]), Item::Fresh(1), Item::Old(few[0]), end, Item::Fresh(2)]);
                lists.push(few.iter().rev().map(|&x| Item::Old(x)).filter(|x| *x != end).chain([end]).collect());
            }
            for (a, b) in [(0, 0), (0, 1), (1, n), (n / 2, n / 2 + 2), (n - 1, n), (n, n), (n + 1, n + 1), (n - 1, n + 5), (n + 2, usize::MAX)] {
                for (k, items) in lists.iter().enumerate() {
                    let after = [None, Some(NEAR), Some(NEAR + k * 7)][k % 3];
                    let gm = GMS[(i % 2) as usize];
                    let order = [order.clone()];
                    if k % 4 == 3 {
                        splice::<Typ>(cx, &[e.clone()], &order, gm, at, a, b, items, after);
                    } else {
                        splice::<Cur>(cx, &[e.clone()], &order, gm, at, a, b, items, after);
                    }
                    cx.nontrivial += 1;
                }
            }
            settle(cx);
        }));
        // in far places
        let places: Vec<Far> = tier.pick(vec![FAR[1], FAR[2], FAR[4]], FAR.iter().chain(&FARTHER).copied().collect());
        let ftop = if sm { 1 } else { 2 };
        let mut units = Vec::new();
        for s in shapes(1, ftop) {
            for far in &places {
                let (e, base) = far.put(&s);
                // all kinds differ
                let e = named(&e, &mut 80);
                for sel in subsets(s.size(), base) {
                    units.push((e.clone(), base, s.size(), sel));
                }
            }
        }
        v.push(family("refused-far", format!("every shape of up to {ftop} elements in far places {places:?}: every set of its elements and perhaps the root live, splices of its nodes and of the node around it that are refused (beyond the end, ancestors, immutable elements) or whose iterator panics; then every further edit of or around two live elements"), units.len() as u64, move |cx, i| {
            let (e, base, size, sel) = &units[i as usize];
            let trees = [e.clone()];
            let with_root: Vec<usize> = sel.iter().copied().chain([0]).collect();
            for order in [sel.clone(), with_root] {
                if order.is_empty() {
                    continue;
                }
                let mut m = Model::default();
                m.add(e);
                order.iter().for_each(|&i| m.els[i].live = true);
                let host = m.els[*base].parent.unwrap();
                let last = m.els.len() - 1;
                let order = [order];
                for n in (*base..base + size).filter(|&i| m.els[i].node).chain([host]) {
                    let mut lists: Vec<Vec<Item>> = Vec::new();
                    let mut bad: Vec<Item> = [n, host, *base, 0].iter().filter(|&&o| m.contains(o, n)).map(|&o| Item::Old(o)).collect();
                    bad.dedup();
                    bad.extend([Item::Imm(false), Item::Imm(true), Item::Panic]);
                    let oth: Vec<usize> = (*base..base + size).chain([last]).filter(|&o| !m.contains(o, n)).collect();
                    for &b in &bad {
                        lists.push(vec![b]);
                        lists.push(vec![Item::Fresh(1), b]);
                        lists.extend(oth.iter().map(|&o| vec![Item::Old(o), b]));
                    }
                    let c = m.els[n].children.len();
                    let at = if n == host { m.index(*base) } else { 0 };
                    let mut ranges = vec![(at, at), (at, at + 1), (at + 1, at + 2), (c, c)];
                    ranges.retain(|r| r.0 <= c);
                    ranges.dedup();
                    let gm = GMS[(i % 2) as usize];
                    for (a, b) in ranges {
                        for items in &lists {
                            if i % 3 == 1 {
                                go_splice::<Typ>(cx, &trees, &order, gm, n, a, b, items, true);
                            } else {
                                go_splice::<Cur>(cx, &trees, &order, gm, n, a, b, items, true);
                            }
                        }
                    }
                    for a in [c + 1, usize::MAX] {
                        for items in std::iter::once(vec![Item::Fresh(1)]).chain(oth.iter().map(|&o| vec![Item::Old(o)])) {
                            go_splice::<Cur>(cx, &trees, &order, gm, n, a, a.saturating_add(1), &items, true);
                        }
                    }
                }
            }
            settle(cx);
        }));
        let tiny = shapes(1, if sm { 2 } else { 3 });
        let mut units = Vec::new();
        for a in &tiny {
            for b in &tiny {
                if a.size() + b.size() > tier.pick(4, 6) {
                    continue;
                }
                for sa in subsets(a.size(), 0) {
                    for sb in subsets(b.size(), a.size()) {
                        if !sa.is_empty() && !sb.is_empty() {
                            units.push((a.clone(), b.clone(), sa.clone(), sb));
                        }
                    }
                }
            }
        }
        v.push(family("refused-moves", format!("every two trees of up to 3 elements ({} in all), every set of live handles, every refused or failing splice that moves elements between them", tier.pick(4, 6)), units.len() as u64, move |cx, i| {
            let (a, b, sa, sb) = &units[i as usize];
            let mut n = 0;
            let trees = [named(a, &mut n), named(b, &mut n)];
            let order = [sa.clone(), sb.clone()];
            refused::<Cur>(cx, &trees, &order, GMS[(i % 2) as usize], 1, a.size() + b.size() <= cx.tier.pick(3, 5) && !small());
            settle(cx);
        }));
        // iterators that edit
        let mut units = Vec::new();
        for s in shapes(1, if sm { 3 } else { tier.pick(4, 5) }) {
            for sel in subsets(s.size(), 0) {
                // decreasing orders of large sets only in the thorough tier
                let down = sel.len() > 1 && sel[0] > sel[1];
                if !sel.is_empty() && (s.size() < 4 || !down || tier == Tier::Thorough) {
                    units.push((s.clone(), sel));
                }
            }
        }
        v.push(family("editing-iterators", format!("all shapes of up to {} elements, every set of live handles, every splice whose iterator performs any edit on the tree at its first, second or third step", tier.pick(4, 5)), units.len() as u64, move |cx, i| {
            let (s, sel) = &units[i as usize];
            let e = named(s, &mut 0);
            let trees = [e];
            let order = [sel.clone()];
            let mut m = Model::default();
            m.add(&trees[0]);
            sel.iter().for_each(|&i| m.els[i].live = true);
            let k = edits(&m, SLIM).len();
            for n in 0..s.size() {
                if !m.els[n].node {
                    continue;
                }
                let c = m.els[n].children.len();
                for a in 0..=c {
                    for b in a..=c.min(a + 1) {
                        for ed in 0..k {
                            let mut lists = vec![vec![Item::Edit(ed)], vec![Item::Fresh(1), Item::Edit(ed)]];
                            for o in 0..s.size() {
                                if !m.contains(o, n) {
                                    lists.push(vec![Item::Edit(ed), Item::Old(o)]);
                                    lists.push(vec![Item::Old(o), Item::Edit(ed)]);
                                }
                            }
                            for items in &lists {
                                splice::<Cur>(cx, &trees, &order, GMS[(i % 2) as usize], n, a, b, items, None);
                                cx.nontrivial += 1;
                            }
                        }
                    }
                }
            }
            settle(cx);
        }));
        // predicates
        let ptop = if sm { 3 } else { tier.pick(4, 5) };
        let mut units = Vec::new();
        for s in shapes(2, ptop) {
            let n = s.size();
            for sel in [vec![0], (0..n).collect(), (0..n).rev().collect(), vec![n - 1], vec![1, n - 1]] {
                for mode in [Mode::Mut, Mode::Imm, Mode::Upd] {
                    units.push((s.clone(), sel.clone(), mode));
                }
            }
        }
        v.push(family("predicates", format!("all shapes of up to {ptop} elements, a few sets of live handles, every search by kind from every element with a predicate that panics, drops handles or performs any edit at any of its calls"), units.len() as u64, move |cx, i| {
            let (s, sel, mode) = &units[i as usize];
            let e = named(s, &mut 0);
            let mut sel = sel.clone();
            sel.dedup();
            predicates::<Cur>(cx, &e, GMS[(i % 2) as usize], *mode, &sel);
            if s.size() <= cx.tier.pick(3, 4) {
                predicates::<Typ>(cx, &e, GMS[((i + 1) % 2) as usize], *mode, &sel);
            }
            settle(cx);
        }));
        // lying iterators
        let n = tier.pick(6u64, 8);
        v.push(family("lying-iterators", format!("GreenNode::new with up to {n} children, every announced length, every step at which the iterator panics, ends early once or twice; and widths around powers of two"), n + 6, move |cx, i| {
            let wide = [15u64, 16, 17, 63, 64, 257];
            if i >= n {
                let w = wide[(i - n) as usize] as usize;
                for said in [w - 2, w - 1, w, w + 1, w + 2, 2 * w] {
                    for p in [0, 1, w / 2, w - 1, w, usize::MAX] {
                        lying(cx, w, said, p, 0x5555_5555, 0);
                    }
                }
            } else {
                let w = i as usize;
                for said in 0..=w + 2 {
                    for p in (0..=w + 1).chain([usize::MAX]) {
                        for nodes in 0..1u64 << w {
                            for gap in 0..3 {
                                lying(cx, w, said, p, nodes, gap);
                            }
                        }
                    }
                }
            }
            settle(cx);
        }));
        let s = TreeSpace::new(1, 4, &[1], &[(2, "a"), (2, "")]);
        v.push(family("green-edits", format!("every green edit with an index or range beyond the children, or with an iterator that panics; {}", s.describe()), s.count(), move |cx, i| {
            let e = s.get(i);
            for gm in GMS {
                green_ops(cx, &e, gm);
            }
            settle(cx);
        }));
        let len = if sm { 4 } else { tier.pick(6, 8) };
        v.push(family("builder", format!("every sequence of {len} builder calls followed by each call that must be refused, then completed; private and shared cache"), 5u64.pow(len as u32) / 125, move |cx, i| {
            for lo in 0..125 {
                for bad in 0..5 {
                    builder(cx, i * 125 + lo, len, bad, bad % 2 == 0);
                    builder(cx, i * 125 + lo, len, bad, bad % 2 == 1);
                }
            }
            settle(cx);
        }));
        let ttop = if sm { 3 } else { tier.pick(4, 5) };
        let ts = shapes(1, ttop);
        v.push(family("texts", format!("all shapes of up to {ttop} elements: slices and lookups beyond the end; chunk callbacks that panic, drop handles or perform any edit at any chunk"), ts.len() as u64 * 6, move |cx, i| {
            let s = &ts[(i / 6) as usize];
            let e = named(s, &mut 0);
            let n = s.size();
            let sel: Vec<usize> = match i % 3 {
                0 => vec![0],
                1 => (0..n).collect(),
                _ => vec![n - 1],
            };
            for mode in [Mode::Imm, Mode::Mut, Mode::Det] {
                if i % 6 < 3 {
                    texts::<Cur>(cx, &e, GMS[(i % 2) as usize], mode, &sel);
                } else {
                    texts::<Typ>(cx, &e, GMS[(i % 2) as usize], mode, &sel);
                }
            }
            settle(cx);
        }));
        let ws = shapes(1, if sm { 3 } else { tier.pick(5, 6) });
        v.push(family("writers", "all forms of display and serialization of every element into a writer that fails or panics after some bytes", ws.len() as u64, move |cx, i| {
            let e = named(&ws[i as usize], &mut 0);
            for mode in [Mode::Imm, Mode::Mut] {
                writers(cx, &e, GMS[(i % 2) as usize], mode);
                substitute::<Cur>(cx, &e, GMS[(i % 2) as usize], mode);
                substitute::<Typ>(cx, &e, GMS[(i % 2) as usize], mode);
            }
            settle(cx);
        }));
        let ws = shapes(1, if sm { 3 } else { tier.pick(3, 4) });
        v.push(family("editing-writers", format!("all shapes of up to {} elements, a few sets of live handles, all forms of display and serialization of every element into a writer that panics, drops handles or performs any edit at any of its calls (at every fifth of a serialized form)", tier.pick(3, 4)), ws.len() as u64 * 3, move |cx, i| {
            let s = &ws[(i / 3) as usize];
            let e = named(s, &mut 0);
            let n = s.size();
            let sel: Vec<usize> = match i % 3 {
                0 => vec![0],
                1 => (0..n).collect(),
                _ => vec![n - 1],
            };
            for mode in [Mode::Imm, Mode::Mut, Mode::Det] {
                acting_writers(cx, &e, GMS[(i % 2) as usize], mode, &sel);
            }
            settle(cx);
        }));
        let tot = [huge::MAX - huge::MIB / 2, huge::MAX - 5, huge::MAX];
        v.push(family("too-long", format!("mutable trees of shared parts with {tot:?} bytes of text: insertions in nodes along the edges that just fit and that make the text too long, alone and with others; handles taken before or after"), if sm { 0 } else { tot.len() as u64 * 5 * 4 }, move |cx, i| {
            let i = i as usize;
            let (name, d) = huge::shapes(tot[i / 20]).swap_remove(i % 5);
            if i / 5 % 2 == 0 { too_long::<Cur>(cx, name, &d, i / 10 % 2 == 0) } else { too_long::<Typ>(cx, name, &d, i / 10 % 2 == 0) }
            settle(cx);
        }));
        v
    })
}
