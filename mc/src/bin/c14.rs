//! C14: no use after free, double free or leak, whatever handles live.
use mc::api::*;
use mc::engine::{Cx, Family, Tier, family, guard, small};
use mc::model::*;
use mc::tree::*;
use mc::world::*;
use mc::{alloc, check, check_eq};
use rowan::{Direction, GreenNode, GreenNodeBuilder, GreenToken, NodeCache, NodeOrToken, SyntaxKind, SyntaxText, WalkEvent};

/// Runs `f`; whatever it creates must be gone afterwards, and no memory error may have occurred.
fn balanced(cx: &mut Cx, f: impl FnOnce(&mut Cx)) {
    let (b0, y0) = alloc::live();
    f(cx);
    let (b1, y1) = alloc::live();
    let e = alloc::take_errors();
    check!(cx, !e.any(), "memory errors: {e:?}");
    check!(cx, (b1, y1) == (b0, y0), "{} blocks with {} bytes remain allocated after everything was dropped", b1 - b0, y1 - y0);
    cx.step();
}

fn settle(cx: &mut Cx) {
    alloc::verify();
    let e = alloc::take_errors();
    check!(cx, !e.any(), "memory errors (freed memory was written): {e:?}");
}

/// Handles to a set of elements, acquired in an order, dropped in every order.
fn handle_drops<A: Api>(cx: &mut Cx, e: &El, f: &Flat, gm: Gm, mode: Mode, sel: &[usize], how: usize) {
    let n = sel.len();
    for p in 0..factorial(n) {
        let perm = permutation(n, p);
        cx.case(|| format!("{} {gm:?} {mode:?} {e:?}: handles to {sel:?} acquired in this order (how {how}), the root let go, then dropped in order {:?}", A::NAME, perm.iter().map(|&i| sel[i]).collect::<Vec<_>>()));
        balanced(cx, |cx| {
            let root = make::<A>(e, gm, mode);
            let mut hs: Vec<Option<E<A>>> = sel.iter().map(|&id| Some(reach::<A>(&root, f, id, (how + id) % HOWS).expect("reached"))).collect();
            drop(root);
            for &i in &perm {
                for (j, h) in hs.iter().enumerate() {
                    if let Some(h) = h {
                        denotes::<A>(cx, f, h, sel[j], "a handle kept");
                    }
                }
                hs[i] = None;
            }
        });
        cx.nontrivial += 1;
    }
}

/// All kinds of things that keep a tree alive.
enum Obj<A: Api> {
    E(E<A>, usize),
    Nodes(A::NC, Vec<usize>),
    Els(A::EC, Vec<usize>),
    NodesBy(BoxIter<'static, E<A>>, Vec<usize>),
    Pre(A::P, usize, usize),
    PreT(A::PT, usize, usize),
    Text(SyntaxText, String),
    At(rowan::TokenAtOffset<A::T>, u32),
    Green(GreenNode, usize),
    GreenTok(GreenToken, usize),
    Sub(A::N, usize),
    Upd(A::N, usize),
    /// A copy for update of which this element was detached.
    Cut(E<A>, usize),
}

const OBJS: usize = 19;

fn yes(_: u16) -> bool {
    true
}

fn obj<A: Api>(root: &A::N, f: &Flat, id: usize, kind: usize) -> Option<Obj<A>> {
    let x = reach::<A>(root, f, id, (id + kind) % HOWS)?;
    let m = &f.els[id];
    let nodes = || m.children.iter().copied().filter(|&c| f.els[c].node).collect::<Vec<_>>();
    Some(match (kind, x) {
        (0, x) => Obj::E(x, id),
        (k @ 1..=3, NodeOrToken::Node(n)) => {
            let mut it = A::children(&n);
            let mut want = nodes();
            for _ in 0..(k - 1).min(want.len()) {
                it.next();
                want.remove(0);
            }
            Obj::Nodes(it, want)
        }
        (k @ 4..=6, NodeOrToken::Node(n)) => {
            let mut it = A::children_with_tokens(&n);
            let mut want = m.children.clone();
            for _ in 0..(k - 4).min(want.len()) {
                it.next();
                want.remove(0);
            }
            Obj::Els(it, want)
        }
        (k @ 7..=8, NodeOrToken::Node(n)) => {
            let mut it = A::ec_by_kind(A::children_with_tokens(&n), &yes);
            let mut want = m.children.clone();
            if k == 8 && !want.is_empty() {
                it.next();
                want.remove(0);
            }
            Obj::NodesBy(it, want)
        }
        (k @ 9..=10, NodeOrToken::Node(n)) => {
            let mut p = A::preorder(&n);
            for _ in 9..k {
                p.next();
            }
            Obj::Pre(p, id, k - 9)
        }
        (k @ 11..=12, NodeOrToken::Node(n)) => {
            let mut p = A::preorder_with_tokens(&n);
            for _ in 0..(k - 11) * 2 {
                p.next();
            }
            Obj::PreT(p, id, (k - 11) * 2)
        }
        (13, NodeOrToken::Node(n)) => {
            let t = A::text(&n);
            let s = f.text_of(id);
            match s.char_indices().nth(1) {
                Some((i, _)) if id % 2 == 0 => Obj::Text(t.slice(rowan::TextSize::from(i as u32)..), s[i..].to_string()),
                _ => Obj::Text(t, s.to_string()),
            }
        }
        (14, NodeOrToken::Node(n)) => Obj::At(A::token_at_offset(&n, m.start.into()), m.start),
        (15, NodeOrToken::Node(n)) => Obj::Green(A::green(&n), id),
        (15, NodeOrToken::Token(n)) => Obj::GreenTok(A::t_green(&n), id),
        (16, NodeOrToken::Node(n)) => Obj::Sub(A::clone_subtree(&n), id),
        (17, NodeOrToken::Node(n)) => {
            let top = A::new_root(A::green(&A::ancestors(&n).last().unwrap()));
            let c = reach::<A>(&top, f, id, 0)?.into_node().unwrap();
            Obj::Upd(A::clone_for_update(&c), id)
        }
        (18, _) => {
            let top = A::new_root_mut(A::green(root));
            let c = reach::<A>(&top, f, id, 0)?;
            A::e_detach(&c);
            Obj::Cut(c, id)
        }
        _ => return None,
    })
}

fn use_obj<A: Api>(cx: &mut Cx, f: &Flat, o: &mut Obj<A>, what: &str) {
    match o {
        Obj::E(e, id) => denotes::<A>(cx, f, e, *id, what),
        Obj::Nodes(it, w) => {
            yields::<A>(cx, f, it.clone().map(NodeOrToken::Node), w, what);
            it.next();
            if !w.is_empty() {
                w.remove(0);
            }
        }
        Obj::Els(it, w) => {
            yields::<A>(cx, f, it.clone(), w, what);
            it.next();
            if !w.is_empty() {
                w.remove(0);
            }
        }
        Obj::NodesBy(it, w) => {
            let want = if w.is_empty() { None } else { Some(w.remove(0)) };
            opt_is::<A>(cx, f, it.next(), want, what);
        }
        Obj::Pre(p, id, k) => {
            // the k-th event
            let ev = events(f, *id, false);
            match (p.next(), ev.get(*k)) {
                (None, None) => {}
                (Some(WalkEvent::Enter(n)), Some((true, i))) | (Some(WalkEvent::Leave(n)), Some((false, i))) => denotes_node::<A>(cx, f, &n, *i, what),
                _ => cx.fail(format!("{what}: event {k} of a walk")),
            }
            *k += 1;
        }
        Obj::PreT(p, id, k) => {
            let ev = events(f, *id, true);
            match (p.next(), ev.get(*k)) {
                (None, None) => {}
                (Some(WalkEvent::Enter(n)), Some((true, i))) | (Some(WalkEvent::Leave(n)), Some((false, i))) => denotes::<A>(cx, f, &n, *i, what),
                _ => cx.fail(format!("{what}: event {k} of a walk")),
            }
            *k += 1;
        }
        Obj::Text(t, s) => check!(cx, t.to_string() == *s && *t == s.as_str(), "{what}: a text"),
        Obj::At(t, off) => {
            for k in t.clone() {
                let r = r32(A::t_range(&k));
                check!(cx, r.0 <= *off && *off <= r.1 && A::t_text(&k).len() as u32 == r.1 - r.0, "{what}: a token at an offset");
                check!(cx, A::t_ancestors(&k).into_iter().all(|i| i.count() > 0), "{what}: ancestors");
            }
        }
        Obj::Green(g, id) => check!(cx, same_green(g, &f.to_el(*id)), "{what}: a green node"),
        Obj::GreenTok(g, id) => check_eq!(cx, g.text(), f.text_of(*id), "{what}: a green token"),
        Obj::Sub(n, id) => same_tree::<A>(cx, n, &Flat::new(&f.to_el(*id)), what),
        Obj::Upd(n, id) => denotes_node::<A>(cx, f, n, *id, what),
        Obj::Cut(e, id) => match e {
            NodeOrToken::Node(n) => same_tree::<A>(cx, n, &Flat::new(&f.to_el(*id)), what),
            NodeOrToken::Token(t) => check_eq!(cx, A::t_text(t), f.text_of(*id), "{what}: a detached token"),
        },
    }
}

fn events(f: &Flat, id: usize, tokens: bool) -> Vec<(bool, usize)> {
    let mut v = vec![(true, id)];
    for &c in &f.els[id].children {
        if f.els[c].node || tokens {
            v.extend(events(f, c, tokens));
        }
    }
    v.push((false, id));
    v
}

/// Every two things that keep the tree alive, in both orders of dropping, used in between.
fn pairs<A: Api>(cx: &mut Cx, e: &El, f: &Flat, gm: Gm, mode: Mode) {
    let ids: Vec<usize> = (0..f.len()).collect();
    for &i in &ids {
        for k in 0..OBJS {
            for &j in &ids {
                for l in 0..OBJS {
                    if (j, l) < (i, k) && f.len() > 3 {
                        continue;
                    }
                    cx.case(|| format!("{} {gm:?} {mode:?} {e:?}: object kind {k} of element {i} and kind {l} of element {j}, root let go, first dropped first", A::NAME));
                    balanced(cx, |cx| {
                        let root = make::<A>(e, gm, mode);
                        let (Some(mut a), Some(mut b)) = (obj::<A>(&root, f, i, k), obj::<A>(&root, f, j, l)) else { return };
                        drop(root);
                        use_obj::<A>(cx, f, &mut a, "first");
                        use_obj::<A>(cx, f, &mut b, "second");
                        drop(a);
                        use_obj::<A>(cx, f, &mut b, "second, the first being gone");
                        use_obj::<A>(cx, f, &mut b, "second, the first being gone");
                        cx.nontrivial += 1;
                    });
                }
            }
        }
    }
}

/// Edit histories, then all handles dropped in every order.
fn world<A: Api>(cx: &mut Cx, h: &History) {
    let (_, m0) = h.start::<A>();
    let mut m = m0;
    for op in h.ops {
        m.apply(op);
    }
    let live: Vec<usize> = (0..m.els.len()).filter(|&i| m.els[i].live).collect();
    let n = live.len();
    let orders: Vec<Vec<usize>> = if n <= 3 || n == 4 && cx.tier == Tier::Thorough {
        (0..factorial(n)).map(|p| permutation(n, p)).collect()
    } else {
        let id: Vec<usize> = (0..n).collect();
        let mut alt = id.clone();
        alt.rotate_left(n / 2);
        vec![id.clone(), id.iter().rev().copied().collect(), alt]
    };
    for (k, o) in orders.iter().enumerate() {
        cx.case(|| format!("{}; then handles dropped in order {:?}", h.describe(A::NAME), o.iter().map(|&i| live[i]).collect::<Vec<_>>()));
        balanced(cx, |cx| {
            let (mut r, mut m) = h.run::<A>();
            for (s, &i) in o.iter().enumerate() {
                if k == 0 && (s == 0 || n <= 3) || k == 1 && s + 1 == n {
                    r.verify(cx, &m, "before the next drop");
                }
                r.h[live[i]] = None;
                m.els[live[i]].live = false;
            }
        });
        cx.nontrivial += 1;
    }
    cx.state(&m);
}

fn edits_go<A: Api>(cx: &mut Cx, trees: &[El], gm: Gm, mode: Mode, order: &[Vec<usize>], m: &Model, depth: usize, x: Edits, ops: &mut Vec<Op>) {
    for op in edits(m, x) {
        let mut m2 = m.clone();
        if !m2.apply(&op) {
            continue;
        }
        ops.push(op);
        world::<A>(cx, &History { trees, gm, mode, order, how: ops.len(), ops });
        if depth > 1 {
            edits_go::<A>(cx, trees, gm, mode, order, &m2, depth - 1, x, ops);
        }
        ops.pop();
    }
}

fn histories<A: Api>(cx: &mut Cx, trees: &[El], gm: Gm, mode: Mode, order: &[Vec<usize>], depth: usize, x: Edits) {
    let mut m = Model::default();
    for t in trees {
        m.add(t);
    }
    for o in order {
        for &i in o {
            m.els[i].live = true;
        }
    }
    edits_go::<A>(cx, trees, gm, mode, order, &m, depth, x, &mut vec![]);
}

/// An object that was made before an edit, and yields elements when it is advanced.
struct Stepper<A: Api> {
    it: Box<dyn FnMut() -> Option<Vec<E<A>>>>,
    // borrowed by `it`, which is declared before it
    _keep: Box<E<A>>,
}

const STEPPERS: usize = 17;

fn half(s: rowan::TextSize) -> rowan::TextSize {
    (u32::from(s) / 2).into()
}

fn stepper<A: Api>(x: E<A>, kind: usize) -> Option<Stepper<A>> {
    fn one<A: Api>(mut it: impl Iterator<Item = E<A>> + 'static) -> Option<Box<dyn FnMut() -> Option<Vec<E<A>>>>> {
        Some(Box::new(move || it.next().map(|x| vec![x])))
    }
    fn ev<X>(e: WalkEvent<X>) -> X {
        match e {
            WalkEvent::Enter(x) | WalkEvent::Leave(x) => x,
        }
    }
    let keep = Box::new(x);
    // lives as long as `_keep`
    let x: &'static E<A> = unsafe { &*(&*keep as *const E<A>) };
    let node = x.as_node();
    let it = match kind {
        0 => one::<A>(A::children(node?).map(NodeOrToken::Node)),
        1 => one::<A>(A::children_with_tokens(node?)),
        2 => one::<A>(A::nc_by_kind(A::children(node?), &yes).map(NodeOrToken::Node)),
        3 => one::<A>(A::ec_by_kind(A::children_with_tokens(node?), &yes)),
        4 => one::<A>(A::preorder(node?).map(ev).map(NodeOrToken::Node)),
        5 => one::<A>(A::preorder_with_tokens(node?).map(ev)),
        6 => {
            let mut p = A::preorder_with_tokens(node?);
            let mut k = 0;
            Some(Box::new(move || {
                let r = p.next().map(|e| vec![ev(e)]);
                k += 1;
                if k % 2 == 0 {
                    p.skip_subtree();
                }
                r
            }) as Box<dyn FnMut() -> Option<Vec<E<A>>>>)
        }
        7 => {
            let mut p = A::preorder(node?);
            Some(Box::new(move || {
                let r = p.next().map(|e| vec![NodeOrToken::Node(ev(e))]);
                p.skip_subtree();
                r
            }) as Box<dyn FnMut() -> Option<Vec<E<A>>>>)
        }
        8 => {
            let text = A::text(node?);
            let all = text.to_string();
            let cut = (0..=all.len() / 2).rev().find(|&i| all.is_char_boundary(i)).unwrap() as u32;
            let part = text.slice(rowan::TextSize::from(cut)..);
            let mut k = 0;
            Some(Box::new(move || {
                k += 1;
                match k {
                    1 => drop((text.to_string(), part.to_string())),
                    2 => drop((text.char_at(0.into()), text.contains_char('b'), part.find_char('c'))),
                    3 => {
                        std::hint::black_box((text == part, text == "abc", part == "c"));
                    }
                    4 => {
                        let mut n = 0;
                        part.for_each_chunk(|c| n += c.len());
                        drop((n, text.slice(half(text.len())..).to_string()));
                    }
                    _ => return None,
                }
                Some(vec![])
            }) as Box<dyn FnMut() -> Option<Vec<E<A>>>>)
        }
        9 => {
            let r = A::range(node?);
            let mut at = A::token_at_offset(node?, r.start() + half(r.len()));
            Some(Box::new(move || at.next().map(|t| vec![NodeOrToken::Token(t)])) as Box<dyn FnMut() -> Option<Vec<E<A>>>>)
        }
        10 => one::<A>(A::e_ancestors(x).map(NodeOrToken::Node)),
        11 => one::<A>(A::siblings(node?, Direction::Next).map(NodeOrToken::Node)),
        12 => one::<A>(A::siblings(node?, Direction::Prev).map(NodeOrToken::Node)),
        k @ 13..=14 => {
            let d = [Direction::Next, Direction::Prev][k - 13];
            match x {
                NodeOrToken::Node(n) => one::<A>(A::siblings_with_tokens(n, d)),
                NodeOrToken::Token(t) => one::<A>(A::t_siblings_with_tokens(t, d)),
            }
        }
        15 => one::<A>(A::descendants(node?).map(NodeOrToken::Node)),
        16 => one::<A>(A::descendants_with_tokens(node?)),
        _ => None,
    };
    Some(Stepper { it: it?, _keep: keep })
}

/// An object made of element `id` and advanced `before` times; then the edits; then it is advanced to its end.
/// What it yields is not specified, but the elements it yields are in order, and so is the tree.
fn under_edit<A: Api>(cx: &mut Cx, h: &History, id: usize, kind: usize, before: usize, last: bool) {
    let (b0, y0) = alloc::live();
    let mut panicked = false;
    let made = (|| {
        let (mut r, mut m) = h.start::<A>();
        let x = r.reach(&m, id, h.how);
        let mut s = stepper::<A>(x, kind)?;
        for _ in 0..before {
            (s.it)()?;
        }
        for op in h.ops {
            r.exec(&m, op);
            m.apply(op);
        }
        if last {
            // the object alone keeps the tree
            r.h.iter_mut().for_each(|h| *h = None);
            m = Model::default();
        }
        let mut got: Vec<E<A>> = Vec::new();
        for _ in 0..30 {
            match guard(|| (s.it)()) {
                Some(Some(v)) => got.extend(v),
                Some(None) => break,
                None => {
                    panicked = true;
                    break;
                }
            }
        }
        if !last {
            r.verify(cx, &m, "after the object was used");
        }
        // the elements that were yielded
        let place = r.h.len().max(m.els.len());
        r.h.resize_with(place, || None);
        r.h.extend(got.into_iter().map(Some));
        resync::<A>(cx, &mut r, &m, "with what the object yielded");
        drop(s);
        Some(())
    })();
    let e = alloc::take_errors();
    check!(cx, !e.any(), "memory errors: {e:?}");
    cx.step();
    if !panicked {
        let (b1, y1) = alloc::live();
        check!(cx, (b1, y1) == (b0, y0), "{} blocks with {} bytes remain allocated after everything was dropped", b1 - b0, y1 - y0);
    }
    if made.is_some() {
        cx.nontrivial += 1;
    }
}

fn objects_under_edit<A: Api>(cx: &mut Cx, e: &El, gm: Gm, mode: Mode, order: &[usize], depth: usize, x: Edits) {
    fn go<A: Api>(cx: &mut Cx, trees: &[El], gm: Gm, mode: Mode, order: &[Vec<usize>], m: &Model, depth: usize, x: Edits, ops: &mut Vec<Op>) {
        let n = trees[0].size();
        for op in edits(m, x) {
            let mut m2 = m.clone();
            if !m2.apply(&op) {
                continue;
            }
            ops.push(op);
            for id in 0..n {
                for kind in 0..STEPPERS {
                    for before in 0..if cfg!(miri) { 1 } else { 3 } {
                        for last in [false, true] {
                            let h = History { trees, gm, mode, order, how: id + kind, ops };
                            cx.case(|| format!("{}; object kind {kind} of element {id} made before the edits and advanced {before} times, used after them{}", h.describe(A::NAME), if last { " when all handles are gone" } else { "" }));
                            under_edit::<A>(cx, &h, id, kind, before, last);
                        }
                    }
                }
            }
            if depth > 1 {
                go::<A>(cx, trees, gm, mode, order, &m2, depth - 1, x, ops);
            }
            ops.pop();
        }
    }
    let mut m = Model::default();
    m.add(e);
    for &i in order {
        m.els[i].live = true;
    }
    go::<A>(cx, &[e.clone()], gm, mode, &[order.to_vec()], &m, depth, x, &mut vec![]);
}

/// Moves of one handle that consume it (the untyped interface offers them on nodes and elements).
fn consuming(cx: &mut Cx, e: &El, f: &Flat, gm: Gm, mode: Mode) {
    for id in 0..f.len() {
        for shared in [false, true] {
            for held in [false, true] {
                for steps in 1..=3usize {
                    for tokens in [false, true] {
                        cx.case(|| format!("{gm:?} {mode:?} {e:?}: {steps} consuming steps to the next sibling (tokens {tokens}) from element {id}, handle shared {shared}, root held {held}"));
                        balanced(cx, |cx| {
                            let root = make::<Cur>(e, gm, mode);
                            let x = reach::<Cur>(&root, f, id, id % HOWS).unwrap();
                            let root = held.then_some(root);
                            let copy = shared.then(|| x.clone());
                            let (sib, at) = f.siblings(id);
                            if tokens {
                                let mut cur = Some(x);
                                for k in 1..=steps {
                                    cur = cur.and_then(|c| c.to_next_sibling_or_token());
                                    opt_is::<Cur>(cx, f, cur.clone(), sib.get(at + k).copied(), "consuming step");
                                }
                            } else if let NodeOrToken::Node(n) = x {
                                let nodes: Vec<usize> = sib[at..].iter().copied().filter(|&i| f.els[i].node).collect();
                                let mut cur = Some(n);
                                for k in 1..=steps {
                                    cur = cur.and_then(|c| c.to_next_sibling());
                                    opt_node::<Cur>(cx, f, cur.clone(), nodes.get(k).copied(), "consuming step");
                                }
                            }
                            if let Some(c) = &copy {
                                denotes::<Cur>(cx, f, c, id, "the other handle");
                            }
                            drop(root);
                            if let Some(c) = &copy {
                                denotes::<Cur>(cx, f, c, id, "the other handle");
                            }
                        });
                        cx.nontrivial += 1;
                    }
                }
            }
        }
    }
}

/// Builder calls: 0, 1 start a node, 2, 3, 4 a token, 5 finish, 6 checkpoint, 7 start at the checkpoint.
fn builder(cx: &mut Cx, code: u64, len: usize, shared: usize) {
    cx.case(|| {
        let mut c = code;
        let v: Vec<&str> = (0..len).map(|_| { let x = c % 8; c /= 8; ["start A", "start B", "token a", "token longer than most others", "token empty", "finish", "checkpoint", "start at checkpoint"][x as usize] }).collect();
        format!("builder calls {v:?}, {} (0 own cache, 1 shared empty cache, 2 shared cache kept beyond the trees), dropped unfinished or finished", shared)
    });
    balanced(cx, |_| {
        let mut cache = NodeCache::default();
        let mut out: Vec<GreenNode> = Vec::new();
        for round in 0..if shared == 0 { 1 } else { 2 } {
            let mut b = if shared == 0 { GreenNodeBuilder::new() } else { GreenNodeBuilder::with_cache(&mut cache) };
            let mut c = code;
            let mut open: Vec<usize> = vec![];
            let mut n = 0usize;
            let mut top_nodes = 0;
            let mut cp = None;
            for _ in 0..len {
                match c % 8 {
                    k @ 0..=1 => {
                        b.start_node(SyntaxKind(k as u16));
                        open.push(n);
                    }
                    k @ 2..=4 => {
                        b.token(SyntaxKind(7), ["a", "a token longer than all others", ""][k as usize - 2]);
                        n += 1;
                        top_nodes |= (open.is_empty() as usize) * 2;
                    }
                    5 => {
                        if let Some(o) = open.pop() {
                            b.finish_node();
                            n = o + 1;
                            top_nodes += open.is_empty() as usize;
                        }
                    }
                    6 => cp = Some((b.checkpoint(), n)),
                    _ => {
                        if let Some((p, at)) = cp {
                            if at <= n && open.last().is_none_or(|&o| at >= o) {
                                b.start_node_at(p, SyntaxKind(3));
                                open.push(at);
                            }
                        }
                    }
                }
                c /= 8;
            }
            // close what is open, every other time
            if round == 0 || code % 2 == 0 {
                while let Some(o) = open.pop() {
                    b.finish_node();
                    n = o + 1;
                }
                if n == 1 && top_nodes < 2 {
                    out.push(b.finish());
                    continue;
                }
            }
            drop(b);
        }
        if shared == 1 {
            drop(cache);
        }
        for g in &out {
            let _ = g.to_string();
        }
    });
    cx.nontrivial += 1;
}

/// Green edits: everything shared, dropped in every order of four owners.
fn greens(cx: &mut Cx, e: &El, gm: Gm, built_other: bool) {
    let f = Flat::new(e);
    let w = f.els[0].children.len();
    for i in 0..=w {
        for op in 0..4 {
            if op != 1 && i == w {
                continue;
            }
            for p in 0..24 {
                cx.case(|| format!("{gm:?} {e:?}: green edit {op} (0 replace, 1 insert, 2 remove, 3 splice) at child {i}, owners dropped in order {:?}", permutation(4, p)));
                balanced(cx, |cx| {
                    let g = green(e, gm);
                    let new: GreenEl = if built_other { N(3, vec![t(4, "n")]).green_el() } else { t(4, "n").green_el() };
                    let h = match op {
                        0 => g.replace_child(i, new.clone()),
                        1 => g.insert_child(i, new.clone()),
                        2 => g.remove_child(i),
                        _ => g.splice_children(i..i + 1, vec![new.clone(), new.clone()]),
                    };
                    let kid: Option<GreenEl> = h.children().nth(i).map(|c| c.to_owned());
                    let mut owners: Vec<Option<Box<dyn Fn(&mut Cx)>>> = Vec::new();
                    let want = g.to_string();
                    owners.push(Some(Box::new(move |cx| check_eq!(cx, g.to_string(), want, "the original"))));
                    let want = h.to_string();
                    owners.push(Some(Box::new(move |cx| check_eq!(cx, h.to_string(), want, "the result"))));
                    owners.push(Some(Box::new(move |cx| check_eq!(cx, new.text_len_(), 1, "the new child"))));
                    let want = kid.as_ref().map(|k| k.to_text());
                    owners.push(Some(Box::new(move |cx| check_eq!(cx, kid.as_ref().map(|k| k.to_text()), want, "a child"))));
                    for k in permutation(4, p) {
                        for o in owners.iter().flatten() {
                            o(cx);
                        }
                        owners[k] = None;
                    }
                });
                cx.nontrivial += 1;
            }
        }
    }
}

trait GreenElExt {
    fn text_len_(&self) -> u32;
    fn to_text(&self) -> String;
}
impl GreenElExt for GreenEl {
    fn text_len_(&self) -> u32 {
        match self {
            NodeOrToken::Node(n) => n.text_len().into(),
            NodeOrToken::Token(t) => t.text_len().into(),
        }
    }
    fn to_text(&self) -> String {
        match self {
            NodeOrToken::Node(n) => n.to_string(),
            NodeOrToken::Token(t) => t.to_string(),
        }
    }
}

/// Replaces a clone of `a` by a copy of `b` in place, `a` then being gone or not; once more after `b` is gone.
fn put_over<X: Clone>(a: X, b: X, keep: bool, is_b: &mut dyn FnMut(&X), is_a: &mut dyn FnMut(&X)) {
    let mut x = a.clone();
    let a = keep.then_some(a);
    x.clone_from(&b);
    is_b(&x);
    is_b(&b);
    let mut v = vec![b.clone(), x.clone()];
    drop(b);
    is_b(&x);
    if let Some(a) = &a {
        is_a(a);
        v.clone_from(&vec![x.clone(), a.clone(), x.clone()]);
        is_a(&v[1]);
        is_b(&v[2]);
        x.clone_from(a);
        is_a(&x);
        is_a(a);
        is_b(&v[0]);
    }
}

fn assigned<A: Api>(cx: &mut Cx, e: &El, e2: &El, mode: Mode, same: bool) {
    let (f, f2) = (Flat::new(e), Flat::new(if same { e } else { e2 }));
    for i in 0..f.len() {
        for j in 0..f2.len() {
            for how in 0..4 {
                cx.case(|| format!("{} {mode:?} element {i} of {e:?} replaced in place by element {j} of {}, roots kept {}, old handle kept {}", A::NAME, if same { "the same".into() } else { format!("{e2:?}") }, how & 1, how >> 1));
                balanced(cx, |cx| {
                    let r1 = make::<A>(e, Gm::Direct, mode);
                    let r2 = if same { r1.clone() } else { make::<A>(e2, Gm::Direct, mode) };
                    let x = reach::<A>(&r1, &f, i, 0).unwrap();
                    let y = reach::<A>(&r2, &f2, j, 1).unwrap();
                    let (g, g2) = (A::green(&r1), A::green(&r2));
                    let roots = (how & 1 == 1).then_some((r1, r2));
                    let keep = how >> 1 == 1;
                    let cx = std::cell::RefCell::new(cx);
                    match (&x, &y) {
                        (NodeOrToken::Node(a), NodeOrToken::Node(b)) => {
                            put_over(a.clone(), b.clone(), keep,
                                &mut |n| denotes_node::<A>(&cx.borrow(), &f2, n, j, "the new node"), &mut |n| denotes_node::<A>(&cx.borrow(), &f, n, i, "the old node"));
                            put_over(A::text(a), A::text(b), keep,
                                &mut |t| assert_eq!(t.to_string(), f2.text_of(j)), &mut |t| assert_eq!(t.to_string(), f.text_of(i)));
                            let of = |f: &Flat, i: usize, c: A::EC| yields::<A>(&mut cx.borrow_mut(), f, c, &f.els[i].children, "children");
                            put_over(A::children_with_tokens(a), A::children_with_tokens(b), keep, &mut |c| of(&f2, j, c.clone()), &mut |c| of(&f, i, c.clone()));
                            let of = |f: &Flat, i: usize, c: A::NC| {
                                let w: Vec<usize> = f.els[i].children.iter().copied().filter(|&k| f.els[k].node).collect();
                                yields::<A>(&mut cx.borrow_mut(), f, c.map(NodeOrToken::Node), &w, "children")
                            };
                            put_over(A::children(a), A::children(b), keep, &mut |c| of(&f2, j, c.clone()), &mut |c| of(&f, i, c.clone()));
                            // half-way
                            let (mut p, mut q) = (A::children_with_tokens(a), A::children_with_tokens(b));
                            let (_p, _q) = (p.next(), q.next());
                            let rest = |f: &Flat, i: usize, c: A::EC| yields::<A>(&mut cx.borrow_mut(), f, c, f.els[i].children.get(1..).unwrap_or(&[]), "children half-way");
                            put_over(p, q, keep, &mut |c| rest(&f2, j, c.clone()), &mut |c| rest(&f, i, c.clone()));
                            let own = |n: &A::N| A::green(n);
                            put_over(own(a), own(b), keep,
                                &mut |g| assert!(same_green(g, &f2.to_el(j)), "the new green node"), &mut |g| assert!(same_green(g, &f.to_el(i)), "the old green node"));
                            let mut g = own(a);
                            <rowan::GreenNodeData as ToOwned>::clone_into(&own(b), &mut g);
                            assert!(same_green(&g, &f2.to_el(j)), "clone_into of a green node");
                        }
                        (NodeOrToken::Token(a), NodeOrToken::Token(b)) => {
                            put_over(a.clone(), b.clone(), keep,
                                &mut |n| denotes_token::<A>(&cx.borrow(), &f2, n, j, "the new token"), &mut |n| denotes_token::<A>(&cx.borrow(), &f, n, i, "the old token"));
                            let own = |n: &A::T| A::t_green(n);
                            put_over(own(a), own(b), keep,
                                &mut |g| assert_eq!(g.text(), f2.text_of(j)), &mut |g| assert_eq!(g.text(), f.text_of(i)));
                            let mut g = own(a);
                            <rowan::GreenTokenData as ToOwned>::clone_into(&own(b), &mut g);
                            assert_eq!(g.text(), f2.text_of(j));
                        }
                        _ => {}
                    }
                    put_over(x, y, keep,
                        &mut |n| denotes::<A>(&cx.borrow(), &f2, n, j, "the new element"), &mut |n| denotes::<A>(&cx.borrow(), &f, n, i, "the old element"));
                    drop(roots);
                    assert!(same_green(&g, e) && same_green(&g2, if same { e } else { e2 }), "the green trees");
                    cx.into_inner().nontrivial += 1;
                });
            }
        }
    }
}

fn scaled<A: Api>(cx: &mut Cx, e: &El, mode: Mode, pattern: usize) {
    let f = Flat::new(e);
    cx.case(|| format!("{} {mode:?} pattern {pattern} {e:?}", A::NAME));
    balanced(cx, |cx| {
        let root = make::<A>(e, Gm::Built, mode);
        let mut hs: Vec<Option<E<A>>> = A::descendants_with_tokens(&root).map(Some).collect();
        let n = hs.len();
        drop(root);
        match pattern {
            0 => hs.truncate(1),
            1 => hs = vec![hs.pop().unwrap()],
            2 => {
                for i in (0..n).step_by(2) {
                    hs[i] = None;
                }
            }
            3 => {
                for i in 0..n - 1 {
                    hs[i] = None;
                }
            }
            4 => {
                for i in (1..n).rev() {
                    hs[i] = None;
                }
            }
            _ => {
                let mid = hs.swap_remove(n / 2);
                hs = vec![mid];
            }
        }
        for h in hs.iter().flatten() {
            let top = A::e_ancestors(h).last();
            check!(cx, n < 3000 || top.is_some() || h.as_node().is_none(), "ancestors");
            check_eq!(cx, top.map(|t| A::text(&t).len()).unwrap_or(0.into()), rowan::TextSize::from(f.els[0].end), "text of the tree");
            if n > 300 {
                break;
            }
        }
        let some: Vec<E<A>> = hs.iter().flatten().take(3).cloned().collect();
        drop(hs);
        for h in some {
            let _ = A::e_range(&h);
            if let NodeOrToken::Node(n) = &h {
                let _ = A::siblings_with_tokens(n, Direction::Next).count();
            }
            if mode.mutable() {
                A::e_detach(&h);
            }
        }
        cx.nontrivial += 1;
    });
}

fn named(e: &El, n: &mut u16, dup: bool) -> El {
    *n += 1;
    let k = *n;
    match e {
        N(_, c) => N(if dup { 1 } else { nth_kind(k) }, c.iter().map(|x| named(x, n, dup)).collect()),
        T(..) if dup => t(2, "a"),
        T(..) => t(nth_kind(k), ["a", "bc", "", "def", "é"][k as usize % 5]),
    }
}

/// More references to one element than a 32-bit count can tell, in a process of its own: the code may give
/// up (abort, panic), but what is still referenced stays.
const COUNTED: [&str; 5] = ["a node", "a token", "a node of a mutable tree", "a token of a mutable tree", "a typed token"];

fn count_child(which: usize) -> i32 {
    fn go<H: Clone>(h: H, reads: impl Fn(&H) -> String) -> i32 {
        let want = reads(&h);
        let n = 1u64 << 32;
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for _ in 0..n {
                std::mem::forget(h.clone());
            }
        }));
        if ok.is_err() {
            return 3;
        }
        println!("counted");
        for _ in 0..n {
            // one of those forgotten
            drop(unsafe { std::ptr::read(&h) });
        }
        let other = rowan::cursor::SyntaxNode::new_root(green(&N(9, vec![N(8, vec![t(7, "zz")])]), Gm::Direct));
        let same = reads(&h) == want;
        drop(other);
        std::mem::forget(h);
        if same { 0 } else { 4 }
    }
    use rowan::cursor::SyntaxNode;
    let g = green(&N(1, vec![t(2, "a"), N(3, vec![t(4, "bc"), t(5, "d")])]), Gm::Direct);
    let imm = SyntaxNode::new_root(g.clone());
    let mt = SyntaxNode::new_root_mut(g.clone());
    let node = |it: &SyntaxNode| format!("{} {:?} {:?}", it, it.text_range(), it.kind());
    let token = |it: &rowan::cursor::SyntaxToken| format!("{} {:?} {:?}", it, it.text_range(), it.kind());
    match which {
        0 => go(imm.last_child().unwrap(), node),
        1 => go(imm.last_token().unwrap(), token),
        2 => go(mt.last_child().unwrap(), node),
        3 => go(mt.last_token().unwrap(), token),
        _ => go(rowan::SyntaxNode::<mc::api::Lang>::new_root(g).last_token().unwrap(), |it| format!("{} {:?} {:?}", it, it.text_range(), it.kind())),
    }
}

fn count(cx: &mut Cx, which: usize) {
    use std::io::Read;
    use std::os::unix::process::ExitStatusExt;
    cx.case(|| format!("2^32 further references to {}, and as many dropped", COUNTED[which]));
    let exe = std::env::current_exe().unwrap();
    let mut child = std::process::Command::new(exe)
        .args(["count", &which.to_string()])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let beat = cx.beater();
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        beat();
        std::thread::sleep(std::time::Duration::from_millis(50));
        if cx.time_left().is_zero() {
            let _ = child.kill();
            let _ = child.wait();
            cx.truncated();
            return;
        }
    };
    let mut out = String::new();
    child.stdout.take().unwrap().read_to_string(&mut out).unwrap();
    let counted = out.contains("counted");
    cx.step();
    cx.outcome(&(which, counted));
    let gave_up = !counted && (status.signal() == Some(libc::SIGABRT) || status.code() == Some(3));
    if !(gave_up || counted && status.code() == Some(0)) {
        cx.fail(format!("with 2^32 references and as many dropped: {status:?}, all counted: {counted}"));
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "count" {
        std::process::exit(count_child(args[2].parse().unwrap()));
    }
    mc::engine::main("C14", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        let tiny = cfg!(miri) || std::env::var("MC_TINY").is_ok();
        // handles dropped in every order
        let top = if tiny { 3 } else if small() { 4 } else { tier.pick(6, 7) };
        let mut units = Vec::new();
        for s in shapes(1, top) {
            for sel in subsets(s.size(), 0) {
                if !sel.is_empty() && sel.len() <= 5 {
                    units.push((s.clone(), sel));
                }
            }
        }
        v.push(family("handle-drops", format!("all shapes of up to {top} elements, handles to every subset acquired in increasing and decreasing order, the root let go, dropped in every order; five kinds of trees, both interfaces"), units.len() as u64, move |cx, i| {
            let (s, sel) = &units[i as usize];
            for (k, &mode) in MODES.iter().enumerate() {
                let e = named(s, &mut 0, k % 2 == 1);
                let f = Flat::new(&e);
                handle_drops::<Cur>(cx, &e, &f, GMS[k % 2], mode, sel, i as usize + k);
                if sel.len() <= 3 {
                    handle_drops::<Typ>(cx, &e, &f, GMS[(k + 1) % 2], mode, sel, i as usize + k);
                }
            }
            settle(cx);
        }));
        // every two objects
        let otop = if tiny { 2 } else if small() { 3 } else { tier.pick(5, 6) };
        let ss = shapes(1, otop);
        v.push(family("object-pairs", format!("all shapes of up to {otop} elements: every two of {OBJS} kinds of objects (handles, iterators at several points, walks, texts, lookups, green values, copies, detached parts) of every two elements, each used after the root and the other are gone"), ss.len() as u64 * 5, move |cx, i| {
            let s = &ss[(i / 5) as usize];
            let e = named(s, &mut 0, i % 2 == 1);
            let f = Flat::new(&e);
            let mode = MODES[(i % 5) as usize];
            if s.size() <= 3 && !tiny || i % 2 == 0 {
                pairs::<Cur>(cx, &e, &f, GMS[(i / 5 % 2) as usize], mode);
            }
            if s.size() <= 3 && !tiny || i % 2 == 1 {
                pairs::<Typ>(cx, &e, &f, GMS[(i / 10 % 2) as usize], mode);
            }
            settle(cx);
        }));
        // edits
        let slim = Edits { wide_ranges: false, pairs: false, fresh: 2, keep: false, handles: false, detach: true };
        let mid = Edits { wide_ranges: true, pairs: false, fresh: 2, keep: true, handles: false, detach: true };
        let full = Edits { wide_ranges: true, pairs: true, fresh: 4, keep: true, handles: true, detach: true };
        let etop = if tiny { 2 } else if small() { 3 } else { tier.pick(5, 6) };
        let mut units = Vec::new();
        for s in shapes(1, etop) {
            for sel in subsets(s.size(), 0) {
                if !sel.is_empty() {
                    units.push((s.clone(), sel));
                }
            }
        }
        v.push(family("one-edit", format!("all shapes of up to {etop} elements, every set of live handles, every edit or handle operation, then all handles dropped in every order (up to 3; a few orders of more)"), units.len() as u64, move |cx, i| {
            let (s, sel) = &units[i as usize];
            let e = named(s, &mut 0, i % 2 == 1);
            let x = if s.size() <= 4 && !cfg!(miri) { full } else { mid };
            histories::<Cur>(cx, &[e.clone()], GMS[(i % 2) as usize], Mode::Mut, &[sel.clone()], 1, x);
            if s.size() <= 3 {
                histories::<Typ>(cx, &[e.clone()], GMS[(i % 2) as usize], Mode::Upd, &[sel.clone()], 1, full);
                histories::<Cur>(cx, &[e], GMS[(i % 2) as usize], Mode::Det, &[sel.clone()], 1, mid);
            }
            settle(cx);
        }));
        if !tiny {
            let big = tier == Tier::Thorough;
            let ftop = if small() { 2 } else { tier.pick(3, 4) };
            let mut units = Vec::new();
            for s in shapes(1, ftop) {
                for (k, far) in FAR.iter().chain(if big { FARTHER.iter() } else { [].iter() }).enumerate() {
                    if !big && s.size() == 3 && ![1, 2, 4].contains(&k) {
                        continue;
                    }
                    let (e, base) = far.put(&named(&s, &mut 0, false));
                    for sel in subsets(s.size(), base) {
                        if sel.len() < tier.pick(3, 4) {
                            units.push((e.clone(), base, s.size(), sel));
                        }
                    }
                }
            }
            v.push(family("far", format!("every shape of up to {ftop} elements in far places {FAR:?}{} (3 elements: three of these places in the quick tier): every set of up to {} of its elements and perhaps the root live, every edit of and around it, then all handles dropped in every order (up to 3; a few orders of more)", if big { format!(" and {FARTHER:?}") } else { String::new() }, tier.pick(2, 3)), units.len() as u64, move |cx, i| {
                let (e, base, size, sel) = &units[i as usize];
                let trees = [e.clone()];
                let with_root: Vec<usize> = sel.iter().copied().chain([0]).collect();
                for order in [sel.clone(), with_root] {
                    if order.is_empty() {
                        continue;
                    }
                    let order = [order];
                    let mut m = Model::default();
                    m.add(e);
                    order[0].iter().for_each(|&i| m.els[i].live = true);
                    let (host, from) = (m.els[*base].parent, m.els.len());
                    for op in far_edits(&m, from, *base, *size, host) {
                        if !m.clone().apply(&op) {
                            continue;
                        }
                        let h = History { trees: &trees, gm: GMS[(i % 2) as usize], mode: Mode::Mut, order: &order, how: i as usize % 4, ops: &[op] };
                        if i % 3 == 2 { world::<Typ>(cx, &h) } else { world::<Cur>(cx, &h) }
                    }
                }
                settle(cx);
            }));
        }
        let etop2 = if tiny { 1 } else if small() { 2 } else { tier.pick(4, 5) };
        let mut units = Vec::new();
        for s in shapes(1, etop2) {
            for sel in subsets(s.size(), 0) {
                if !sel.is_empty() {
                    units.push((s.clone(), sel));
                }
            }
        }
        v.push(family("two-edits", format!("all shapes of up to {etop2} elements, every set of live handles, every two edits or handle operations, then dropped in every order"), units.len() as u64, move |cx, i| {
            let (s, sel) = &units[i as usize];
            let e = named(s, &mut 0, i % 2 == 1);
            histories::<Cur>(cx, &[e.clone()], GMS[(i % 2) as usize], Mode::Mut, &[sel.clone()], 2, Edits { handles: !tiny, ..if s.size() <= 2 && !tiny { mid } else { slim } });
            settle(cx);
        }));
        let small_shapes = shapes(1, if tiny { 1 } else if small() { 2 } else { 3 });
        let mut units = Vec::new();
        for a in &small_shapes {
            for b in &small_shapes {
                if a.size() + b.size() > tier.pick(6, 6) {
                    continue;
                }
                for sa in subsets(a.size(), 0) {
                    for sb in subsets(b.size(), a.size()) {
                        if !sa.is_empty() && !sb.is_empty() {
                            units.push((a.clone(), b.clone(), sa.clone(), sb));
                        }
                    }
                }
            }
        }
        v.push(family("two-trees", format!("every two trees of up to 3 elements ({} in all), every set of live handles, every edit including moves between them, then dropped in every order", tier.pick(5, 6)), units.len() as u64, move |cx, i| {
            let (a, b, sa, sb) = &units[i as usize];
            let mut n = 0;
            let trees = [named(a, &mut n, false), named(b, &mut n, false)];
            histories::<Cur>(cx, &trees, GMS[(i % 2) as usize], Mode::Mut, &[sa.clone(), sb.clone()], 1, mid);
            settle(cx);
        }));
        // objects used after edits
        let utop = if tiny { 2 } else if small() { 3 } else { tier.pick(4, 5) };
        let us = shapes(1, utop);
        v.push(family("objects-under-edit", format!("all shapes of up to {utop} elements, three sets of live handles: every one of {STEPPERS} kinds of iterators, walks, texts and lookups of every element, advanced up to twice, then every edit (every two on up to {} elements), then advanced to its end, the handles being alive or gone", tier.pick(2, 3)), us.len() as u64 * 3, move |cx, i| {
            let s = &us[(i / 3) as usize];
            let e = named(s, &mut 0, i % 2 == 1);
            let order: Vec<usize> = match i % 3 {
                0 => vec![0],
                1 => (0..s.size()).rev().collect(),
                _ => vec![s.size() - 1],
            };
            let depth = if !tiny && s.size() <= tier.pick(2, 3) { 2 } else { 1 };
            let x = if !tiny && s.size() <= 3 { mid } else { slim };
            objects_under_edit::<Cur>(cx, &e, GMS[(i % 2) as usize], Mode::Mut, &order, depth, x);
            if s.size() <= 3 {
                objects_under_edit::<Typ>(cx, &e, GMS[(i % 2) as usize], Mode::Upd, &order, 1, slim);
            }
            settle(cx);
        }));
        // consuming steps
        let cs = shapes(1, if tiny { 3 } else { tier.pick(6, 7) });
        v.push(family("consuming", "consuming steps to the next sibling from every element, one to three times, handle shared or not, root held or not", cs.len() as u64, move |cx, i| {
            let e = named(&cs[i as usize], &mut 0, false);
            let f = Flat::new(&e);
            for (k, &mode) in MODES.iter().enumerate() {
                consuming(cx, &e, &f, GMS[k % 2], mode);
            }
            settle(cx);
        }));
        // builders and caches
        let len = if tiny { 3 } else if small() { 4 } else { tier.pick(6, 7) };
        v.push(family("builder", format!("every sequence of {len} builder calls, own or shared cache, abandoned or finished"), 8u64.pow(len as u32 - 2), move |cx, i| {
            for lo in 0..64 {
                for shared in 0..3 {
                    builder(cx, i * 64 + lo, len, shared);
                }
            }
            settle(cx);
        }));
        // green edits
        let s = TreeSpace::new(1, if tiny { 2 } else { tier.pick(4, 5) }, &[1], &[(2, "a"), (2, "")]);
        v.push(family("green-edits", format!("every green edit at every child, four owners of shared parts dropped in every order; {}", s.describe()), s.count(), move |cx, i| {
            let e = s.get(i);
            for gm in GMS {
                greens(cx, &e, gm, false);
                greens(cx, &e, gm, true);
            }
            settle(cx);
        }));
        // clone_from and the like
        let s = TreeSpace::new(1, if tiny { 2 } else { 3 }, &[1], &[(2, "a"), (2, "")]);
        let n = s.count();
        v.push(family("assigned", format!("every handle, text, child iterator (fresh and half-way) and green element replaced in place by every other one of the same or of another tree, the last of its tree or not; all pairs of trees; {}", s.describe()), n * (n + 1), move |cx, i| {
            let (e, e2) = (s.get(i / (n + 1)), s.get((i % (n + 1)).min(n - 1)));
            for mode in [Mode::Imm, Mode::Mut] {
                assigned::<Cur>(cx, &e, &e2, mode, i % (n + 1) == n);
                assigned::<Typ>(cx, &e, &e2, mode, i % (n + 1) == n);
            }
            settle(cx);
        }));
        if !small() {
            v.push(family("counts", "2^32 further references to a node or token of an immutable or mutable tree taken, and as many dropped, in a process of its own: it gives up or counts right", COUNTED.len() as u64, |cx, i| count(cx, i as usize)));
        }
        // large trees
        if !tiny {
            let w: Vec<usize> = vec![3, 4, 5, 9, 17, 65, 129, 257, 1025];
            let d: Vec<usize> = vec![5, 17, 65, 257, 1025, 4000];
            let trees = scale_trees(&w, &d);
            v.push(family("scale", format!("widths {w:?}, depths {d:?}; only the first, the last, the middle or every second handle kept"), trees.len() as u64 * 6, move |cx, i| {
                let e = &trees[(i / 6) as usize];
                for mode in MODES {
                    if e.size() > 3000 && mode != Mode::Imm && mode != Mode::Mut {
                        continue;
                    }
                    scaled::<Cur>(cx, e, mode, (i % 6) as usize);
                }
                settle(cx);
            }));
        }
        v
    })
}
