//! C13: copies for update are isolated and mutability is never mixed.
use mc::api::*;
use mc::engine::{Cx, Family, Tier, family, guard, small};
use mc::model::*;
use mc::tree::*;
use mc::world::*;
use mc::{check, check_eq};
use rowan::{GreenNode, GreenNodeData, NodeOrToken};
use std::borrow::Cow;

/// Something that must stay what it is.
enum Snap<A: Api> {
    Green(GreenNode, El),
    /// An immutable tree with handles to some or all of its elements.
    Tree(Vec<(E<A>, usize)>, El, bool),
    /// What `green()` gave for a live node, as it gave it.
    Cow(Cow<'static, GreenNodeData>, Box<A::N>, El),
}

impl<A: Api> Snap<A> {
    fn tree(root: &A::N, e: &El, all: bool, mutable: bool) -> Snap<A> {
        let f = Flat::new(e);
        let hs = handles::<A>(root);
        assert_eq!(hs.len(), f.len());
        let keep: Vec<(E<A>, usize)> =
            hs.into_iter().zip(0..).filter(|(_, i)| all || *i + 1 == f.len() || *i == 0).collect();
        Snap::Tree(keep, e.clone(), mutable)
    }
    fn cow(n: A::N, e: El) -> Snap<A> {
        let n = Box::new(n);
        // SAFETY: the node lives as long as the snapshot and is dropped after the borrow
        let g = unsafe { std::mem::transmute::<Cow<'_, GreenNodeData>, Cow<'static, GreenNodeData>>(A::green_cow(&n)) };
        Snap::Cow(g, n, e)
    }
    fn check(&self, cx: &mut Cx, what: &str) {
        cx.step();
        match self {
            Snap::Cow(g, _, e) => {
                check!(cx, same_green(g, e), "{what}: what green() returned was {e:?} and has become {:?}", El::read(g));
            }
            Snap::Green(g, e) => {
                check!(cx, same_green(g, e), "{what}: a green tree was {e:?} and has become {:?}", El::read(g));
                check_eq!(cx, u32::from(g.text_len()), e.len(), "{what}: length of a green tree");
            }
            Snap::Tree(hs, e, mutable) => {
                let f = Flat::new(e);
                for (h, id) in hs {
                    denotes::<A>(cx, &f, h, *id, what);
                    if let NodeOrToken::Node(n) = h {
                        check_eq!(cx, A::is_mutable(n), *mutable, "{what}: mutability of a kept tree");
                    }
                }
                let NodeOrToken::Node(root) = &hs[0].0 else { unreachable!() };
                same_tree::<A>(cx, root, &f, what);
                check!(cx, same_green(&A::green(root), e), "{what}: green tree of a kept tree");
            }
        }
    }
}

struct Setup<'a> {
    e: &'a El,
    gm: Gm,
    mode: Mode,
    /// Elements the two copies are made from.
    at: [usize; 2],
    /// 0: only the handle the copy gave, 1: the root as well, 2: all.
    live: usize,
    held: bool,
}

/// Two copies, a history of edits on them, snapshots after every step; nothing else changes.
fn copies<A: Api>(cx: &mut Cx, s: &Setup, ops: &[Op]) {
    cx.case(|| {
        format!(
            "{} {:?} {:?} {:?}: copies for update made from nodes {:?}; live handles {} (0 only the copy, 1 and its root, 2 all), handles to all of the original held: {}; elements of the copies numbered in preorder, second copy after the first; {ops:?}",
            A::NAME, s.gm, s.mode, s.e, s.at, ["0", "1", "2"][s.live], s.held
        )
    });
    let f = Flat::new(s.e);
    let root = make::<A>(s.e, s.gm, s.mode);
    let mut kept: Vec<Snap<A>> = vec![
        Snap::Green(A::green(&root), s.e.clone()),
        Snap::tree(&root, s.e, s.held, false),
    ];
    // subtree copies taken before
    for id in f.nodes() {
        let n = reach::<A>(&root, &f, id, id % HOWS).unwrap().into_node().unwrap();
        let sub = A::clone_subtree(&n);
        check!(cx, !A::is_mutable(&sub), "a subtree copy is mutable");
        kept.push(Snap::tree(&sub, &f.to_el(id), s.held, false));
        kept.push(Snap::Green(A::green(&n), f.to_el(id)));
        kept.push(Snap::cow(n, f.to_el(id)));
    }
    let mut m = Model::default();
    let mut r = Real::<A>::default();
    for at in s.at {
        let base = m.add(s.e);
        let n = reach::<A>(&root, &f, at, 1).unwrap().into_node().unwrap();
        let copy = A::clone_for_update(&n);
        check!(cx, A::is_mutable(&copy), "the copy for update is not mutable");
        denotes_node::<A>(cx, &f, &copy, at, "the copy for update");
        let top = A::ancestors(&copy).last().unwrap();
        same_tree::<A>(cx, &top, &f, "the tree copied for update");
        r.h.resize_with(m.els.len(), || None);
        if s.live == 2 {
            for (i, h) in handles::<A>(&top).into_iter().enumerate() {
                r.h[base + i] = Some(h);
                m.els[base + i].live = true;
            }
        } else if s.live == 1 {
            r.h[base] = Some(NodeOrToken::Node(top.clone()));
            m.els[base].live = true;
        }
        r.h[base + at] = Some(NodeOrToken::Node(copy));
        m.els[base + at].live = true;
    }
    // an unedited copy, to be left alone
    let idle = A::clone_for_update(&root);
    kept.push(Snap::tree(&idle, s.e, s.held, true));
    drop(idle);
    for op in ops {
        snapshot::<A>(cx, &r, &m, &mut kept);
        r.exec(&m, op);
        m.apply(op);
        cx.step();
    }
    if !ops.is_empty() {
        snapshot::<A>(cx, &r, &m, &mut kept);
    }
    cx.state(&m);
    for k in &kept {
        k.check(cx, "after the edits");
    }
    r.verify(cx, &m, "the copies after the edits");
    // the original can be copied and edited anew
    let again = A::clone_for_update(&root);
    same_tree::<A>(cx, &again, &f, "a later copy");
    if let Some(c) = A::first_child_or_token(&again) {
        A::e_detach(&c);
    }
    drop(r);
    for k in &kept {
        k.check(cx, "after the copies are gone");
    }
}

/// A mutable tree nothing else shares green storage with; what `green()` and `text()` return for the live
/// elements is kept as it is returned, and stays what it was while the handles live.
fn alone<A: Api>(cx: &mut Cx, e: &El, gm: Gm, mode: Mode, order: &[usize], ops: &[Op]) {
    let h = History { trees: &[e.clone()], gm, mode, order: &[order.to_vec()], how: 1, ops };
    cx.case(|| format!("nothing but the tree: {}", h.describe(A::NAME)));
    let mut m = Model::default();
    m.add(e);
    let mut r = Real::<A>::default();
    r.add(make::<A>(e, gm, mode), &m, 0, order, 1);
    for &i in order {
        m.els[i].live = true;
    }
    let mut kept: Vec<Snap<A>> = vec![];
    let mut texts: Vec<(&'static str, Box<A::T>, String)> = vec![];
    for i in 0..=ops.len() {
        for id in m.present() {
            if !m.els[id].live {
                continue;
            }
            match r.get(&m, id, 0) {
                NodeOrToken::Node(n) => kept.push(Snap::cow(n, m.el(id))),
                NodeOrToken::Token(t) => {
                    let t = Box::new(t);
                    // SAFETY: the token lives as long as the text
                    let text = unsafe { std::mem::transmute::<&str, &'static str>(A::t_text(&t)) };
                    texts.push((text, t, m.el(id).text()));
                }
            }
        }
        if let Some(op) = ops.get(i) {
            r.exec(&m, op);
            m.apply(op);
            cx.step();
        }
    }
    for k in &kept {
        k.check(cx, "after the edits");
    }
    for (text, _, was) in &texts {
        check_eq!(cx, *text, was.as_str(), "text borrowed from a token before the edits");
    }
    r.verify(cx, &m, "after the edits");
}

fn all_alone<A: Api>(cx: &mut Cx, e: &El, gm: Gm, mode: Mode, order: &[usize], m: &Model, depth: usize, x: Edits, ops: &mut Vec<Op>) {
    for op in edits(m, x) {
        let mut m2 = m.clone();
        if !m2.apply(&op) {
            continue;
        }
        ops.push(op);
        cx.nontrivial += 1;
        alone::<A>(cx, e, gm, mode, order, ops);
        if depth > 1 {
            all_alone::<A>(cx, e, gm, mode, order, &m2, depth - 1, x, ops);
        }
        ops.pop();
    }
}

/// Green tree, subtree copy and a copy of that, of every tree of the world as it is now.
fn snapshot<A: Api>(cx: &Cx, r: &Real<A>, m: &Model, kept: &mut Vec<Snap<A>>) {
    for root in m.roots() {
        if m.live_near(root).is_none() || !m.els[root].node {
            continue;
        }
        let e = m.el(root);
        let n = r.get(m, root, 0).into_node().unwrap();
        if m.els[root].live {
            kept.push(Snap::cow(n.clone(), e.clone()));
        }
        kept.push(Snap::Green(A::green(&n), e.clone()));
        let sub = A::clone_subtree(&n);
        check!(cx, !A::is_mutable(&sub), "a subtree copy is mutable");
        kept.push(Snap::tree(&sub, &e, false, false));
        kept.push(Snap::tree(&A::clone_for_update(&sub), &e, false, true));
        for id in m.preorder(root).into_iter().skip(1) {
            if m.els[id].node && m.els[id].live {
                let n = r.get(m, id, 0).into_node().unwrap();
                kept.push(Snap::cow(n.clone(), m.el(id)));
                kept.push(Snap::Green(A::green(&n), m.el(id)));
                kept.push(Snap::tree(&A::clone_subtree(&n), &m.el(id), true, false));
            }
        }
    }
}

fn go<A: Api>(cx: &mut Cx, s: &Setup, m: &Model, depth: usize, x: Edits, ops: &mut Vec<Op>) {
    for op in edits(m, x) {
        let mut m2 = m.clone();
        if !m2.apply(&op) {
            continue;
        }
        ops.push(op);
        cx.nontrivial += 1;
        copies::<A>(cx, s, ops);
        if depth > 1 {
            go::<A>(cx, s, &m2, depth - 1, x, ops);
        }
        ops.pop();
    }
}

fn explore<A: Api>(cx: &mut Cx, s: &Setup, depth: usize, x: Edits) {
    let mut m = Model::default();
    for at in s.at {
        let base = m.add(s.e);
        m.els[base + at].live = true;
        m.els[base].live |= s.live > 0;
        if s.live == 2 {
            m.els[base..].iter_mut().for_each(|e| e.live = true);
        }
    }
    copies::<A>(cx, s, &[]);
    go::<A>(cx, s, &m, depth, x, &mut vec![]);
}

fn refused<A: Api>(cx: &mut Cx, e: &El, gm: Gm, mode: Mode, held: bool) {
    let f = Flat::new(e);
    let other = N(9, vec![t(1, "m"), N(2, vec![t(1, "n")])]);
    let g = Flat::new(&other);
    for id in 0..f.len() {
        let width = f.els[id].children.len();
        let mut calls: Vec<(usize, usize, usize)> = vec![(0, 0, 0), (1, 0, 0), (2, 0, 0)];
        if f.els[id].node {
            for a in 0..=width {
                for b in a..=width {
                    for k in 0..4 {
                        if !(a == b && k == 0) {
                            calls.push((3 + k, a, b));
                        }
                    }
                }
            }
        }
        for a in 0..=g.els[0].children.len() {
            for k in 10..14 {
                calls.push((k, a, a));
                calls.push((k, 0, a));
            }
        }
        for (call, a, b) in calls {
            cx.case(|| {
                format!(
                    "{} {gm:?} {mode:?} {e:?}, element {id}, handles to all held: {held}; call {} at {a}..{b}",
                    A::NAME,
                    match call {
                        0 => "detach".into(),
                        1 => "clone_for_update of a mutable copy".into(),
                        2 => "clone_for_update of a detached mutable copy".into(),
                        3..=6 => format!("splice_children on it (insertion variant {})", call - 3),
                        _ => format!("splice_children inserting it into the mutable {other:?} (variant {})", call - 10),
                    }
                )
            });
            cx.step();
            let root = make::<A>(e, gm, mode);
            let snap = Snap::<A>::tree(&root, e, held, false);
            let green = Snap::<A>::Green(A::green(&root), e.clone());
            let x = reach::<A>(&root, &f, id, id % HOWS).unwrap();
            let mm = make::<A>(&other, gm, Mode::Mut);
            let mk = A::children_with_tokens(&mm).next().unwrap();
            let ok = match call {
                0 => guard(|| A::e_detach(&x)).is_some(),
                1 | 2 => {
                    let NodeOrToken::Node(n) = &x else { continue };
                    let c = A::clone_for_update(n);
                    if call == 2 {
                        A::detach(&c);
                    }
                    guard(|| A::clone_for_update(&c)).is_some()
                }
                3..=6 => {
                    let n = x.as_node().unwrap();
                    let ins: Vec<E<A>> = match call {
                        3 => vec![],
                        4 => vec![fresh_real::<A>(0)],
                        5 => vec![mk.clone()],
                        // an immutable element into an immutable tree
                        _ => vec![NodeOrToken::Node(make::<A>(&other, gm, Mode::Imm))],
                    };
                    guard(|| A::splice(n, a..b, ins)).is_some()
                }
                _ => {
                    let ins: Vec<E<A>> = match call {
                        10 => vec![x.clone()],
                        11 => vec![fresh_real::<A>(0), x.clone()],
                        12 => vec![x.clone(), fresh_real::<A>(1)],
                        _ => vec![fresh_real::<A>(2), x.clone(), x.clone()],
                    };
                    guard(|| A::splice(&mm, a..b, ins)).is_some()
                }
            };
            check!(cx, !ok, "accepted, expected a panic");
            snap.check(cx, "the immutable tree after the refused call");
            green.check(cx, "the green tree after the refused call");
            denotes::<A>(cx, &f, &x, id, "the element after the refused call");
            let c = A::clone_for_update(&root);
            same_tree::<A>(cx, &c, &f, "a copy made after the refused call");
            A::splice(&c, 0..0, vec![fresh_real::<A>(0)]);
            snap.check(cx, "the immutable tree after a later edit of a copy");
        }
    }
}

fn named(e: &El, n: &mut u16, dup: bool) -> El {
    *n += 1;
    let k = *n;
    match e {
        N(_, c) => N(if dup { 1 } else { nth_kind(k) }, c.iter().map(|x| named(x, n, dup)).collect()),
        T(..) if dup => t(2, "a"),
        T(..) => t(nth_kind(k), ["a", "bc", "", "def", "é"][k as usize % 5]),
    }
}

fn main() {
    mc::engine::main("C13", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        let full = Edits { wide_ranges: true, pairs: true, fresh: 4, keep: true, handles: false, detach: true };
        let slim = Edits { wide_ranges: false, pairs: false, fresh: 2, keep: false, handles: false, detach: true };
        let mid = Edits { wide_ranges: true, pairs: false, fresh: 2, keep: true, handles: false, detach: true };
        let units = |max: usize| {
            let mut units = Vec::new();
            for s in shapes(1, max) {
                let f = Flat::new(&s);
                for p in f.nodes() {
                    for q in f.nodes() {
                        for live in 0..3 {
                            units.push((s.clone(), [p, q], live));
                        }
                    }
                }
            }
            units
        };
        let top = if small() { 4 } else { tier.pick(4, 5) };
        let u1 = units(top);
        v.push(family("copies-one-edit", format!("all shapes of up to {top} elements, two copies for update made from every two nodes, three sets of live handles, every edit on the copies (moves between them included), snapshots before and after"), u1.len() as u64, move |cx, i| {
            let (s, at, live) = &u1[i as usize];
            let e = named(s, &mut 0, false);
            let d = named(s, &mut 0, true);
            let x = if s.size() <= cx.tier.pick(3, 4) { full } else { mid };
            let h = i % 2 == 0;
            explore::<Cur>(cx, &Setup { e: &e, gm: Gm::Direct, mode: Mode::Imm, at: *at, live: *live, held: h }, 1, x);
            explore::<Typ>(cx, &Setup { e: &d, gm: Gm::Built, mode: Mode::Imm, at: *at, live: *live, held: !h }, 1, x);
            explore::<Cur>(cx, &Setup { e: &d, gm: Gm::Built, mode: Mode::Sub, at: *at, live: *live, held: h }, 1, if s.size() <= cx.tier.pick(3, 5) { mid } else { slim });
        }));
        let top2 = if small() { 2 } else { 3 };
        let u2 = units(top2);
        v.push(family("copies-two-edits", format!("all shapes of up to {top2} elements, the same with every two edits (in the quick tier without the middle set of live handles on 3 elements)"), u2.len() as u64, move |cx, i| {
            let (s, at, live) = &u2[i as usize];
            let e = named(s, &mut 0, false);
            let d = named(s, &mut 0, true);
            let x = if s.size() <= cx.tier.pick(2, 3) { mid } else { slim };
            if s.size() == 3 && *live == 1 && cx.tier == Tier::Quick {
                return;
            }
            let all = s.size() < 3 || cx.tier == Tier::Thorough;
            if all || *live == 2 {
                explore::<Cur>(cx, &Setup { e: &e, gm: Gm::Direct, mode: Mode::Imm, at: *at, live: *live, held: true }, 2, x);
            }
            if all || *live == 0 {
                explore::<Typ>(cx, &Setup { e: &d, gm: Gm::Built, mode: Mode::Imm, at: *at, live: *live, held: false }, 2, slim);
            }
        }));
        let three = if small() { 1 } else { tier.pick(1, 2) };
        let u3 = units(three);
        v.push(family("copies-three-edits", format!("all shapes of up to {three} elements, the same with every three edits"), u3.len() as u64, move |cx, i| {
            let (s, at, live) = &u3[i as usize];
            if s.size() == 3 && *live == 1 {
                return;
            }
            let e = named(s, &mut 0, false);
            explore::<Cur>(cx, &Setup { e: &e, gm: Gm::Built, mode: Mode::Imm, at: *at, live: *live, held: true }, 3, slim);
        }));
        let atop = if small() { 4 } else { tier.pick(5, 6) };
        let ashapes = shapes(2, atop);
        v.push(family("alone", format!("all shapes of up to {atop} elements, every set of live handles, every edit; up to {} elements every two edits: green trees and token texts as borrowed from the live handles before each edit", atop - 2), ashapes.len() as u64, move |cx, i| {
            let e = named(&ashapes[i as usize], &mut 0, false);
            let size = e.size();
            for set in 1u64..1 << size {
                let order: Vec<usize> = (0..size).filter(|i| set >> i & 1 == 1).collect();
                let mut m = Model::default();
                m.add(&e);
                for &i in &order {
                    m.els[i].live = true;
                }
                let depth = if size + 2 <= atop { 2 } else { 1 };
                let x = if depth == 1 { mid } else { slim };
                let mode = [Mode::Mut, Mode::Upd, Mode::Det][(set % 3) as usize];
                if i % 2 == 0 {
                    all_alone::<Cur>(cx, &e, GMS[(set % 2) as usize], mode, &order, &m, depth, x, &mut vec![]);
                } else {
                    all_alone::<Typ>(cx, &e, GMS[(set % 2) as usize], mode, &order, &m, depth, x, &mut vec![]);
                }
            }
        }));
        let big = tier == Tier::Thorough;
        let ftop = if small() { 2 } else { 3 };
        let mut units = Vec::new();
        for s in shapes(1, ftop) {
            for far in FAR.iter().chain(if big { FARTHER.iter() } else { [].iter() }) {
                let (e, base) = far.put(&named(&s, &mut 0, false));
                for sel in subsets(s.size(), base) {
                    units.push((e.clone(), base, s.size(), sel));
                }
            }
        }
        v.push(family("far", format!("every shape of up to {ftop} elements in far places {FAR:?}{}: every set of its elements and perhaps the root live, every edit of and around it, with what was borrowed before; two copies made from up to {} elements, the root or the last node, with each edit of and around one of them, and snapshots", if big { format!(" and {FARTHER:?}") } else { String::new() }, ftop - 1), units.len() as u64, move |cx, i| {
            let (e, base, size, sel) = &units[i as usize];
            let with_root: Vec<usize> = sel.iter().copied().chain([0]).collect();
            for order in [sel.clone(), with_root] {
                if order.is_empty() {
                    continue;
                }
                let mut m = Model::default();
                m.add(e);
                order.iter().for_each(|&i| m.els[i].live = true);
                for op in far_edits(&m, m.els.len(), *base, *size, m.els[*base].parent) {
                    if m.clone().apply(&op) {
                        cx.nontrivial += 1;
                        if i % 3 == 2 {
                            alone::<Typ>(cx, e, GMS[(i % 2) as usize], Mode::Mut, &order, &[op]);
                        } else {
                            alone::<Cur>(cx, e, GMS[(i % 2) as usize], Mode::Mut, &order, &[op]);
                        }
                    }
                }
            }
            let f = Flat::new(e);
            if *size > 2 || !sel.is_empty() || f.len() > 400 && !big {
                return;
            }
            let last = f.nodes().last().unwrap();
            for (k, at) in [[*base, 0], [0, *base], [*base, last]].into_iter().enumerate() {
                let s = Setup { e, gm: GMS[(i % 2) as usize], mode: [Mode::Imm, Mode::Sub][(i / 2 % 2) as usize], at, live: k % 2, held: false };
                if !at.iter().all(|&i| f.els[i].node) {
                    continue;
                }
                let mut m = Model::default();
                for k in 0..2 {
                    m.add(e);
                    m.els[k * f.len() + at[k]].live = true;
                    m.els[k * f.len()].live |= s.live > 0;
                }
                for op in far_edits(&m, m.els.len(), *base, *size, m.els[*base].parent) {
                    if m.clone().apply(&op) {
                        copies::<Cur>(cx, &s, &[op]);
                    }
                }
            }
        }));
        let rs = shapes(1, if small() { 4 } else { tier.pick(5, 6) });
        v.push(family("refused", format!("all shapes of up to {} elements: every edit of an immutable tree, every insertion of an immutable element into a mutable tree (alone or with mutable ones), copying a mutable tree for update", tier.pick(5, 6)), rs.len() as u64 * 4, move |cx, i| {
            let e = named(&rs[(i / 4) as usize], &mut 0, i % 4 == 3);
            let (gm, mode) = [(Gm::Direct, Mode::Imm), (Gm::Built, Mode::Imm), (Gm::Direct, Mode::Sub), (Gm::Built, Mode::Sub)][(i % 4) as usize];
            cx.state(&e);
            cx.nontrivial += 1;
            if i % 2 == 0 { refused::<Cur>(cx, &e, gm, mode, i % 3 == 0) } else { refused::<Typ>(cx, &e, gm, mode, i % 3 == 0) }
        }));
        let widths: Vec<usize> = vec![5, 8, 9, 16, 17, 33, 64, 65, 129, 257];
        let depths: Vec<usize> = vec![4, 8, 9, 17, 33, 64, 129];
        let trees = scale_trees(&widths, &depths);
        v.push(family("scale", format!("widths {widths:?}, depths {depths:?}: copies made from the root, a middle and the last node; detaching, inserting and moving at several places"), trees.len() as u64 * 3, move |cx, i| {
            let e = &trees[(i / 3) as usize];
            let f = Flat::new(e);
            let nodes: Vec<usize> = f.nodes().collect();
            let size = f.len();
            let mut at: Vec<[usize; 2]> = vec![[0, 0], [nodes[nodes.len() / 2], *nodes.last().unwrap()]];
            at.dedup();
            for at in at {
                let c = f.els[0].children.clone();
                let deep = *nodes.iter().max_by_key(|&&i| f.path(i).len()).unwrap();
                let ops = [
                    Op::Detach(c[c.len() / 2]),
                    Op::Splice(size, 0, 1, vec![Ins::Fresh(1, true)]),
                    Op::Splice(deep, 0, 0, vec![Ins::Fresh(1, false)]),
                    Op::Splice(0, 0, 0, vec![Ins::Old(size + c[c.len() - 1])]),
                    Op::Splice(0, 1.min(c.len()), c.len() / 2, vec![]),
                ];
                // drop those that would be refused or concern elements that are gone
                let mut m = Model::default();
                m.add(e);
                m.add(e);
                for k in 0..2 {
                    m.els[k * size].live = true;
                    m.els[k * size + at[k]].live = true;
                    if i % 3 == 2 {
                        m.els[k * size..(k + 1) * size].iter_mut().for_each(|e| e.live = true);
                    }
                }
                let mut good = Vec::new();
                for op in ops {
                    let present = m.present();
                    let ids: Vec<usize> = match &op {
                        Op::Detach(i) => vec![*i],
                        Op::Splice(n, _, _, ins) => std::iter::once(*n).chain(ins.iter().filter_map(|i| match i { Ins::Old(o) => Some(*o), _ => None })).collect(),
                        _ => vec![],
                    };
                    let mut m2 = m.clone();
                    if ids.iter().all(|i| present.contains(i)) && m2.apply(&op) {
                        m = m2;
                        good.push(op);
                    }
                }
                let s = Setup { e, gm: GMS[(i % 2) as usize], mode: Mode::Imm, at, live: if i % 3 == 2 { 2 } else { 1 }, held: i % 3 == 1 };
                copies::<Cur>(cx, &s, &good);
            }
        }));
        v
    })
}
