//! C12: editing while iterating reaches every child.
use mc::api::*;
use mc::engine::{Cx, Family, Tier, family, small};
use mc::model::*;
use mc::tree::*;
use mc::world::*;
use mc::{check, check_eq};
use rowan::NodeOrToken;

/// A node with these children (bit: node or token), somewhere inside a larger tree.
fn host(n: usize, nodes: u64, variant: usize) -> (El, usize) {
    let c: Vec<El> = (0..n)
        .map(|i| {
            let k = 100 + i as u16;
            if nodes >> (i % 64) & 1 == 1 {
                match (i + variant) % 3 {
                    0 => N(k, vec![]),
                    1 => N(k, vec![t(1, "ab")]),
                    _ => N(k, vec![N(2, vec![t(1, "é")]), t(1, "")]),
                }
            } else {
                t(k, ["x", "", "日本"][(i + variant) % 3])
            }
        })
        .collect();
    match variant {
        0 => (N(9, c), 0),
        _ => (N(8, vec![t(3, "left"), N(7, vec![t(3, "l")]), N(9, c), t(3, "right"), N(6, vec![])]), 4),
    }
}

/// What the loop body does with the yielded child.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Act {
    Drop,
    Hold,
    Detach,
    DetachHold,
    /// Puts a fresh element in its place.
    Replace,
    /// Inserts a fresh element before it.
    Before,
    /// Moves it to the front of another tree.
    Move,
    /// Detaches the child before it (if one is there).
    DetachPrev,
}
const ACTS: [Act; 8] =
    [Act::Drop, Act::Hold, Act::Detach, Act::DetachHold, Act::Replace, Act::Before, Act::Move, Act::DetachPrev];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum It {
    Nodes,
    All,
    /// Filtered to kinds whose bit is set, after this many children were taken unfiltered.
    NodesBy(u64, usize),
    AllBy(u64, usize),
}

impl It {
    fn wants(self, m: &Model, kids: &[usize]) -> Vec<usize> {
        let nodes = matches!(self, It::Nodes | It::NodesBy(..));
        let v = kids.iter().copied().filter(|&k| !nodes || m.els[k].node);
        match self {
            It::Nodes | It::All => v.collect(),
            It::NodesBy(mask, taken) | It::AllBy(mask, taken) => v
                .enumerate()
                .filter(|&(i, k)| i < taken || bit(mask, m.els[k].kind))
                .map(|x| x.1)
                .collect(),
        }
    }
}

fn bit(mask: u64, kind: u16) -> bool {
    (100..400).contains(&kind) && mask >> ((kind - 100) % 64) & 1 == 1
}

/// The running iterator.
enum Run<'a, A: Api> {
    N(A::NC),
    E(A::EC),
    F(BoxIter<'a, E<A>>),
    End,
}

impl<'a, A: Api> Run<'a, A> {
    fn next(&mut self) -> Option<E<A>> {
        match self {
            Run::N(i) => i.next().map(NodeOrToken::Node),
            Run::E(i) => i.next(),
            Run::F(i) => i.next(),
            Run::End => None,
        }
    }
    fn filter(&mut self, p: Pred<'a>) {
        *self = match std::mem::replace(self, Run::End) {
            Run::N(i) => Run::F(Box::new(A::nc_by_kind(i, p).map(NodeOrToken::Node))),
            Run::E(i) => Run::F(A::ec_by_kind(i, p)),
            x => x,
        };
    }
}

struct Case<'a> {
    e: &'a El,
    /// Number of the node that is iterated.
    at: usize,
    it: It,
    /// Handles alive beforehand, besides the one to the node.
    held: &'a [usize],
    acts: &'a dyn Fn(usize) -> Act,
    label: &'a dyn Fn() -> String,
    gm: Gm,
    mode: Mode,
}

fn run<A: Api>(cx: &mut Cx, c: &Case) {
    cx.case(|| {
        format!(
            "{} {:?} {:?} {:?}, children of element {} by {:?}, handles alive {:?}, per child {}",
            A::NAME, c.gm, c.mode, c.e, c.at, c.it, c.held, (c.label)()
        )
    });
    let mut m = Model::default();
    m.add(c.e);
    let other_el = N(5, vec![t(4, "o")]);
    let other = m.add(&other_el);
    let mut r = Real::<A>::default();
    let root = make::<A>(c.e, c.gm, c.mode);
    let mut order = vec![c.at];
    order.extend(c.held.iter().copied().filter(|&i| i != c.at));
    r.add(root, &m, 0, &order, 1);
    for &i in &order {
        m.els[i].live = true;
    }
    r.h[other] = Some(NodeOrToken::Node(make::<A>(&other_el, c.gm, Mode::Mut)));
    m.els[other].live = true;
    let node = r.h[c.at].clone().unwrap().into_node().unwrap();
    let want = c.it.wants(&m, &m.els[c.at].children.clone());
    let limit = 4 * m.els.len() + 8;
    let fresh_id = |k: u16| (60..=66).contains(&k);

    let (mask, taken) = match c.it {
        It::NodesBy(m, t) | It::AllBy(m, t) => (m, t),
        _ => (0, usize::MAX),
    };
    let pred = move |k: u16| bit(mask, k);
    let mut it = match c.it {
        It::Nodes | It::NodesBy(..) => Run::<A>::N(A::children(&node)),
        _ => Run::<A>::E(A::children_with_tokens(&node)),
    };
    let mut seen = 0;
    if taken == 0 {
        it.filter(&pred);
    }
    for n in 0.. {
        check!(cx, n < limit, "the iterator does not end");
        let Some(x) = it.next() else { break };
        let kind = A::e_kind(&x);
        if fresh_id(kind) {
            continue; // whether inserted elements are visited is not specified
        }
        cx.step();
        let Some(&id) = want.get(seen) else {
            cx.fail(format!("a child of kind {kind} is yielded beyond the {} expected ones", want.len()))
        };
        check_eq!(cx, kind, m.els[id].kind, "kind of child {seen} yielded");
        check_eq!(cx, x.as_node().is_some(), m.els[id].node, "child {seen} yielded: node or token");
        check_eq!(cx, A::e_index(&x), m.index(id), "index of child {seen} yielded");
        check!(cx, A::e_parent(&x).as_ref() == Some(&node), "parent of child {seen} yielded");
        let act = (c.acts)(seen);
        let i = m.index(id);
        match act {
            Act::Drop => drop(x),
            Act::Hold => {
                m.els[id].live = true;
                r.h[id] = Some(x);
            }
            Act::Detach => {
                A::e_detach(&x);
                m.apply(&Op::Detach(id));
                drop(x);
            }
            Act::DetachHold => {
                A::e_detach(&x);
                m.apply(&Op::Detach(id));
                m.els[id].live = true;
                r.h[id] = Some(x);
            }
            Act::Replace | Act::Before => {
                let hi = if act == Act::Replace { i + 1 } else { i };
                let op = Op::Splice(c.at, i, hi, vec![Ins::Fresh(seen % 2, seen % 3 == 0)]);
                r.exec(&m, &op);
                m.apply(&op);
                drop(x);
            }
            Act::Move => {
                let o = r.h[other].clone().unwrap().into_node().unwrap();
                A::splice(&o, 0..0, vec![x]);
                m.apply(&Op::Splice(other, 0, 0, vec![Ins::Old(id)]));
            }
            Act::DetachPrev => {
                if i > 0 {
                    let p = m.els[c.at].children[i - 1];
                    let y = A::e_prev(&x).expect("previous sibling");
                    A::e_detach(&y);
                    m.apply(&Op::Detach(p));
                }
            }
        }
        seen += 1;
        if seen == taken {
            it.filter(&pred);
        }
    }
    check_eq!(cx, seen, want.len(), "number of children yielded (those there were: {want:?})");
    check!(cx, it.next().is_none_or(|x| fresh_id(A::e_kind(&x))), "a child after the end");
    drop(it);
    r.verify(cx, &m, "after the loop");
    cx.state(&m);
}

/// `splice_children` removes exactly the range.
fn splice<A: Api>(cx: &mut Cx, e: &El, at: usize, held: &[usize], a: usize, b: usize, ins: &[Ins]) {
    let ops = [Op::Splice(at, a, b, ins.to_vec())];
    let mut order = vec![at];
    order.extend(held.iter().copied().filter(|&i| i != at));
    let h = History { trees: &[e.clone()], gm: Gm::Direct, mode: Mode::Mut, order: &[order], how: 1, ops: &ops };
    cx.case(|| h.describe(A::NAME));
    let (r, m) = h.run::<A>();
    cx.step();
    r.verify(cx, &m, "after the splice");
}

fn kids_of(e: &El, at: usize) -> Vec<usize> {
    Flat::new(e).els[at].children.clone()
}

fn holds(kids: &[usize], how: usize) -> Vec<usize> {
    match how {
        0 => vec![],
        1 => kids.to_vec(),
        2 => kids.iter().rev().copied().collect(),
        _ => kids.iter().skip(1).step_by(2).copied().collect(),
    }
}

/// Child `i` of a very wide node.
fn far_child(what: u64, i: usize) -> El {
    match (what, i % 2) {
        (0, _) | (2, 0) => T(100, i.to_string()),
        _ => N(101, vec![T(100, i.to_string())]),
    }
}

/// Children `want` (numbers; fresh ones are `usize::MAX`) are there; the handles are where they belong.
fn far_verify<A: Api>(cx: &mut Cx, node: &A::N, want: &[usize], handles: &[(usize, E<A>)], what: &dyn Fn() -> String) {
    let g = A::green(node);
    let num = |s: &str| if s == "new" { usize::MAX } else { s.parse::<usize>().unwrap() };
    let mut at: u32 = 0;
    let mut place = std::collections::HashMap::new();
    let mut i = 0;
    for c in g.children() {
        let (id, len) = match c {
            NodeOrToken::Token(t) => (num(t.text()), u32::from(t.text_len())),
            NodeOrToken::Node(n) => (num(n.children().next().unwrap().into_token().unwrap().text()), u32::from(n.text_len())),
        };
        check!(cx, want.get(i) == Some(&id), "{}: child {i} is {id}, expected {:?}", what(), want.get(i));
        place.insert(id, (i, at));
        at += len;
        i += 1;
    }
    check!(cx, i == want.len(), "{}: {i} children, expected {}", what(), want.len());
    check!(cx, u32::from(g.text_len()) == at, "{}: length", what());
    for (id, h) in handles {
        cx.step();
        match place.get(id) {
            Some(&(i, at)) => {
                check!(cx, A::e_index(h) == i, "{}: handle of child {id} has index {}, expected {i}", what(), A::e_index(h));
                check!(cx, u32::from(A::e_range(h).start()) == at, "{}: handle of child {id} at {:?}, expected {at}", what(), A::e_range(h));
                check!(cx, A::e_parent(h).as_ref() == Some(node), "{}: parent of child {id}", what());
                let next = A::e_next(h);
                check!(cx, next.as_ref().map(|n| A::e_index(n)) == (i + 1 < want.len()).then_some(i + 1), "{}: next sibling of child {id}", what());
                let prev = A::e_prev(h);
                check!(cx, prev.as_ref().map(|n| A::e_index(n)) == i.checked_sub(1), "{}: previous sibling of child {id}", what());
            }
            None => {
                check!(cx, u32::from(A::e_range(h).start()) == 0 && A::e_parent(h).is_none(), "{}: detached child {id} is still somewhere", what());
            }
        }
    }
}

fn very_wide<A: Api>(cx: &mut Cx, n: usize, what: u64, hold: u64) {
    let e = N(9, (0..n).map(|i| far_child(what, i)).collect());
    let green = e.green();
    let mut at = vec![0, 1, n / 2, n - 3, n - 2, n - 1];
    at.extend([127usize, 128, 255, 256, 257, 511, 512, 1023, 1024, 4096, 32767, 32768, 65535, 65536].into_iter().filter(|&x| x < n));
    at.sort();
    at.dedup();
    let mut sets: Vec<Vec<usize>> = vec![at.clone(), at.iter().copied().filter(|&x| x < 512).collect(), at.iter().copied().filter(|&x| x > n / 2).collect(), vec![]];
    sets.extend(at.iter().map(|&x| vec![x]));
    let take = |node: &A::N| -> Vec<(usize, E<A>)> {
        let mut v: Vec<(usize, E<A>)> = Vec::new();
        if hold > 0 {
            let it: Vec<(usize, E<A>)> = A::children_with_tokens(node).enumerate().filter(|(i, _)| at.binary_search(i).is_ok()).collect();
            v.extend(it);
        }
        if hold == 2 {
            v.reverse();
            v.truncate(at.len() / 2);
        }
        v
    };
    for set in &sets {
        for act in [Act::Detach, Act::DetachHold, Act::Replace, Act::Before, Act::DetachPrev] {
            if n > 10000 && cx.tier == Tier::Quick && (set.first().map_or(0, |x| *x) + set.len() + act as usize + what as usize) % 3 != hold as usize {
                continue;
            }
            for all in [true, false] {
                let label = || format!("{} {n} children, variant {what}, handles {hold}, by {}, {act:?} at {set:?}", A::NAME, if all { "children_with_tokens" } else { "children" });
                cx.case(label);
                let node = A::new_root_mut(green.clone());
                let mut handles = take(&node);
                let mut want: Vec<usize> = (0..n).collect();
                let mut seen = 0;
                let mut expect = (0..n).filter(|&i| all || far_child(what, i).is_node());
                let mut body = |x: E<A>, cx: &mut Cx| {
                    if A::e_kind(&x) == 60 {
                        return;
                    }
                    let id = match &x {
                        NodeOrToken::Token(t) => A::t_text(t).parse::<usize>().unwrap(),
                        NodeOrToken::Node(n) => A::text(n).to_string().parse::<usize>().unwrap(),
                    };
                    let next = expect.next();
                    check!(cx, next == Some(id), "{}: child {id} yielded, expected {next:?}", label());
                    seen += 1;
                    if set.binary_search(&id).is_err() {
                        return;
                    }
                    let i = A::e_index(&x);
                    check!(cx, want[i] == id, "{}: child {id} yielded has index {i}", label());
                    match act {
                        Act::Detach | Act::DetachHold => {
                            A::e_detach(&x);
                            want.remove(i);
                            if act == Act::DetachHold {
                                handles.push((id, x));
                            }
                        }
                        Act::Replace | Act::Before => {
                            let new = A::new_root_mut(N(60, vec![t(1, "new")]).green());
                            let hi = if act == Act::Replace { i + 1 } else { i };
                            A::splice(&node, i..hi, vec![NodeOrToken::Node(new)]);
                            want.splice(i..hi, [usize::MAX]);
                        }
                        _ => {
                            if i > 0 {
                                let y = A::e_prev(&x).expect("previous sibling");
                                A::e_detach(&y);
                                want.remove(i - 1);
                            }
                        }
                    }
                };
                if all {
                    for x in A::children_with_tokens(&node) {
                        body(x, cx);
                    }
                } else {
                    for x in A::children(&node) {
                        body(NodeOrToken::Node(x), cx);
                    }
                }
                check!(cx, expect.next().is_none(), "{}: only {seen} children were yielded", label());
                far_verify::<A>(cx, &node, &want, &handles, &label);
                cx.nontrivial += 1;
            }
        }
    }
    let mut k = 0;
    for &a in &at {
        for &b in &at {
            k += 1;
            if b < a || !(a < 512 || b + 4 > n || b - a <= 2) || n > 2000 && (b - a > cx.tier.pick(3, 130) || k % 5 != (what + hold) % 5) {
                continue;
            }
            for fresh in [0, 2] {
                let label = || format!("{} {n} children, variant {what}, handles {hold}: {a}..{b} replaced by {fresh}", A::NAME);
                cx.case(label);
                let node = A::new_root_mut(green.clone());
                let handles = take(&node);
                A::splice(&node, a..b, (0..fresh).map(|_| NodeOrToken::Node(A::new_root_mut(N(60, vec![t(1, "new")]).green()))).collect());
                let mut want: Vec<usize> = (0..n).collect();
                want.splice(a..b, (0..fresh).map(|_| usize::MAX));
                far_verify::<A>(cx, &node, &want, &handles, &label);
                cx.nontrivial += 1;
            }
        }
    }
}

fn main() {
    mc::engine::main("C12", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        // unfiltered iterators: every sequence of actions
        let mut units = Vec::new();
        let top = if small() { 4 } else { tier.pick(5, 6) };
        for n in 0..=top {
            for mask in 0..1u64 << n {
                for variant in 0..2 {
                    for how in 0..4 {
                        if n > 4 && (variant == 0 || how == 2 || how == 1 && tier == Tier::Quick) {
                            continue;
                        }
                        units.push((n, mask, variant, how));
                    }
                }
            }
        }
        v.push(family("every-action", format!("nodes with up to {top} children (every choice of nodes and tokens), every set of live handles of a few patterns, every sequence of {ACTS:?} applied to the children as they are yielded"), units.len() as u64, move |cx, u| {
            let (n, mask, variant, how) = units[u as usize];
            let (e, at) = host(n, mask, variant);
            let kids = kids_of(&e, at);
            let held = holds(&kids, how);
            for it in [It::Nodes, It::All] {
                let len = if it == It::Nodes { mask.count_ones() } else { n as u32 };
                let mut acts: &[Act] = &ACTS;
                if len == 5 && cx.tier == Tier::Quick || len == 6 {
                    acts = &ACTS[1..7];
                }
                let k = acts.len() as u64;
                for code in 0..k.pow(len) {
                    let f = |i: usize| acts[(code / k.pow(i as u32) % k) as usize];
                    let c = Case {
                        e: &e, at, it, held: &held, acts: &f,
                        label: &|| format!("{:?}", (0..len as usize).map(f).collect::<Vec<_>>()),
                        gm: Gm::Direct,
                        mode: [Mode::Mut, Mode::Upd, Mode::Det][code as usize % 3],
                    };
                    cx.nontrivial += 1;
                    if n <= 3 {
                        run::<Cur>(cx, &c);
                        run::<Typ>(cx, &Case { gm: Gm::Built, ..c });
                    } else if code % 2 == 0 {
                        run::<Cur>(cx, &c);
                    } else {
                        run::<Typ>(cx, &c);
                    }
                }
            }
        }));
        // filtered iterators
        let mut units = Vec::new();
        let ftop = if small() { 3 } else { tier.pick(4, 5) };
        for n in 1..=ftop {
            for mask in 0..1u64 << n {
                for pick in 0..1u64 << n {
                    for taken in 0..=n {
                        units.push((n, mask, pick, taken));
                    }
                }
            }
        }
        v.push(family("filtered", format!("nodes with up to {ftop} children, every choice of nodes and tokens, every set of kinds accepted, filtered from the start or after any number of children; every sequence of actions out of 5"), units.len() as u64, move |cx, u| {
            let (n, mask, pick, taken) = units[u as usize];
            let (e, at) = host(n, mask, 1);
            let kids = kids_of(&e, at);
            let mut m = Model::default();
            m.add(&e);
            for it in [It::NodesBy(pick, taken), It::AllBy(pick, taken)] {
                let len = it.wants(&m, &kids).len() as u32;
                let acts = [Act::Detach, Act::Hold, Act::Replace, Act::Before, Act::DetachPrev];
                let k = acts.len() as u64;
                for code in 0..k.pow(len) {
                    let f = |i: usize| acts[(code / k.pow(i as u32) % k) as usize];
                    let held = holds(&kids, (code % 4) as usize);
                    let c = Case {
                        e: &e, at, it, held: &held, acts: &f,
                        label: &|| format!("{:?}", (0..len as usize).map(f).collect::<Vec<_>>()),
                        gm: Gm::Direct,
                        mode: Mode::Mut,
                    };
                    cx.nontrivial += 1;
                    if u % 2 == 0 { run::<Cur>(cx, &c) } else { run::<Typ>(cx, &c) }
                }
            }
        }));
        // every subset detached
        let stop = if small() { 7 } else { tier.pick(10, 13) };
        v.push(family("subsets", format!("nodes with up to {stop} children, three mixes of nodes and tokens, every subset detached while iterating, others dropped or held"), (stop as u64 + 1) * 3 * 4, move |cx, u| {
            let n = (u / 12) as usize;
            let mask = [!0, 0b0110_1101_0110, 0][(u % 3) as usize];
            let how = (u / 3 % 4) as usize;
            let (e, at) = host(n, mask, 1);
            let held = holds(&kids_of(&e, at), how);
            for set in 0..1u64 << n {
                for it in [It::Nodes, It::All, It::NodesBy(!0, 1), It::AllBy(!0 ^ 0b1010, 0)] {
                    let f = |i: usize| match (set >> i & 1 == 1, (set as usize + i) % 2 == 0) {
                        (true, true) => Act::Detach,
                        (true, false) => Act::DetachHold,
                        (false, true) => Act::Hold,
                        (false, false) => Act::Drop,
                    };
                    let c = Case {
                        e: &e, at, it, held: &held, acts: &f,
                        label: &|| format!("subset {set:b} detached"),
                        gm: Gm::Direct,
                        mode: Mode::Mut,
                    };
                    if set % 2 == 0 { run::<Cur>(cx, &c) } else { run::<Typ>(cx, &c) }
                }
            }
        }));
        // splices of every range
        let wtop = if small() { 6 } else { tier.pick(8, 10) };
        v.push(family("splice-ranges", format!("nodes with up to {wtop} children, every subset of them with live handles in both orders, every range removed (also beyond the end, empty and reversed ones), nothing or two fresh elements inserted"), (wtop as u64 + 1) * 3, move |cx, u| {
            let n = (u / 3) as usize;
            let mask = [!0, 0b0110_1101_0110, 0][(u % 3) as usize];
            let (e, at) = host(n, mask, 1);
            let kids = kids_of(&e, at);
            for set in 0..1u64 << n {
                let mut held: Vec<usize> = kids.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|x| *x.1).collect();
                if (set as usize ^ n) % 2 == 1 {
                    held.reverse();
                }
                for a in 0..=n + 1 {
                    for b in 0..=n + 2 {
                        // an empty range may be anywhere, and may be reversed
                        splice::<Cur>(cx, &e, at, &held, a, b, &[]);
                        if a <= n {
                            splice::<Typ>(cx, &e, at, &held, a, b, &[Ins::Fresh(1, true), Ins::Fresh(0, false)]);
                        }
                    }
                }
                for (a, b) in [(0, usize::MAX), (1, usize::MAX), (usize::MAX, usize::MAX), (usize::MAX, 0), (usize::MAX - 1, usize::MAX)] {
                    splice::<Typ>(cx, &e, at, &held, a, b, &[]);
                }
            }
        }));
        // small nodes in far places
        let ftop = if small() { 2 } else { tier.pick(3, 4) };
        let mut units = Vec::new();
        for n in 1..=ftop {
            for mask in 0..1u64 << n {
                for (k, far) in FAR.iter().chain(if tier == Tier::Thorough { FARTHER.iter() } else { [].iter() }).enumerate() {
                    let (e, at) = far.put(&host(n, mask, 0).0);
                    for how in 0..4 {
                        units.push((e.clone(), at, n, mask, how, k));
                    }
                }
            }
        }
        v.push(family("far", format!("nodes with up to {ftop} children (every choice of nodes and tokens) in far places {FAR:?}{}, live handles of a few patterns: every sequence of actions (of 5 for {ftop} children), every range spliced", if tier == Tier::Thorough { format!(" and {FARTHER:?}") } else { String::new() }), units.len() as u64, move |cx, u| {
            let (e, at, n, mask, how, _) = &units[u as usize];
            let held = holds(&kids_of(e, *at), *how);
            for it in [It::Nodes, It::All, It::NodesBy(0b0110, *how), It::AllBy(0b0110, *how)] {
                let nodes = matches!(it, It::Nodes | It::NodesBy(..));
                let len = if nodes { mask.count_ones() } else { *n as u32 };
                let acts: &[Act] = if *n == ftop { &ACTS[2..7] } else { &ACTS };
                let k = acts.len() as u64;
                for code in 0..k.pow(len) {
                    let f = |i: usize| acts[(code / k.pow(i as u32) % k) as usize];
                    let c = Case {
                        e, at: *at, it, held: &held, acts: &f,
                        label: &|| format!("{:?}", (0..len as usize).map(f).collect::<Vec<_>>()),
                        gm: Gm::Direct,
                        mode: Mode::Mut,
                    };
                    cx.nontrivial += 1;
                    if code % 2 == 0 { run::<Cur>(cx, &c) } else { run::<Typ>(cx, &c) }
                }
            }
            for a in 0..=*n {
                for b in a..=*n + 1 {
                    splice::<Cur>(cx, e, *at, &held, a, b, &[]);
                    splice::<Typ>(cx, e, *at, &held, a, b, &[Ins::Fresh(1, true), Ins::Fresh(0, false)]);
                }
            }
        }));
        // wide nodes
        let widths: Vec<usize> = (9..=34).chain([63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257]).collect();
        let w2 = widths.clone();
        v.push(family("wide", format!("nodes with {widths:?} children; all, every second, third, fifth, first or last k detached / replaced / moved while iterating; long ranges spliced"), widths.len() as u64 * 3, move |cx, u| {
            let n = w2[(u / 3) as usize];
            let mask = [!0, 0x5A5A_F00F_1234_8001, 0][(u % 3) as usize];
            let (e, at) = host(n, mask, 1);
            let kids = kids_of(&e, at);
            for how in 0..4 {
                let held = holds(&kids, how);
                for pat in 0..10usize {
                    for it in [It::Nodes, It::All, It::NodesBy(0xF0F0_FFFF_0FF0_AAAA, 2), It::AllBy(0xF0F0_FFFF_0FF0_AAAA, 0)] {
                        let f = |i: usize| match pat {
                            0 => Act::Detach,
                            1 => Act::DetachHold,
                            2 => Act::Replace,
                            3 => Act::Move,
                            4 if i % 2 == 0 => Act::Detach,
                            5 if i % 3 == 1 => Act::Detach,
                            6 if i > n / 2 => Act::Detach,
                            7 if i < n / 2 => Act::DetachHold,
                            8 => Act::Before,
                            9 => ACTS[i % 8],
                            _ => Act::Hold,
                        };
                        let c = Case {
                            e: &e, at, it, held: &held, acts: &f,
                            label: &|| format!("pattern {pat}"),
                            gm: Gm::Direct,
                            mode: Mode::Mut,
                        };
                        run::<Cur>(cx, &c);
                    }
                }
                for (a, b) in [(0, n), (0, n - 1), (1, n), (1, n - 1), (n / 2, n), (0, n / 2), (n - 1, n), (n / 3, n / 3 + 2), (2, n - 2)] {
                    splice::<Cur>(cx, &e, at, &held, a, b, &[]);
                    splice::<Typ>(cx, &e, at, &held, a, b, &[Ins::Fresh(1, true)]);
                }
            }
        }));
        let far: Vec<usize> = if small() { vec![1025, 65537] } else { tier.pick(vec![1025, 4097, 65537], vec![1025, 4097, 32769, 65535, 65536, 65537, 70001, 131073]) };
        v.push(family("very-wide", format!("nodes with {far:?} children (all tokens, all nodes, mixed): detached / replaced / preceded by a fresh element / previous one detached while iterating, at the ends, the middle and around powers of two (each set of places: all, the low, the high, each alone), with handles to these places alive or not; every range between these places (one end below 2^9 or near the end, or both ends at most 2 apart) spliced (short ranges beyond 2000 children)"), far.len() as u64 * 3 * 3, move |cx, u| {
            let n = far[(u / 9) as usize];
            very_wide::<Cur>(cx, n, u / 3 % 3, u % 3);
            if u % 3 != 2 && n < 65537 {
                very_wide::<Typ>(cx, n, u / 3 % 3, u % 3);
            }
        }));
        v
    })
}
