//! C04: green edits are persistent and exact.
use mc::api::*;
use mc::engine::{Cx, Family, Tier, family, guard};
use mc::model::*;
use mc::tree::*;
use mc::{check, check_eq};
use rowan::{GreenNode, GreenNodeData, GreenToken, NodeOrToken, SyntaxKind};
use std::collections::VecDeque;
use std::ops::Bound;

fn deep_ok(cx: &mut Cx, g: &GreenNodeData, e: &El, what: &str) {
    cx.step();
    check!(cx, same_green(g, e), "{what}: got {:?}, expected {e:?}", El::read(g));
    lens_ok(cx, g, e, what);
}
fn lens_ok(cx: &mut Cx, g: &GreenNodeData, e: &El, what: &str) {
    check_eq!(cx, u32::from(g.text_len()), e.len(), "{what}: length of {e:?}");
    for (c, x) in g.children().zip(e.children()) {
        if let (NodeOrToken::Node(c), N(..)) = (c, x) {
            lens_ok(cx, c, x, what);
        }
    }
}
/// The same through a syntax tree on top: offsets inside the green node.
fn offsets_ok(cx: &mut Cx, g: &GreenNode, e: &El, what: &str) {
    let root = Cur::new_root(g.clone());
    same_tree::<Cur>(cx, &root, &Flat::new(e), what);
    // offsets used by range lookups
    let f = Flat::new(e);
    for &c in &f.els[0].children {
        let m = &f.els[c];
        if m.start < m.end {
            match root.child_or_token_at_range(range(m.start, m.end)) {
                Some(x) => attrs::<Cur>(cx, &f, &x, c, what),
                None => cx.fail(format!("{what}: child {c} of {e:?} is not found by its range")),
            }
        }
    }
}

fn fresh() -> Vec<El> {
    vec![t(5, "new"), t(5, ""), N(6, vec![]), N(6, vec![t(5, "é"), N(6, vec![t(5, "z")])])]
}

fn bounds(n: usize) -> Vec<(Bound<usize>, Bound<usize>)> {
    let mut v = Vec::new();
    use Bound::*;
    for a in 0..=n + 1 {
        for b in 0..=n + 1 {
            v.push((Included(a), Excluded(b)));
            v.push((Included(a), Included(b)));
            v.push((Excluded(a), Excluded(b)));
            v.push((Excluded(a), Included(b)));
        }
        v.push((Included(a), Unbounded));
        v.push((Excluded(a), Unbounded));
        v.push((Unbounded, Excluded(a)));
        v.push((Unbounded, Included(a)));
    }
    v.push((Unbounded, Unbounded));
    v
}
/// What a bound pair means for a list of `n`.
fn resolve(b: (Bound<usize>, Bound<usize>), n: usize) -> Option<(usize, usize)> {
    let s = match b.0 {
        Bound::Included(a) => a,
        Bound::Excluded(a) => a + 1,
        Bound::Unbounded => 0,
    };
    let e = match b.1 {
        Bound::Included(a) => a + 1,
        Bound::Excluded(a) => a,
        Bound::Unbounded => n,
    };
    (s <= e && e <= n).then_some((s, e))
}

/// All edits of one green node `g` that is element `e`.
fn edits(cx: &mut Cx, g: &GreenNodeData, e: &El, few: bool) {
    let N(k, c) = e else { return };
    let n = c.len();
    let mut subst = fresh();
    if few {
        subst.truncate(3);
    }
    let mut parts: Vec<(GreenEl, El)> = subst.iter().map(|x| (x.green_el(), x.clone())).collect();
    // something that is already in there, and the node itself
    if let (Some(gc), Some(ec)) = (g.children().next(), c.first()) {
        parts.push((gc.to_owned(), ec.clone()));
    }
    parts.push((g.to_owned().into(), e.clone()));
    let judge = |cx: &mut Cx, r: GreenNode, m: Vec<El>, what: String| {
        let m = N(*k, m);
        deep_ok(cx, &r, &m, &what);
        offsets_ok(cx, &r, &m, &what);
    };
    let positions: Vec<usize> =
        if few { vec![0, 1, n / 2, n.saturating_sub(1), n] } else { (0..=n).collect() };
    for &i in &positions {
        for (gx, x) in &parts {
            if i < n {
                cx.case(|| format!("replace child {i} of {e:?} by {x:?}"));
                let mut m = c.clone();
                m[i] = x.clone();
                judge(cx, g.replace_child(i, gx.clone()), m, format!("replace_child({i})"));
            }
            if i <= n {
                cx.case(|| format!("insert child {i} of {e:?}: {x:?}"));
                let mut m = c.clone();
                m.insert(i, x.clone());
                judge(cx, g.insert_child(i, gx.clone()), m, format!("insert_child({i})"));
            }
        }
        if i < n {
            cx.case(|| format!("remove child {i} of {e:?}"));
            let mut m = c.clone();
            m.remove(i);
            judge(cx, g.remove_child(i), m, format!("remove_child({i})"));
        }
    }
    let all = if few {
        let h = n / 2;
        use Bound::*;
        vec![
            (Included(0), Excluded(n)),
            (Included(h), Excluded(n)),
            (Included(0), Included(h.min(n.saturating_sub(1)))),
            (Included(h), Excluded(h)),
            (Included(n), Unbounded),
            (Unbounded, Excluded(h)),
        ]
    } else {
        bounds(n)
    };
    for b in all {
        for q in 0..4usize {
            let ins: Vec<(GreenEl, El)> = match q {
                0 => vec![],
                1 => vec![parts[0].clone()],
                2 => vec![parts[2].clone(), parts[parts.len() - 1].clone()],
                _ => vec![parts[1].clone(), parts[parts.len() - 2].clone(), parts[0].clone()],
            };
            cx.case(|| format!("splice {b:?} of {e:?} with {:?}", ins.iter().map(|x| &x.1).collect::<Vec<_>>()));
            let gi: Vec<GreenEl> = ins.iter().map(|x| x.0.clone()).collect();
            match resolve(b, n) {
                Some((s, t)) => {
                    cx.nontrivial += 1;
                    let mut m = c.clone();
                    m.splice(s..t, ins.iter().map(|x| x.1.clone()));
                    // an iterator that cannot tell its length
                    let r = if q % 2 == 0 {
                        g.splice_children(b, gi)
                    } else {
                        g.splice_children(b, gi.into_iter().filter(|_| true))
                    };
                    judge(cx, r, m, format!("splice_children({b:?}) with {q}"));
                }
                None => {
                    let r = guard(|| g.splice_children(b, gi));
                    check!(cx, r.is_none(), "splice_children({b:?}) of {n} children is accepted");
                }
            }
        }
    }
}

fn edit_everywhere(cx: &mut Cx, e: &El) {
    cx.state(e);
    for gm in GMS {
        let g = green(e, gm);
        // other owners of everything in it
        let parent = GreenNode::new(SyntaxKind(70), [g.clone().into(), GreenToken::new(SyntaxKind(71), "|").into(), g.clone().into()]);
        let pe = N(70, vec![e.clone(), t(71, "|"), e.clone()]);
        let root = Cur::new_root(g.clone());
        let hs = handles::<Cur>(&root);
        let f = Flat::new(e);
        for id in f.nodes() {
            let h = hs[id].as_node().unwrap();
            let sub = f.to_el(id);
            edits(cx, &h.green(), &sub, false);
        }
        deep_ok(cx, &g, e, "the node edited");
        deep_ok(cx, &parent, &pe, "an owner of the node edited");
        for (id, h) in hs.iter().enumerate() {
            attrs::<Cur>(cx, &f, h, id, "a syntax tree over the node edited");
        }
    }
}

fn substitute<A: Api>(cx: &mut Cx, e: &El, f: &Flat, ids: &[usize]) {
    for gm in GMS {
        for mode in MODES {
            let root = make::<A>(e, gm, mode);
            let hs = handles::<A>(&root);
            let before = A::green(&root);
            for &id in ids {
                let p = f.path(id);
                let k = f.els[id].kind;
                let news: Vec<El> = if f.els[id].node {
                    vec![N(k, vec![]), N(k, vec![t(5, "new"), N(6, vec![t(5, "é")])]), f.to_el(id), N(k, vec![f.to_el(id)])]
                } else {
                    vec![t(k, ""), t(k, "newer"), t(k, f.text_of(id))]
                };
                for new in news {
                    cx.case(|| format!("{} {gm:?} {mode:?} {e:?}: substitute {p:?} by {new:?}", A::NAME));
                    cx.nontrivial += (!p.is_empty()) as u64;
                    let want = if p.is_empty() {
                        new.clone()
                    } else {
                        let mut w = e.clone();
                        *w.at_mut(&p) = new.clone();
                        w
                    };
                    let got = match &hs[id] {
                        NodeOrToken::Node(n) => A::replace_with(n, new.green()),
                        NodeOrToken::Token(t) => {
                            let T(k, s) = &new else { unreachable!() };
                            A::t_replace_with(t, GreenToken::new(SyntaxKind(*k), s))
                        }
                    };
                    deep_ok(cx, &got, &want, "substitution");
                    if f.len() < 50 {
                        offsets_ok(cx, &got, &want, "substitution");
                    }
                }
            }
            deep_ok(cx, &before, e, "the green tree before");
            deep_ok(cx, &A::green(&root), e, "the tree substituted in");
            for (id, h) in hs.iter().enumerate() {
                attrs::<A>(cx, f, h, id, "a handle of the tree substituted in");
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum It {
    Next,
    Back,
    Nth(usize),
    NthBack(usize),
}

fn ids(it: impl Iterator<Item = rowan::NodeOrToken<&'static GreenNodeData, &'static rowan::GreenTokenData>>) -> Vec<u16> {
    it.map(|c| c.kind().0).collect()
}

/// All sequences of moves of the iterator, every observation after each.
fn iterate(cx: &mut Cx, it: rowan::Children<'static>, m: &VecDeque<u16>, moves: &[It], left: usize, trail: &mut Vec<It>) {
    cx.steps(12);
    cx.case(|| format!("{trail:?} on a node with children; left {m:?}"));
    let want: Vec<u16> = m.iter().copied().collect();
    let back: Vec<u16> = m.iter().rev().copied().collect();
    let n = want.len();
    check_eq!(cx, it.len(), n, "len after {trail:?}");
    check_eq!(cx, it.size_hint(), (n, Some(n)), "size_hint after {trail:?}");
    check_eq!(cx, it.clone().count(), n, "count after {trail:?}");
    check_eq!(cx, it.clone().last().map(|c| c.kind().0), want.last().copied(), "last after {trail:?}");
    check_eq!(cx, ids(it.clone()), want, "collect after {trail:?}");
    check_eq!(cx, ids(it.clone().rev()), back, "rev after {trail:?}");
    let mut acc = it.clone().fold(Vec::new(), |mut v, c| {
        v.push(c.kind().0);
        v
    });
    check_eq!(cx, acc, want, "fold after {trail:?}");
    acc = it.clone().rfold(Vec::new(), |mut v, c| {
        v.push(c.kind().0);
        v
    });
    check_eq!(cx, acc, back, "rfold after {trail:?}");
    for s in 1..=3 {
        let w: Vec<u16> = want.iter().copied().step_by(s).collect();
        check_eq!(cx, ids(it.clone().step_by(s)), w, "step_by({s}) after {trail:?}");
        let w: Vec<u16> = want.iter().copied().skip(s).collect();
        check_eq!(cx, ids(it.clone().skip(s)), w, "skip({s}) after {trail:?}");
        let w: Vec<u16> = back.iter().copied().skip(s).collect();
        check_eq!(cx, ids(it.clone().rev().skip(s)), w, "rev().skip({s}) after {trail:?}");
    }
    if n > 0 {
        cx.nontrivial += 1;
        let p = want[n / 2];
        let (l, r) = (want.iter().position(|&k| k == p), want.iter().rposition(|&k| k == p));
        check_eq!(cx, it.clone().position(|c| c.kind().0 == p), l, "position after {trail:?}");
        check_eq!(cx, it.clone().rposition(|c| c.kind().0 == p), r, "rposition after {trail:?}");
    }
    if left == 0 {
        return;
    }
    for &mv in moves {
        let mut it2 = it.clone();
        let mut m2 = m.clone();
        let (got, exp) = match mv {
            It::Next => (it2.next(), m2.pop_front()),
            It::Back => (it2.next_back(), m2.pop_back()),
            It::Nth(k) => (it2.nth(k), {
                m2.drain(..k.min(m2.len()));
                m2.pop_front()
            }),
            It::NthBack(k) => (it2.nth_back(k), {
                m2.truncate(m2.len() - k.min(m2.len()));
                m2.pop_back()
            }),
        };
        trail.push(mv);
        check_eq!(cx, got.map(|c| c.kind().0), exp, "{trail:?}");
        iterate(cx, it2, &m2, moves, left - 1, trail);
        trail.pop();
    }
}

fn main() {
    mc::engine::main("C04", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        let s = TreeSpace::new(1, tier.pick(5, 6), &[1], &[(1, "ab"), (2, "")]);
        v.push(family("edits", format!("every node, every edit by index and by every form of range, every kind of replacement, all owners re-read; {}", s.describe()), s.count(), move |cx, i| {
            edit_everywhere(cx, &s.get(i))
        }));
        let s = TreeSpace::new(1, tier.pick(5, 6), &[1, 2], &[(1, "ab"), (2, "")]);
        v.push(family("substitution", format!("every element substituted by every kind of replacement, through both interfaces, all kinds of trees; {}", s.describe()), s.count(), move |cx, i| {
            let e = s.get(i);
            cx.state(&e);
            let f = Flat::new(&e);
            let ids: Vec<usize> = (0..f.len()).collect();
            substitute::<Cur>(cx, &e, &f, &ids);
            substitute::<Typ>(cx, &e, &f, &ids);
        }));
        let w: Vec<usize> = (5..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 65535, 65536, 65537]).collect();
        let d: Vec<usize> = (4..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]).collect();
        let scale = std::sync::Arc::new(scale_trees(&w, &d));
        let sc = scale.clone();
        v.push(family("edits-at-scale", format!("root of large trees, at both ends and in the middle; widths {w:?}, depths {d:?}"), scale.len() as u64, move |cx, i| {
            let e = &sc[i as usize];
            cx.state(e);
            let g = e.green();
            let owner = GreenNode::new(SyntaxKind(70), [g.clone().into(), g.clone().into()]);
            edits(cx, &g, e, true);
            deep_ok(cx, &g, e, "the node edited");
            deep_ok(cx, &owner, &N(70, vec![e.clone(), e.clone()]), "an owner of the node edited");
        }));
        v.push(family("substitution-at-scale", format!("elements at both ends, in the middle and at the bottom of large trees of up to 600 elements; widths {w:?}, depths {d:?}"), scale.len() as u64, move |cx, i| {
            let e = &scale[i as usize];
            let f = Flat::new(e);
            if f.len() > 600 {
                return;
            }
            cx.state(e);
            let n = f.len();
            let deepest = (0..n).max_by_key(|&i| f.path(i).len()).unwrap();
            let mut ids = vec![0, 1, n / 3, n / 2, deepest, n - 1];
            ids.retain(|&i| i < n);
            ids.sort();
            ids.dedup();
            substitute::<Cur>(cx, e, &f, &ids);
            substitute::<Typ>(cx, e, &f, &ids);
        }));
        let depth = tier.pick(4, 5);
        v.push(family("children-iterator", format!("all sequences of up to {depth} of next, next_back, nth(0..3), nth_back(0..3) on 0..=7 children, every adaptor after each"), 8 * 8, move |cx, i| {
            let n = (i / 8) as u16;
            let moves = [It::Next, It::Back, It::Nth(0), It::Nth(1), It::Nth(2), It::NthBack(0), It::NthBack(1), It::NthBack(2)];
            let g = GreenNode::new(SyntaxKind(0), (0..n).map(|k| if k % 3 == 2 { N(k, vec![t(3, "x")]).green_el() } else { t(k, "x").green_el() }).collect::<Vec<_>>());
            cx.state(&i);
            // all handles below are dropped before `g`
            let data: &'static GreenNodeData = unsafe { &*(&*g as *const GreenNodeData) };
            let mut it = data.children();
            let mut m: VecDeque<u16> = (0..n).collect();
            let first = moves[(i % 8) as usize];
            let (got, exp) = match first {
                It::Next => (it.next(), m.pop_front()),
                It::Back => (it.next_back(), m.pop_back()),
                It::Nth(k) => (it.nth(k), { m.drain(..k.min(m.len())); m.pop_front() }),
                It::NthBack(k) => (it.nth_back(k), { m.truncate(m.len() - k.min(m.len())); m.pop_back() }),
            };
            check_eq!(cx, got.map(|c| c.kind().0), exp, "{first:?} on {n} children");
            if i % 8 == 0 {
                iterate(cx, data.children(), &(0..n).collect(), &[], 0, &mut vec![]);
            }
            iterate(cx, it, &m, &moves, depth - 1, &mut vec![first]);
        }));
        let w: Vec<usize> = (8..=70).chain([127, 128, 129, 255, 256, 257, 300, 511, 513, 1023, 1025, 65535, 65536, 65537, 100_001]).collect();
        v.push(family("wide-iterator", format!("nodes with {w:?} children: every adaptor, and every two of next, next_back, nth(k), nth_back(k) with k at the ends, in the middle and around powers of two"), w.len() as u64, move |cx, i| {
            let n = w[i as usize];
            let g = GreenNode::new(SyntaxKind(0), (0..n).map(|k| if k % 5 == 4 { N(k as u16, vec![]).green_el() } else { t(k as u16, "x").green_el() }).collect::<Vec<_>>());
            cx.state(&n);
            // all handles below are dropped before `g`
            let data: &'static GreenNodeData = unsafe { &*(&*g as *const GreenNodeData) };
            let mut at: Vec<usize> = vec![0, 1, n / 2, n - 2, n - 1, n, n + 1];
            if n < 2000 {
                at.extend((2..11).flat_map(|b| [(1 << b) - 1, 1 << b, (1 << b) + 1]).filter(|&k| k < n));
            }
            at.sort();
            at.dedup();
            let mut moves = vec![It::Next, It::Back];
            moves.extend(at.iter().flat_map(|&k| [It::Nth(k), It::NthBack(k)]));
            let (depth, moves) = if n <= 70 { (2, moves) } else { (1, moves) };
            iterate(cx, data.children(), &(0..n).map(|k| k as u16).collect(), &moves, depth, &mut vec![]);
        }));
        v
    })
}
