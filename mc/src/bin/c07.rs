//! C07: traversals enter and leave every element once, in order.
use mc::api::*;
use mc::engine::{Cx, Family, Tier, family};
use mc::model::*;
use mc::tree::*;
use mc::check_eq;
use rowan::{NodeOrToken, WalkEvent};

/// Events of a walk from `id`; `skip(k)` decides after the `k`-th enter.
fn events(f: &Flat, id: usize, tokens: bool, k: &mut usize, skip: &dyn Fn(usize) -> bool, out: &mut Vec<(bool, usize, bool)>) {
    let s = skip(*k);
    *k += 1;
    out.push((true, id, s));
    if !s {
        for &c in &f.els[id].children {
            if tokens || f.els[c].node {
                events(f, c, tokens, k, skip, out);
            }
        }
    }
    out.push((false, id, false));
}

fn walk<A: Api, X>(
    cx: &mut Cx,
    f: &Flat,
    mut w: impl Walk<X>,
    to_el: impl Fn(&X) -> E<A>,
    want: &[(bool, usize, bool)],
    hold: bool,
    full: bool,
    what: &str,
) {
    let mut held = Vec::new();
    for (i, &(enter, id, skip)) in want.iter().enumerate() {
        cx.step();
        let Some(ev) = w.next() else {
            cx.fail(format!("{what}: ends after {i} events, expected {} ({want:?})", want.len()))
        };
        let (got_enter, x) = match ev {
            WalkEvent::Enter(x) => (true, x),
            WalkEvent::Leave(x) => (false, x),
        };
        let e = to_el(&x);
        if got_enter != enter {
            cx.fail(format!("{what}: event {i}: got enter={got_enter} of {:?}, expected enter={enter} of element {id} ({want:?})", r32(A::e_range(&e))));
        }
        if full {
            denotes::<A>(cx, f, &e, id, what);
        } else {
            attrs::<A>(cx, f, &e, id, what);
        }
        if skip {
            w.skip_subtree();
        }
        if hold {
            held.push((x, id));
        }
    }
    for _ in 0..2 {
        if let Some(ev) = w.next() {
            let x = match ev {
                WalkEvent::Enter(x) | WalkEvent::Leave(x) => x,
            };
            cx.fail(format!("{what}: an event past the end, at {:?}", r32(A::e_range(&to_el(&x)))));
        }
    }
    for (x, id) in held {
        attrs::<A>(cx, f, &to_el(&x), id, what);
    }
}

fn skips<A: Api>(cx: &mut Cx, f: &Flat, n: &A::N, id: usize, mode: Mode, hold: bool, e: &El) {
    for tokens in [false, true] {
        // all decisions, as long as they differ in what is seen
        let max = f.els[id..f.els[id].last].iter().filter(|x| x.node || tokens).count();
        let mut bits = 0u64;
        while bits < 1 << max {
            let mut want = Vec::new();
            let mut k = 0;
            events(f, id, tokens, &mut k, &|k| bits >> (max - 1 - k) & 1 == 1, &mut want);
            cx.case(|| format!("{} {mode:?} {e:?} walk from element {id}, tokens={tokens}, skip after enters {bits:0max$b}, hold={hold}", A::NAME));
            cx.nontrivial += (bits != 0) as u64;
            cx.outcome(&want);
            if tokens {
                walk::<A, E<A>>(cx, f, A::preorder_with_tokens(n), |x| x.clone(), &want, hold, true, "preorder_with_tokens");
            } else {
                walk::<A, A::N>(cx, f, A::preorder(n), |x| NodeOrToken::Node(x.clone()), &want, hold, true, "preorder");
            }
            // decisions beyond the enters that happened make no difference
            bits += 1 << (max - k);
        }
    }
}

fn plain<A: Api>(cx: &mut Cx, f: &Flat, n: &A::N, id: usize, full: bool) {
    for tokens in [false, true] {
        let mut want = Vec::new();
        events(f, id, tokens, &mut 0, &|_| false, &mut want);
        let entered: Vec<usize> = want.iter().filter(|x| x.0).map(|x| x.1).collect();
        if tokens {
            if !full {
                walk::<A, E<A>>(cx, f, A::preorder_with_tokens(n), |x| x.clone(), &want, false, false, "preorder_with_tokens");
                let c = A::descendants_with_tokens(n).count();
                check_eq!(cx, c, entered.len(), "descendants_with_tokens of element {id}");
            } else {
                yields::<A>(cx, f, A::descendants_with_tokens(n), &entered, "descendants_with_tokens");
            }
        } else if !full {
            walk::<A, A::N>(cx, f, A::preorder(n), |x| NodeOrToken::Node(x.clone()), &want, false, false, "preorder");
            let c = A::descendants(n).count();
            check_eq!(cx, c, entered.len(), "descendants of element {id}");
        } else {
            yields::<A>(cx, f, A::descendants(n).map(NodeOrToken::Node), &entered, "descendants");
        }
    }
}

fn tree<A: Api>(cx: &mut Cx, e: &El, f: &Flat, modes: &[Mode]) {
    for gm in GMS {
        for &mode in modes {
            cx.case(|| format!("{} {gm:?} {mode:?} {e:?}: all walks", A::NAME));
            let root = make::<A>(e, gm, mode);
            for id in f.nodes() {
                let Some(NodeOrToken::Node(n)) = reach::<A>(&root, f, id, id % HOWS) else { cx.fail("not reached") };
                plain::<A>(cx, f, &n, id, true);
                skips::<A>(cx, f, &n, id, mode, false, e);
            }
            let hs = handles::<A>(&root);
            for id in f.nodes() {
                let NodeOrToken::Node(n) = &hs[id] else { unreachable!() };
                skips::<A>(cx, f, n, id, mode, true, e);
            }
        }
    }
}

/// All walks from the elements of a small tree that lies far away, and from the node it is in.
fn far<A: Api>(cx: &mut Cx, e: &El, place: Far, mode: Mode, gm: Gm) {
    let (big, base) = place.put(e);
    let f = Flat::new(&big);
    cx.state(&(e, format!("{place:?}"), mode.mutable()));
    let root = make::<A>(&big, gm, mode);
    let ids: Vec<usize> = (base..base + e.size()).filter(|&i| f.els[i].node).collect();
    let mut hs = Vec::new();
    for (k, &id) in ids.iter().enumerate() {
        cx.case(|| format!("{} {gm:?} {mode:?} element {} of {e:?} in {place:?}", A::NAME, id - base));
        let Some(NodeOrToken::Node(n)) = reach::<A>(&root, &f, id, [1, 2, 5, 0][k % 4]) else { cx.fail("not reached") };
        plain::<A>(cx, &f, &n, id, true);
        skips::<A>(cx, &f, &n, id, mode, k % 2 == 1, e);
        hs.push(n);
    }
    let p = f.els[base].parent.unwrap();
    let up = A::parent(&hs[0]).unwrap();
    cx.case(|| format!("{} {gm:?} {mode:?} the parent of {e:?} in {place:?}", A::NAME));
    plain::<A>(cx, &f, &up, p, false);
    plain::<A>(cx, &f, &up, p, true);
    cx.case(|| format!("{} {gm:?} {mode:?} the root with {e:?} in {place:?}", A::NAME));
    plain::<A>(cx, &f, &root, 0, false);
}

/// The provided methods of the traversals, also with a skip pending.
fn provided_all<A: Api>(cx: &mut Cx, e: &El, f: &Flat, mode: Mode) {
    let root = make::<A>(e, Gm::Direct, mode);
    for id in f.nodes() {
        let Some(h) = reach::<A>(&root, f, id, id % HOWS) else { cx.fail("not reached") };
        for tokens in [false, true] {
            let mut want = Vec::new();
            events(f, id, tokens, &mut 0, &|_| false, &mut want);
            let entered: Vec<usize> = want.iter().filter(|x| x.0).map(|x| x.1).collect();
            cx.case(|| format!("{} {mode:?} {e:?} from element {id}, tokens={tokens}", A::NAME));
            let how = |w: &[(bool, usize, bool)]| w.iter().map(|x| (if x.0 { 1 } else { 2 }, x.1)).collect::<Vec<_>>();
            provided::<A>(cx, f, &h, if tokens { It::ElDescendants } else { It::Descendants }, 0, &plainly(&entered), &|| "descendants".into());
            provided::<A>(cx, f, &h, if tokens { It::ElWalk(None) } else { It::Walk(None) }, 0, &how(&want), &|| "walk".into());
            for at in 0..entered.len() {
                let mut want = Vec::new();
                events(f, id, tokens, &mut 0, &|k| k == at, &mut want);
                let from = 1 + want.iter().position(|x| x.0 && x.1 == entered[at]).unwrap();
                cx.case(|| format!("{} {mode:?} {e:?} from element {id}, tokens={tokens}, skipping after event {from}", A::NAME));
                cx.nontrivial += 1;
                provided::<A>(cx, f, &h, if tokens { It::ElWalk(Some(from)) } else { It::Walk(Some(from)) }, from, &how(&want), &|| "walk".into());
            }
        }
    }
}

fn main() {
    mc::engine::main("C07", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        for (name, s, modes) in [
            ("small", TreeSpace::new(1, 5, &[1, 300], &[(1, "a"), (2, "")]), &MODES[..]),
            ("shapes", TreeSpace::new(6, tier.pick(7, 8), &[1], &[(1, "a")]), &MODES[..2]),
            ("empty", TreeSpace::new(6, tier.pick(6, 7), &[1], &[(1, "")]), &MODES[..2]),
        ] {
            v.push(family(name, format!("every tree, every start node, every set of skip points, with and without tokens, handles kept or dropped; {}", s.describe()), s.count(), move |cx, i| {
                let e = s.get(i);
                cx.state(&e);
                let f = Flat::new(&e);
                tree::<Cur>(cx, &e, &f, modes);
                tree::<Typ>(cx, &e, &f, modes);
            }));
        }
        for (name, s) in [
            ("provided-methods", TreeSpace::new(1, 5, &[1], &[(1, "a"), (2, "")])),
            ("provided-methods-of-shapes", TreeSpace::new(1, tier.pick(6, 7), &[1], &[(1, "a")])),
        ] {
            v.push(family(name, format!("nth, count, fold, size_hint and the other provided methods of every traversal from every point of its run, with every argument, also while a skip is pending; every start node; {}", s.describe()), s.count(), move |cx, i| {
                let e = s.get(i);
                cx.state(&e);
                let f = Flat::new(&e);
                for mode in [Mode::Imm, Mode::Mut] {
                    provided_all::<Cur>(cx, &e, &f, mode);
                    provided_all::<Typ>(cx, &e, &f, mode);
                }
            }));
        }
        let s = TreeSpace::new(1, 4, &[1], &[(2, "a"), (2, "")]);
        let places = tier.pick(FAR, FARTHER);
        v.push(family("far", format!("every set of skip points from every node of small trees placed far down, far behind other siblings or far into the text; {places:?}; {}", s.describe()), s.count() * 12, move |cx, i| {
            let e = s.get(i / 12);
            let (place, gm) = (places[(i % 6) as usize], GMS[(i / 12 % 2) as usize]);
            for mode in [Mode::Imm, Mode::Mut] {
                if i / 6 % 2 == 0 {
                    far::<Cur>(cx, &e, place, mode, gm);
                } else {
                    far::<Typ>(cx, &e, place, mode, gm);
                }
            }
        }));
        let w: Vec<usize> = (5..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1025]).collect();
        let d: Vec<usize> = (4..=70).chain([127, 128, 129, 255, 256, 257]).collect();
        let scale = scale_trees(&w, &d);
        v.push(family("scale", format!("plain walks and walks that skip after every k-th enter of large trees; widths {w:?}, depths {d:?}"), scale.len() as u64, move |cx, i| {
            let e = &scale[i as usize];
            cx.state(e);
            let f = Flat::new(e);
            for mode in [Mode::Imm, Mode::Mut] {
                cx.case(|| format!("{mode:?} {e:?}"));
                scaled::<Cur>(cx, e, &f, mode);
                scaled::<Typ>(cx, e, &f, mode);
            }
        }));
        // skipping in trees with many skippable nodes
        let w: Vec<usize> = vec![65535, 65537];
        let wide = scale_trees(&w, &[]);
        v.push(family("wide", format!("immutable trees with {w:?} children"), wide.len() as u64, move |cx, i| {
            let e = &wide[i as usize];
            cx.state(e);
            let f = Flat::new(e);
            cx.case(|| format!("{e:?}"));
            scaled::<Cur>(cx, e, &f, Mode::Imm);
        }));
        v
    })
}

fn scaled<A: Api>(cx: &mut Cx, e: &El, f: &Flat, mode: Mode) {
    let root = make::<A>(e, Gm::Built, mode);
    plain::<A>(cx, f, &root, 0, false);
    for k in [2, 3, 7] {
        cx.nontrivial += 1;
        for tokens in [false, true] {
            let mut want = Vec::new();
            events(f, 0, tokens, &mut 0, &|i| i % k == k - 1, &mut want);
            if tokens {
                walk::<A, E<A>>(cx, f, A::preorder_with_tokens(&root), |x| x.clone(), &want, false, false, "skipping preorder_with_tokens");
            } else {
                walk::<A, A::N>(cx, f, A::preorder(&root), |x| NodeOrToken::Node(x.clone()), &want, false, false, "skipping preorder");
            }
        }
    }
}
