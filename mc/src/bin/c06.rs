//! C06: navigation agrees with the tree from every element.
use mc::api::*;
use mc::engine::{Cx, Family, Tier, family};
use mc::model::*;
use mc::tree::*;
use rowan::{Direction, NodeOrToken};

/// The token next to the end of `id`'s subtree, or before its start.
fn token_after(f: &Flat, id: usize) -> Option<usize> {
    (f.els[id].last..f.len()).find(|&i| !f.els[i].node)
}
fn token_before(f: &Flat, id: usize) -> Option<usize> {
    (0..id).rev().find(|&i| !f.els[i].node)
}

/// Every navigation step from one element.
fn steps<A: Api>(cx: &mut Cx, f: &Flat, e: &E<A>, id: usize, kinds: &[u16]) {
    let m = &f.els[id];
    let (sib, pos) = f.siblings(id);
    let after = &sib[pos + 1..];
    let before: Vec<usize> = sib[..pos].iter().rev().copied().collect();
    let is_node = |&&i: &&usize| f.els[i].node;
    let mut anc = Vec::new();
    let mut p = m.parent;
    while let Some(x) = p {
        anc.push(x);
        p = f.els[x].parent;
    }
    let mut self_anc = vec![id];
    self_anc.extend(&anc);

    denotes::<A>(cx, f, e, id, "the element itself");
    opt_node::<A>(cx, f, A::e_parent(e), m.parent, "element parent");
    mc::check_eq!(cx, A::e_kind(e), m.kind, "element kind");
    mc::check_eq!(cx, r32(A::e_range(e)), (m.start, m.end), "element text_range");
    opt_is::<A>(cx, f, A::e_next(e), after.first().copied(), "element next_sibling_or_token");
    opt_is::<A>(cx, f, A::e_prev(e), before.first().copied(), "element prev_sibling_or_token");
    for &k in kinds {
        let want = after.iter().copied().find(|&i| f.els[i].kind == k);
        if let Some(got) = A::e_next_by_kind(e, &|x| x == k) {
            opt_is::<A>(cx, f, got, want, "element next_sibling_or_token_by_kind");
        }
    }
    let range = if m.node { id..m.last } else { id..id + 1 };
    let first = range.clone().find(|&i| !f.els[i].node);
    let last = range.rev().find(|&i| !f.els[i].node);
    if let Some(got) = A::e_first_token(e) {
        opt_token::<A>(cx, f, got, first, "element first_token");
    }
    if let Some(got) = A::e_last_token(e) {
        opt_token::<A>(cx, f, got, last, "element last_token");
    }
    let e_anc: &[usize] = if m.node { &self_anc } else { &anc };
    yields::<A>(cx, f, A::e_ancestors(e).map(NodeOrToken::Node), e_anc, "element ancestors");

    match e {
        NodeOrToken::Node(n) => {
            let ch = &m.children;
            let nodes = |v: &[usize]| v.iter().copied().filter(|&i| f.els[i].node).collect::<Vec<_>>();
            opt_node::<A>(cx, f, A::parent(n), m.parent, "parent");
            yields::<A>(cx, f, A::ancestors(n).map(NodeOrToken::Node), &self_anc, "ancestors");
            opt_node::<A>(cx, f, A::first_child(n), ch.iter().find(is_node).copied(), "first_child");
            opt_node::<A>(cx, f, A::last_child(n), ch.iter().rev().find(is_node).copied(), "last_child");
            opt_is::<A>(cx, f, A::first_child_or_token(n), ch.first().copied(), "first_child_or_token");
            opt_is::<A>(cx, f, A::last_child_or_token(n), ch.last().copied(), "last_child_or_token");
            opt_node::<A>(cx, f, A::next_sibling(n), after.iter().find(is_node).copied(), "next_sibling");
            opt_node::<A>(cx, f, A::prev_sibling(n), before.iter().find(is_node).copied(), "prev_sibling");
            opt_is::<A>(cx, f, A::next_sibling_or_token(n), after.first().copied(), "next_sibling_or_token");
            opt_is::<A>(cx, f, A::prev_sibling_or_token(n), before.first().copied(), "prev_sibling_or_token");
            for &k in kinds {
                for neg in [false, true] {
                    let m = |x: u16| (x == k) != neg;
                    let ok = |&&i: &&usize| m(f.els[i].kind);
                    let okn = |&&i: &&usize| m(f.els[i].kind) && f.els[i].node;
                    let w = ch.iter().find(okn).copied();
                    opt_node::<A>(cx, f, A::first_child_by_kind(n, &m), w, "first_child_by_kind");
                    let w = ch.iter().find(ok).copied();
                    opt_is::<A>(cx, f, A::first_child_or_token_by_kind(n, &m), w, "first_child_or_token_by_kind");
                    let w = after.iter().find(okn).copied();
                    opt_node::<A>(cx, f, A::next_sibling_by_kind(n, &m), w, "next_sibling_by_kind");
                    let w = after.iter().find(ok).copied();
                    opt_is::<A>(cx, f, A::next_sibling_or_token_by_kind(n, &m), w, "next_sibling_or_token_by_kind");
                }
            }
            opt_token::<A>(cx, f, A::first_token(n), first, "first_token");
            opt_token::<A>(cx, f, A::last_token(n), last, "last_token");
            let mut nx = vec![id];
            nx.extend(nodes(after));
            yields::<A>(cx, f, A::siblings(n, Direction::Next).map(NodeOrToken::Node), &nx, "siblings(Next)");
            let mut nx = vec![id];
            nx.extend(nodes(&before));
            yields::<A>(cx, f, A::siblings(n, Direction::Prev).map(NodeOrToken::Node), &nx, "siblings(Prev)");
            let mut nx = vec![id];
            nx.extend(after);
            yields::<A>(cx, f, A::siblings_with_tokens(n, Direction::Next), &nx, "siblings_with_tokens(Next)");
            let mut nx = vec![id];
            nx.extend(&before);
            yields::<A>(cx, f, A::siblings_with_tokens(n, Direction::Prev), &nx, "siblings_with_tokens(Prev)");
            // children, once without keeping and once keeping all handles
            yields::<A>(cx, f, A::children_with_tokens(n), ch, "children_with_tokens");
            yields::<A>(cx, f, A::children(n).map(NodeOrToken::Node), &nodes(ch), "children");
        }
        NodeOrToken::Token(n) => {
            opt_node::<A>(cx, f, A::t_parent(n), m.parent, "token parent");
            for it in A::t_ancestors(n) {
                yields::<A>(cx, f, it.map(NodeOrToken::Node), &anc, "token ancestors");
            }
            opt_is::<A>(cx, f, A::t_next_sibling_or_token(n), after.first().copied(), "token next_sibling_or_token");
            opt_is::<A>(cx, f, A::t_prev_sibling_or_token(n), before.first().copied(), "token prev_sibling_or_token");
            for &k in kinds {
                let want = after.iter().copied().find(|&i| f.els[i].kind == k);
                if let Some(got) = A::t_next_sibling_or_token_by_kind(n, &|x| x == k) {
                    opt_is::<A>(cx, f, got, want, "token next_sibling_or_token_by_kind");
                }
            }
            let mut nx = vec![id];
            nx.extend(after);
            yields::<A>(cx, f, A::t_siblings_with_tokens(n, Direction::Next), &nx, "token siblings_with_tokens(Next)");
            let mut nx = vec![id];
            nx.extend(&before);
            yields::<A>(cx, f, A::t_siblings_with_tokens(n, Direction::Prev), &nx, "token siblings_with_tokens(Prev)");
            opt_token::<A>(cx, f, A::t_next_token(n), token_after(f, id), "next_token");
            opt_token::<A>(cx, f, A::t_prev_token(n), token_before(f, id), "prev_token");
        }
    }
}

fn all_elements<A: Api>(cx: &mut Cx, e: &El, gm: Gm, mode: Mode, kinds: &[u16], hows: usize) {
    let f = Flat::new(e);
    cx.case(|| format!("{} {gm:?} {mode:?} {e:?}", A::NAME));
    cx.state(&(e, mode.mutable()));
    if f.tokens().count() < f.len() - 1 && f.len() > 2 {
        cx.nontrivial += 1;
    }
    let root = make::<A>(e, gm, mode);
    // one element at a time, nothing else alive but the root
    for id in 0..f.len() {
        for how in 0..hows {
            let Some(h) = reach::<A>(&root, &f, id, how) else {
                cx.fail(format!("element {id} not reached along path variant {how}"))
            };
            steps::<A>(cx, &f, &h, id, kinds);
        }
    }
    // all handles alive
    let hs = handles::<A>(&root);
    mc::check_eq!(cx, hs.len(), f.len(), "number of elements reached");
    for (id, h) in hs.iter().enumerate() {
        steps::<A>(cx, &f, h, id, kinds);
    }
    // the root dropped: a handle alone keeps everything reachable
    drop(root);
    let last = hs.len() - 1;
    let h = hs[last].clone();
    drop(hs);
    steps::<A>(cx, &f, &h, last, kinds);
}

/// Token stepping over the whole tree, from either end.
fn token_walk<A: Api>(cx: &mut Cx, e: &El, gm: Gm, mode: Mode) {
    let f = Flat::new(e);
    cx.case(|| format!("token walk {} {gm:?} {mode:?} {e:?}", A::NAME));
    let root = make::<A>(e, gm, mode);
    let toks: Vec<usize> = f.tokens().collect();
    let n = toks.len() + 2;
    let fw = std::iter::successors(A::first_token(&root), |t| A::t_next_token(t)).take(n);
    yields::<A>(cx, &f, fw.map(NodeOrToken::Token), &toks, "tokens forward");
    let rev: Vec<usize> = toks.iter().rev().copied().collect();
    let bw = std::iter::successors(A::last_token(&root), |t| A::t_prev_token(t)).take(n);
    yields::<A>(cx, &f, bw.map(NodeOrToken::Token), &rev, "tokens backward");
}

/// Steps from the root and the given children of it.
fn selected<A: Api>(cx: &mut Cx, e: &El, mode: Mode, at: &[usize], kinds: &[u16]) {
    let f = Flat::new(e);
    cx.state(&(e, mode.mutable()));
    let root = make::<A>(e, Gm::Direct, mode);
    let all = A::children_with_tokens(&root).enumerate();
    let hs: Vec<E<A>> = all.filter(|(i, _)| at.contains(i)).map(|x| x.1).collect();
    cx.case(|| format!("{} {mode:?} root of {e:?}", A::NAME));
    steps::<A>(cx, &f, &NodeOrToken::Node(root.clone()), 0, kinds);
    for (h, &i) in hs.iter().zip(at) {
        cx.case(|| format!("{} {mode:?} child {i} of {e:?}", A::NAME));
        let id = f.els[0].children[i];
        steps::<A>(cx, &f, h, id, kinds);
        cx.nontrivial += 1;
    }
    token_walk::<A>(cx, e, Gm::Direct, mode);
}

/// Steps from every element of a small tree that lies far away, and from what is next to it.
fn far<A: Api>(cx: &mut Cx, e: &El, place: Far, mode: Mode, gm: Gm, kinds: &[u16]) {
    let (big, base) = place.put(e);
    let f = Flat::new(&big);
    cx.state(&(e, format!("{place:?}"), mode.mutable()));
    let root = make::<A>(&big, gm, mode);
    let ids: Vec<usize> = (f.els[base].parent.unwrap()..=base).rev().take(2).chain(base + 1..=(base + e.size()).min(f.len() - 1)).collect();
    let mut hs = Vec::new();
    for (k, &id) in ids.iter().enumerate() {
        cx.case(|| format!("{} {gm:?} {mode:?} element {} of {e:?} in {place:?}", A::NAME, id as isize - base as isize));
        let Some(h) = reach::<A>(&root, &f, id, [1, 2, 5, 0][k % 4]) else { cx.fail("not reached") };
        steps::<A>(cx, &f, &h, id, kinds);
        hs.push(h);
        cx.nontrivial += 1;
    }
    // all alive, and the root gone
    drop(root);
    for (h, &id) in hs.iter().zip(&ids) {
        cx.case(|| format!("{} {gm:?} {mode:?} element {} of {e:?} in {place:?}, all alive", A::NAME, id as isize - base as isize));
        steps::<A>(cx, &f, h, id, kinds);
    }
}

/// The provided methods of the iterators over ancestors.
fn provided_all<A: Api>(cx: &mut Cx, e: &El, mode: Mode) {
    let f = Flat::new(e);
    let root = make::<A>(e, Gm::Direct, mode);
    for id in 0..f.len() {
        let Some(h) = reach::<A>(&root, &f, id, id % HOWS) else { cx.fail("not reached") };
        cx.case(|| format!("{} {mode:?} {e:?} ancestors of element {id}", A::NAME));
        let line: Vec<usize> = std::iter::successors(if f.els[id].node { Some(id) } else { f.els[id].parent }, |&i| f.els[i].parent).collect();
        cx.nontrivial += 1;
        provided::<A>(cx, &f, &h, It::Ancestors, 0, &plainly(&line), &|| "ancestors".into());
        provided::<A>(cx, &f, &h, It::ElAncestors, 0, &plainly(&line), &|| "ancestors of the element".into());
    }
}

fn both(cx: &mut Cx, e: &El, modes: &[Mode], kinds: &[u16], hows: usize) {
    for gm in GMS {
        for &mode in modes {
            all_elements::<Cur>(cx, e, gm, mode, kinds, hows);
            all_elements::<Typ>(cx, e, gm, mode, kinds, hows);
            token_walk::<Cur>(cx, e, gm, mode);
            token_walk::<Typ>(cx, e, gm, mode);
        }
    }
}

fn main() {
    mc::engine::main("C06", |tier: Tier| -> Vec<Family> {
        let kinds: &[u16] = &[1, 2, 5];
        let small = TreeSpace::new(1, 5, &[1, 2], &[(1, "a"), (2, "")]);
        let big = TreeSpace::new(1, tier.pick(6, 7), &[1], &[(2, "a")]);
        let big_texts = TreeSpace::new(6, 6, &[1], &[(2, "a"), (1, "")]);
        let mut v = vec![
            family("kinds-and-empties", small.describe(), small.count(), move |cx, i| {
                both(cx, &small.get(i), &MODES, kinds, HOWS)
            }),
            family("shapes", big.describe(), big.count(), move |cx, i| {
                both(cx, &big.get(i), &[Mode::Imm, Mode::Mut], &[1, 2], HOWS)
            }),
            family("shapes-with-empty-tokens", big_texts.describe(), big_texts.count(), move |cx, i| {
                both(cx, &big_texts.get(i), &[Mode::Imm, Mode::Mut], &[1, 2], 1)
            }),
        ];
        let s = TreeSpace::new(1, 5, &[1], &[(2, "a")]);
        v.push(family("provided-methods", format!("nth, count, fold, size_hint and the other provided methods of every iterator over ancestors from every point of its run, with every argument; {}", s.describe()), s.count(), move |cx, i| {
            let e = s.get(i);
            for mode in [Mode::Imm, Mode::Mut] {
                provided_all::<Cur>(cx, &e, mode);
                provided_all::<Typ>(cx, &e, mode);
            }
        }));
        let scale = scale_trees(&[7, 8, 9, 16, 17, 33, 64, 65, tier.pick(70, 260)], &[2, 9, tier.pick(24, 70)]);
        let what = format!("{} wide, deep and mixed trees", scale.len());
        v.push(family("scale", what, scale.len() as u64, move |cx, i| {
            both(cx, &scale[i as usize], &[Mode::Imm, Mode::Mut], &[3, 11], 1)
        }));
        let s = TreeSpace::new(1, 4, &[1], &[(2, "a"), (2, "")]);
        let places = tier.pick(FAR, FARTHER);
        let n = s.count();
        v.push(family("far", format!("every element of small trees placed far down, far behind other siblings or far into the text, and its neighbours: {places:?}; {}", s.describe()), n * 6 * 2, move |cx, i| {
            let e = s.get(i / 12);
            let place = places[(i % 6) as usize];
            let kinds: &[u16] = &[1, 2, 24];
            if i / 6 % 2 == 0 {
                far::<Cur>(cx, &e, place, Mode::Imm, GMS[(i / 12 % 2) as usize], kinds);
                far::<Cur>(cx, &e, place, Mode::Mut, GMS[(i / 12 % 2) as usize], kinds);
            } else {
                far::<Typ>(cx, &e, place, Mode::Imm, GMS[(i / 12 % 2) as usize], kinds);
                far::<Typ>(cx, &e, place, Mode::Mut, GMS[(i / 12 % 2) as usize], kinds);
            }
        }));
        let w = [127, 128, 129, 255, 256, 257, 300, 511, 513, 1025, 65535, 65536, 65537];
        let wide = scale_trees(&w, &[]);
        v.push(family("wide", format!("the root and the elements at both ends, in the middle and around powers of two of trees with {w:?} children (mutable ones up to 1025)"), wide.len() as u64 * 4, move |cx, i| {
            let e = &wide[i as usize / 4];
            let mode = [Mode::Imm, Mode::Mut][i as usize % 2];
            let n = e.children().len();
            if mode == Mode::Mut && n > 2000 {
                return;
            }
            let mut at: Vec<usize> = vec![0, 1, 2, n / 2, n - 3, n - 2, n - 1];
            let b: Vec<usize> = if n > 2000 { vec![8, 16] } else { (4..11).collect() };
            at.extend(b.iter().flat_map(|b| [(1 << b) - 1, 1 << b, (1 << b) + 1]).filter(|&k| k < n));
            at.sort();
            at.dedup();
            let kinds: &[u16] = if n > 2000 { &[] } else { &[3, 11] };
            if i / 2 % 2 == 0 {
                selected::<Cur>(cx, e, mode, &at, kinds)
            } else {
                selected::<Typ>(cx, e, mode, &at, kinds)
            }
        }));
        v
    })
}
