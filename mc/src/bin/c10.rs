//! C10: handle equality and hashing identify tree positions.
use mc::api::*;
use mc::check;
use mc::engine::{Cx, Family, Tier, family, hash_of};
use mc::model::*;
use mc::tree::*;
use mc::world::*;
use rowan::{Direction, NodeOrToken};
use std::collections::HashSet;

fn gptr<A: Api>(e: &E<A>) -> usize {
    match e {
        NodeOrToken::Node(n) => A::green_ptr(n),
        NodeOrToken::Token(t) => A::t_green_ptr(t),
    }
}

/// `a` is element `i` and `b` element `j` of one tree.
fn pair<A: Api>(cx: &mut Cx, a: &E<A>, i: usize, b: &E<A>, j: usize, what: &str) {
    cx.step();
    let eq = a == b;
    check!(cx, eq == (b == a), "{what}: == of elements {i} and {j} is not symmetric");
    check!(cx, eq != (a != b), "{what}: != of elements {i} and {j} disagrees with ==");
    // the specific handle types agree with the element type
    match (a, b) {
        (NodeOrToken::Node(x), NodeOrToken::Node(y)) => check!(cx, (x == y) == eq && (x != y) != eq && (hash_of(x) == hash_of(y) || !eq), "{what}: node == of {i} and {j}"),
        (NodeOrToken::Token(x), NodeOrToken::Token(y)) => check!(cx, (x == y) == eq && (x != y) != eq && (hash_of(x) == hash_of(y) || !eq), "{what}: token == of {i} and {j}"),
        _ => {}
    }
    if i == j {
        check!(cx, eq, "{what}: two handles to element {i} differ");
        check!(cx, hash_of(a) == hash_of(b), "{what}: two handles to element {i} hash differently");
    } else if eq {
        let same_place = r32(A::e_range(a)) == r32(A::e_range(b)) && gptr::<A>(a) == gptr::<A>(b);
        if same_place && A::e_range(a).is_empty() {
            cx.finding("zero-width-shared", || format!("{what}: handles to different elements {i} and {j} are equal: they are empty, at the same offset, and share their green data"));
        } else {
            cx.fail(format!("{what}: handles to different elements {i} and {j} are equal: {a:?} and {b:?}"));
        }
    }
}

/// Handles to element `id`, obtained in every way there is.
fn ways<A: Api>(root: &A::N, f: &Flat, id: usize) -> Vec<E<A>> {
    let mut v: Vec<E<A>> = (0..HOWS).map(|h| reach::<A>(root, f, id, h).expect("reached")).collect();
    v.push(v[0].clone());
    let m = &f.els[id];
    // from a child
    if let Some(&c) = m.children.first() {
        v.push(NodeOrToken::Node(A::e_parent(&reach::<A>(root, f, c, 0).unwrap()).expect("parent")));
    }
    // from the last descendant upwards
    let last = m.last - 1;
    if last != id && m.node {
        let e = reach::<A>(root, f, last, 3).unwrap();
        let up = f.path(last).len() - f.path(id).len() - f.els[last].node as usize * 0;
        let k = if f.els[last].node { up } else { up - 1 };
        v.push(NodeOrToken::Node(A::e_ancestors(&e).nth(k).expect("ancestor")));
    }
    let (sib, i) = f.siblings(id);
    if i > 0 {
        v.push(A::e_next(&reach::<A>(root, f, sib[i - 1], 1).unwrap()).expect("next sibling"));
    }
    if i + 1 < sib.len() {
        v.push(A::e_prev(&reach::<A>(root, f, sib[i + 1], 1).unwrap()).expect("previous sibling"));
    }
    match &v[0].clone() {
        NodeOrToken::Node(n) => {
            v.push(NodeOrToken::Node(A::siblings(n, Direction::Next).next().unwrap()));
            let p = A::preorder(n).next().unwrap();
            let (rowan::WalkEvent::Enter(p) | rowan::WalkEvent::Leave(p)) = p;
            v.push(NodeOrToken::Node(p));
            let raw = A::from_raw(A::to_raw(v[0].clone()));
            v.push(raw);
        }
        NodeOrToken::Token(k) => {
            if m.start < m.end {
                v.push(A::from_token(A::token_at_offset(root, m.start.into()).right_biased().unwrap()));
                v.push(A::from_token(A::token_at_offset(root, m.end.into()).left_biased().unwrap()));
                v.push(A::covering_element(root, range(m.start, m.end)));
                if let Some(n) = A::t_next_token(k) {
                    v.push(A::from_token(A::t_prev_token(&n).unwrap()));
                }
            }
            let raw = A::from_raw(A::to_raw(v[0].clone()));
            v.push(raw);
        }
    }
    v
}

fn tree<A: Api>(cx: &mut Cx, e: &El, f: &Flat, gm: Gm, mode: Mode) {
    cx.case(|| format!("{} {gm:?} {mode:?} {e:?}: all pairs of handles", A::NAME));
    let root = make::<A>(e, gm, mode);
    let all: Vec<Vec<E<A>>> = (0..f.len()).map(|id| ways::<A>(&root, f, id)).collect();
    for (i, a) in all.iter().enumerate() {
        for x in a {
            denotes::<A>(cx, f, x, i, "handle");
        }
        for (j, b) in all.iter().enumerate() {
            for x in a {
                for y in b {
                    pair::<A>(cx, x, i, y, j, "handles");
                }
            }
        }
        cx.nontrivial += 1;
    }
    // handles as keys
    let set: HashSet<E<A>> = all.iter().flatten().cloned().collect();
    let mut distinct = 0;
    for (i, a) in all.iter().enumerate() {
        check!(cx, set.contains(&a[0]), "a set of handles lost element {i}");
        distinct += (!all[..i].iter().any(|b| b[0] == a[0])) as usize;
    }
    check!(cx, set.len() == distinct, "a set of handles has {} elements, expected {distinct}", set.len());
    // dropping all but one of each changes nothing
    let one: Vec<E<A>> = all.into_iter().map(|mut v| v.swap_remove(v.len() / 2)).collect();
    drop(root);
    drop(set);
    for (i, x) in one.iter().enumerate() {
        denotes::<A>(cx, f, x, i, "the last handle");
        for (j, y) in one.iter().enumerate() {
            pair::<A>(cx, x, i, y, j, "the last handles");
        }
    }
}

/// All pairs among some elements of a large tree.
fn among<A: Api>(cx: &mut Cx, e: &El, f: &Flat, ids: &[usize], gm: Gm, mode: Mode) {
    cx.case(|| format!("{} {gm:?} {mode:?} {e:?}: all pairs of handles to elements {ids:?}", A::NAME));
    let root = make::<A>(e, gm, mode);
    let all: Vec<Vec<E<A>>> = ids.iter().map(|&id| ways::<A>(&root, f, id)).collect();
    for (&i, a) in ids.iter().zip(&all) {
        for x in a {
            denotes::<A>(cx, f, x, i, "handle");
        }
        for (&j, b) in ids.iter().zip(&all) {
            for x in a {
                for y in b {
                    pair::<A>(cx, x, i, y, j, "handles");
                }
            }
        }
        cx.nontrivial += 1;
    }
}

/// After edits of a small part of a large tree: all pairs among its elements and the live ones.
fn after_near<A: Api>(cx: &mut Cx, h: &History, base: usize, size: usize) {
    cx.case(|| h.describe(A::NAME));
    let (r, m) = h.run::<A>();
    let mut all: Vec<(E<A>, usize)> = Vec::new();
    for id in m.present() {
        if let Some(x) = &r.h[id] {
            all.push((x.clone(), id));
        } else if !(base..base + size).contains(&id) && m.els[base].parent != Some(id) && id < m.els.len() - 3 {
            continue;
        }
        all.push((r.reach(&m, id, 0), id));
        all.push((r.reach(&m, id, 6), id));
    }
    for (x, i) in &all {
        for (y, j) in &all {
            if m.root_of(*i) == m.root_of(*j) {
                pair::<A>(cx, x, *i, y, *j, "after edits");
            }
        }
    }
    cx.nontrivial += 1;
}

fn after<A: Api>(cx: &mut Cx, h: &History) {
    cx.case(|| h.describe(A::NAME));
    let (r, m) = h.run::<A>();
    for root in m.roots() {
        if m.live_near(root).is_none() {
            continue;
        }
        let ids = m.preorder(root);
        let mut all: Vec<(E<A>, usize)> = Vec::new();
        for &id in &ids {
            if let Some(x) = &r.h[id] {
                all.push((x.clone(), id));
            }
            all.push((r.reach(&m, id, 0), id));
            all.push((r.reach(&m, id, 6), id));
        }
        for (x, i) in &all {
            for (y, j) in &all {
                pair::<A>(cx, x, *i, y, *j, "after edits");
            }
        }
    }
    cx.state(&m);
}

fn main() {
    mc::engine::main("C10", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        let mut spaces = vec![
            ("small", TreeSpace::new(1, 5, &[1], &[(1, "a"), (2, ""), (1, "aa")]), &MODES[..]),
            ("shapes", TreeSpace::new(6, tier.pick(6, 7), &[1], &[(1, "a"), (1, "")]), &MODES[..3]),
        ];
        if tier == Tier::Thorough {
            spaces.push(("kinds", TreeSpace::new(1, 5, &[1, 2], &[(1, "a"), (2, "a"), (2, "")]), &MODES[..3]));
        }
        for (name, s, modes) in spaces {
            v.push(family(name, format!("all pairs of handles obtained in every way, with and without sharing, both interfaces; {}", s.describe()), s.count(), move |cx, i| {
                let e = s.get(i);
                cx.state(&e);
                let f = Flat::new(&e);
                for gm in GMS {
                    for &mode in modes {
                        tree::<Cur>(cx, &e, &f, gm, mode);
                        tree::<Typ>(cx, &e, &f, gm, mode);
                    }
                }
            }));
        }
        let s = TreeSpace::new(1, 4, &[1], &[(1, "a"), (2, "")]);
        let x = Edits { wide_ranges: false, pairs: false, fresh: 4, keep: true, handles: true, detach: true };
        v.push(family("after-edits", format!("all pairs of handles after every {} edits or handle operations, every set of live handles; {}", tier.pick("one or two", "one to three"), s.describe()), s.count() * 2, move |cx, i| {
            let e = s.get(i / 2);
            let gm = GMS[(i % 2) as usize];
            for sel in subsets(e.size(), 0) {
                if sel.is_empty() || e.size() == 4 && sel.len() < 3 && cx.tier == Tier::Quick {
                    continue;
                }
                let mut m = Model::default();
                m.add(&e);
                for &i in &sel {
                    m.els[i].live = true;
                }
                let depth = if e.size() <= 3 { cx.tier.pick(2, 3) } else { cx.tier.pick(1, 2) };
                go(cx, &e, gm, &sel, &m, x, depth, &mut vec![]);
            }
        }));
        let big = tier == Tier::Thorough;
        let fs = TreeSpace::new(1, tier.pick(3, 4), &[1], &[(2, "a"), (2, "")]);
        let places: Vec<Far> = FAR.iter().chain(if big { FARTHER.iter() } else { [].iter() }).copied().collect();
        let np = places.len() as u64;
        v.push(family("far", format!("pairs of handles obtained in every way to the elements of small trees in far places {places:?}, the node around them, their neighbours and some others; of mutable trees also after every edit of or around the small tree, with three sets of live handles; {}", fs.describe()), fs.count() * np, move |cx, i| {
            let small = fs.get(i / np);
            let (e, base) = places[(i % np) as usize].put(&small);
            let size = small.size();
            cx.state(&e);
            let f = Flat::new(&e);
            let mut ids: Vec<usize> = (base..base + size).collect();
            ids.extend([0, f.els[base].parent.unwrap(), f.len() - 1, 1]);
            let (sib, k) = f.siblings(base);
            ids.extend(sib.get(k + 1));
            ids.extend(k.checked_sub(1).map(|k| sib[k]));
            // as far as the last element but elsewhere, and at the same offset
            ids.extend((0..f.len()).filter(|&j| f.els[j].start == f.els[base].start && f.els[j].end == f.els[base].end).take(2));
            ids.sort();
            ids.dedup();
            for gm in GMS {
                for mode in [Mode::Imm, Mode::Mut, Mode::Upd] {
                    if (mode == Mode::Imm) == (gm == Gm::Direct) {
                        among::<Cur>(cx, &e, &f, &ids, gm, mode);
                    } else {
                        among::<Typ>(cx, &e, &f, &ids, gm, mode);
                    }
                }
            }
            for sel in [vec![0], (base..base + size).collect(), (base..base + size).rev().chain([0]).collect()] {
                let mut m = Model::default();
                m.add(&e);
                sel.iter().for_each(|&i| m.els[i].live = true);
                for op in far_edits(&m, m.els.len(), base, size, m.els[base].parent) {
                    if m.clone().apply(&op) {
                        let h = History { trees: &[e.clone()], gm: GMS[(i % 2) as usize], mode: Mode::Mut, order: &[sel.clone()], how: 0, ops: &[op] };
                        if i % 3 == 2 { after_near::<Typ>(cx, &h, base, size) } else { after_near::<Cur>(cx, &h, base, size) }
                    }
                }
            }
        }));
        let w: Vec<usize> = vec![5, 8, 17, 33, 64, 65, 129];
        let d: Vec<usize> = vec![5, 9, 17, 33, 64];
        let scale = scale_trees(&w, &d);
        v.push(family("scale", format!("all pairs of handles reached in two ways in large trees; widths {w:?}, depths {d:?}"), scale.len() as u64, move |cx, i| {
            let e = &scale[i as usize];
            cx.state(e);
            let f = Flat::new(e);
            for gm in GMS {
                for mode in [Mode::Imm, Mode::Mut] {
                    cx.case(|| format!("{gm:?} {mode:?} {e:?}"));
                    let root = make::<Cur>(e, gm, mode);
                    let a = handles::<Cur>(&root);
                    let b: Vec<_> = root.descendants_with_tokens().collect();
                    for (i, x) in a.iter().enumerate() {
                        for (j, y) in b.iter().enumerate() {
                            pair::<Cur>(cx, x, i, y, j, "large tree");
                        }
                    }
                    let _ = f.len();
                }
            }
        }));
        let wide: Vec<usize> = tier.pick(vec![300, 1025, 65537, 70000], vec![300, 513, 1025, 4097, 65535, 65537, 70000, 131073, 262145]);
        v.push(family("wide", format!("nodes with {wide:?} children (tokens without text or with text shared between them, nodes, mixed): handles to the children around the ends, the middle and powers of two, each against the others, its neighbours, and those 2^8 and 2^16 further on; a set of handles to all children"), wide.len() as u64 * 4 * 3, move |cx, i| {
            let n = wide[(i / 12) as usize];
            let what = i / 3 % 4;
            let (mode, typed) = [(Mode::Imm, false), (Mode::Mut, false), (Mode::Imm, true)][(i % 3) as usize];
            if mode == Mode::Mut && n > 2000 && what != 1 {
                // children of a mutable node cost time linear in the number of live siblings
                return;
            }
            cx.state(&(n, what, typed));
            let e = N(1, (0..n).map(|i| match what {
                0 => t(2, "a"),
                1 => N(3, vec![]),
                2 => if i % 2 == 0 { t(2, "") } else { N(3, vec![t(2, "b")]) },
                _ => N(3, vec![T(2, "a".into())]),
            }).collect());
            for gm in GMS {
                cx.case(|| format!("{gm:?} {mode:?} width {n} variant {what}"));
                if typed { far::<Typ>(cx, &e, gm, mode) } else { far::<Cur>(cx, &e, gm, mode) }
            }
        }));
        v
    })
}

fn far<A: Api>(cx: &mut Cx, e: &El, gm: Gm, mode: Mode) {
    let n = e.children().len();
    let root = make::<A>(e, gm, mode);
    let mut at = vec![0, 1, 2, n / 2, n - 2, n - 1];
    at.extend((7..20).map(|p| 1usize << p).flat_map(|p| [p - 1, p, p + 1]));
    at.retain(|&x| x < n);
    at.sort();
    at.dedup();
    let mut want = at.clone();
    for &i in &at {
        want.extend([i + 1, i + 256, i + 65536, i.wrapping_sub(1), i.wrapping_sub(256), i.wrapping_sub(65536)]);
    }
    want.retain(|&x| x < n);
    want.sort();
    want.dedup();
    let mut a: Vec<(usize, E<A>)> = Vec::new();
    let mut b: Vec<(usize, E<A>)> = Vec::new();
    let mut all = HashSet::new();
    let whole = mode == Mode::Imm;
    let mut w = want.iter().peekable();
    for (i, x) in A::children_with_tokens(&root).enumerate() {
        if w.peek() == Some(&&i) {
            w.next();
            a.push((i, x.clone()));
        }
        if whole && i < 70000 {
            all.insert(x);
        }
        if !whole && w.peek().is_none() {
            break;
        }
    }
    let mut x = A::last_child_or_token(&root);
    let mut i = n;
    let mut w = want.iter().rev().peekable();
    while let Some(y) = x {
        i -= 1;
        x = A::e_prev(&y);
        if w.peek() == Some(&&i) {
            w.next();
            b.push((i, y));
        }
        if w.peek().is_none() {
            break;
        }
    }
    b.reverse();
    check!(cx, a.len() == want.len() && b.len() == want.len(), "children found");
    for (x, y) in a.iter().zip(&b) {
        check!(cx, x.0 == y.0, "children found");
    }
    for (i, x) in &a {
        let full = at.binary_search(i).is_ok();
        for (j, y) in &b {
            let d = i.abs_diff(*j);
            if full || d <= 1 || d == 256 || d == 65536 {
                pair::<A>(cx, x, *i, y, *j, "wide node");
                cx.nontrivial += 1;
            }
        }
        if whole && *i < 70000 {
            check!(cx, all.contains(x), "a set of the handles to all children lost child {i}");
        }
    }
    if whole && e.children().iter().all(|c| c.len() > 0) {
        check!(cx, all.len() == n.min(70000), "a set of handles to {n} children has {} elements", all.len());
    }
}

fn go(cx: &mut Cx, e: &El, gm: Gm, sel: &[usize], m: &Model, x: Edits, depth: usize, ops: &mut Vec<Op>) {
    for op in edits(m, x) {
        let mut m2 = m.clone();
        if !m2.apply(&op) {
            continue;
        }
        ops.push(op);
        let h = History { trees: &[e.clone()], gm, mode: Mode::Mut, order: &[sel.to_vec()], how: 0, ops };
        if ops.len() % 2 == 0 { after::<Typ>(cx, &h) } else { after::<Cur>(cx, &h) }
        if depth > 1 {
            go(cx, e, gm, sel, &m2, x, depth - 1, ops);
        }
        ops.pop();
    }
}
