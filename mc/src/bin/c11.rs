//! C11: edits of a mutable tree are seen consistently by every live handle.
use mc::api::*;
use mc::check;
use mc::huge::{self, D};
use rowan::NodeOrToken;
use std::rc::Rc;
use mc::engine::{Cx, Family, Tier, family, guard, small};
use mc::model::*;
use mc::tree::*;
use mc::world::*;

/// Executes the history; its last step may have to be refused.
fn one<A: Api>(cx: &mut Cx, h: &History) -> bool {
    cx.case(|| h.describe(A::NAME));
    let (mut r, mut m) = h.start::<A>();
    for (i, op) in h.ops.iter().enumerate() {
        let before = m.clone();
        if m.apply(op) {
            r.exec(&before, op);
            cx.step();
        } else {
            debug_assert_eq!(i + 1, h.ops.len());
            let done = guard(|| r.exec(&before, op));
            cx.step();
            check!(cx, done.is_none(), "{op:?} is accepted, expected a panic");
            return false;
        }
    }
    cx.state(&m);
    r.verify(cx, &m, "after the history");
    true
}

/// All sequences of `depth` edits.
fn sequences<A: Api>(cx: &mut Cx, trees: &[El], gm: Gm, mode: Mode, order: &[Vec<usize>], how: usize, m: &Model, depth: usize, x: Edits, ops: &mut Vec<Op>) {
    for op in edits(m, x) {
        // acquiring and dropping show only in what follows
        if depth == 1 && matches!(op, Op::Drop(_)) {
            continue;
        }
        let mut m2 = m.clone();
        let ok = m2.apply(&op);
        ops.push(op);
        if ops.len() > 1 {
            cx.nontrivial += 1;
        }
        one::<A>(cx, &History { trees, gm, mode, order, how, ops });
        if ok && depth > 1 {
            sequences::<A>(cx, trees, gm, mode, order, how, &m2, depth - 1, x, ops);
        }
        ops.pop();
    }
}

fn start(trees: &[El], order: &[Vec<usize>]) -> Model {
    let mut m = Model::default();
    for t in trees {
        m.add(t);
    }
    for o in order {
        for &i in o {
            m.els[i].live = true;
        }
    }
    m
}

fn explore<A: Api>(cx: &mut Cx, trees: &[El], gm: Gm, mode: Mode, order: &[Vec<usize>], how: usize, depth: usize, x: Edits) {
    let m = start(trees, order);
    one::<A>(cx, &History { trees, gm, mode, order, how, ops: &[] });
    sequences::<A>(cx, trees, gm, mode, order, how, &m, depth, x, &mut vec![]);
}

/// Texts and kinds by position, so that elements are told apart.
fn named(e: &El, n: &mut u16, dup: bool) -> El {
    *n += 1;
    let k = *n;
    match e {
        N(_, c) => N(if dup { 1 } else { nth_kind(k) }, c.iter().map(|x| named(x, n, dup)).collect()),
        T(..) if dup => t(2, "a"),
        T(..) => t(nth_kind(k), ["a", "bc", "", "def", "é"][k as usize % 5]),
    }
}

/// Where a handle is: in which tree, at which path.
type Place = (usize, Vec<usize>);

/// Edits of trees about as long as an offset can count, with handles along their edges.
fn huge_edits<A: Api>(cx: &mut Cx, name: &str, d: &Rc<D>, green: &rowan::GreenNode, depth: usize, script: &[(usize, usize, usize)]) {
    cx.case(|| format!("{} {name}, {} bytes: edits {script:?} (operation, from, to) of the node at depth {depth}", A::NAME, d.len));
    cx.state(&(name, d.len, depth, script));
    let root = A::new_root_mut(green.clone());
    let mut trees: Vec<Rc<D>> = vec![d.clone()];
    let mut held: Vec<(E<A>, Place)> = vec![(NodeOrToken::Node(root.clone()), (0, vec![]))];
    let mut target: Option<(A::N, Place)> = None;
    for p in d.paths().iter().take(12) {
        for (i, h) in huge::reach::<A>(&root, d, p, i32::from(p.len() % 2 == 0) as usize).into_iter().enumerate() {
            if i == depth && target.is_none() {
                if let NodeOrToken::Node(n) = &h {
                    target = Some((n.clone(), (0, p[..i].to_vec())));
                }
            }
            if i < 4 || i + 3 > p.len() || i % 32 == 0 {
                held.push((h, (0, p[..i].to_vec())));
            }
        }
    }
    let Some((n, (_, at))) = target else { return };
    for &(op, from, to) in script {
        let cur = trees[0].along(&at).pop().unwrap().1;
        let len = cur.kids().len();
        let pick = |x: usize, n: usize| [0, n / 2, n.saturating_sub(1), n][x];
        let child = |i: usize| A::children_with_tokens(&n).nth(i).unwrap();
        // remove a child: it is a tree of its own
        let remove = |trees: &mut Vec<Rc<D>>, held: &mut Vec<(E<A>, Place)>, i: usize| {
            let mut out = None;
            trees[0] = huge::edited(&trees[0], &at, &mut |k| out = Some(k.remove(i)));
            trees.push(out.unwrap());
            let t = trees.len() - 1;
            for (_, (w, p)) in held.iter_mut() {
                if *w == 0 && p.len() > at.len() && p.starts_with(&at) {
                    if p[at.len()] == i {
                        *w = t;
                        *p = p[at.len() + 1..].to_vec();
                    } else if p[at.len()] > i {
                        p[at.len()] -= 1;
                    }
                }
            }
            t
        };
        let insert = |trees: &mut Vec<Rc<D>>, held: &mut Vec<(E<A>, Place)>, i: usize, t: usize| {
            let x = trees[t].clone();
            trees[0] = huge::edited(&trees[0], &at, &mut |k| k.insert(i, x.clone()));
            for (_, (w, p)) in held.iter_mut() {
                if *w == t {
                    *w = 0;
                    *p = at.iter().copied().chain([i]).chain(p.iter().copied()).collect();
                } else if *w == 0 && p.len() > at.len() && p.starts_with(&at) && p[at.len()] >= i {
                    p[at.len()] += 1;
                }
            }
        };
        cx.step();
        match op {
            // detach
            0 if len > 0 => {
                let i = pick(from, len);
                if i < len {
                    A::e_detach(&child(i));
                    remove(&mut trees, &mut held, i);
                }
            }
            // move within the node
            1 if len > 0 => {
                let (i, j) = (pick(from, len), pick(to, len - 1));
                if i < len {
                    let c = child(i);
                    A::splice(&n, j..j, vec![c]);
                    let t = remove(&mut trees, &mut held, i);
                    insert(&mut trees, &mut held, j, t);
                }
            }
            // what is detached comes back elsewhere
            2 if trees.len() > 1 && held.iter().any(|h| h.1 == (trees.len() - 1, vec![])) => {
                let t = trees.len() - 1;
                let j = pick(to, len);
                let x = held.iter().find(|h| h.1 == (t, vec![])).unwrap().0.clone();
                A::splice(&n, j..j, vec![x]);
                insert(&mut trees, &mut held, j, t);
            }
            // replace a range by one small element
            3 => {
                let (i, j) = (pick(from, len), pick(to, len));
                if i <= j {
                    let fresh = huge::node(777, vec![huge::token(778, 3)]);
                    let x: E<A> = NodeOrToken::Node(A::new_root_mut(fresh.green()));
                    A::splice(&n, i..j, vec![x.clone()]);
                    for _ in i..j {
                        remove(&mut trees, &mut held, i);
                    }
                    trees.push(fresh);
                    let t = trees.len() - 1;
                    held.push((x, (t, vec![])));
                    insert(&mut trees, &mut held, i, t);
                }
            }
            _ => return,
        }
        for (h, (t, p)) in &held {
            huge::is_at::<A>(cx, &trees[*t], p, h, "after an edit");
        }
    }
    cx.nontrivial += 1;
    // read anew
    for p in trees[0].paths().iter().take(6) {
        for (i, h) in huge::reach::<A>(&root, &trees[0], p, 0).iter().enumerate() {
            huge::is_at::<A>(cx, &trees[0], &p[..i], h, "read anew");
        }
    }
}

/// One edit or two in and around a small tree in a far place.
fn far_edited<A: Api>(cx: &mut Cx, trees: &[El], base: usize, size: usize, order: &[Vec<usize>], how: usize, two: bool) {
    let m = start(trees, order);
    let host = m.els[base].parent;
    let from = m.els.len();
    for a in far_edits(&m, from, base, size, host) {
        let mut m2 = m.clone();
        if one::<A>(cx, &History { trees, gm: Gm::Direct, mode: Mode::Mut, order, how, ops: &[a.clone()] }) && two {
            m2.apply(&a);
            for b in far_edits(&m2, from, base, size, host) {
                cx.nontrivial += 1;
                one::<A>(cx, &History { trees, gm: Gm::Direct, mode: Mode::Mut, order, how, ops: &[a.clone(), b] });
            }
        }
    }
}

fn main() {
    mc::engine::main("C11", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        let full = Edits { wide_ranges: true, pairs: true, fresh: 4, keep: true, handles: false, detach: true };
        let mid = Edits { wide_ranges: true, pairs: false, fresh: 2, keep: true, handles: false, detach: true };
        let slim = Edits { wide_ranges: false, pairs: false, fresh: 2, keep: false, handles: false, detach: true };
        let live = Edits { wide_ranges: false, pairs: false, fresh: 1, keep: tier == Tier::Thorough, handles: true, detach: true };

        // one edit, every selection of live handles in every order
        let mut units = Vec::new();
        for s in shapes(1, if small() { 4 } else { 5 }) {
            for sel in selections(s.size(), 0) {
                if !sel.is_empty() {
                    units.push((s.clone(), sel));
                }
            }
        }
        v.push(family("one-edit", format!("all shapes of up to {} elements, every set of live handles acquired in every order, every single edit", if small() { 4 } else { 5 }), units.len() as u64, move |cx, i| {
            let (s, sel) = &units[i as usize];
            let e = named(s, &mut 0, false);
            let x = if s.size() <= 4 { full } else { mid };
            explore::<Cur>(cx, &[e.clone()], Gm::Direct, Mode::Mut, &[sel.clone()], i as usize % 4, 1, x);
            if s.size() <= 4 {
                explore::<Typ>(cx, &[e.clone()], Gm::Direct, Mode::Upd, &[sel.clone()], (i as usize + 1) % 4, 1, full);
                explore::<Cur>(cx, &[e], Gm::Built, Mode::Det, &[sel.clone()], (i as usize + 2) % 4, 1, mid);
                let d = named(s, &mut 0, true);
                explore::<Cur>(cx, &[d], Gm::Built, Mode::Mut, &[sel.clone()], i as usize % 4, 1, full);
            }
        }));
        // one edit on larger shapes
        let mut units = Vec::new();
        for s in shapes(6, if small() { 5 } else { tier.pick(6, 7) }) {
            for sel in subsets(s.size(), 0) {
                if !sel.is_empty() {
                    units.push((s.clone(), sel));
                }
            }
        }
        v.push(family("one-edit-larger", format!("all shapes of 6..={} elements, every set of live handles in increasing and decreasing order, every single edit", tier.pick(6, 7)), units.len() as u64, move |cx, i| {
            let (s, sel) = &units[i as usize];
            let e = named(s, &mut 0, false);
            explore::<Cur>(cx, &[e], Gm::Direct, Mode::Mut, &[sel.clone()], i as usize % 4, 1, slim);
        }));
        // two edits
        let mut units = Vec::new();
        for s in shapes(1, 4) {
            for sel in subsets(s.size(), 0) {
                if !sel.is_empty() {
                    units.push((s.clone(), sel));
                }
            }
        }
        let u3 = units.clone();
        if !small() {
        v.push(family("two-edits", "all shapes of up to 4 elements, every set of live handles in increasing and decreasing order, every two edits (no long ranges on 4 elements in the quick tier)", units.len() as u64, move |cx, i| {
            let (s, sel) = &units[i as usize];
            let e = named(s, &mut 0, false);
            let x = if s.size() <= 3 || cx.tier == Tier::Thorough { mid } else { slim };
            explore::<Cur>(cx, &[e.clone()], Gm::Direct, Mode::Mut, &[sel.clone()], i as usize % 4, 2, x);
            if s.size() <= 3 {
                explore::<Typ>(cx, &[e.clone()], Gm::Direct, Mode::Upd, &[sel.clone()], i as usize % 4, 2, full);
                let d = named(s, &mut 0, true);
                explore::<Cur>(cx, &[d], Gm::Built, Mode::Mut, &[sel.clone()], i as usize % 4, 2, mid);
            }
        }));
        }
        // three edits
        v.push(family("three-edits", format!("all shapes of up to {} elements, every set of live handles, every three edits", tier.pick(3, 4)), u3.len() as u64, move |cx, i| {
            let (s, sel) = &u3[i as usize];
            if s.size() > cx.tier.pick(3, 4) {
                return;
            }
            let e = named(s, &mut 0, false);
            explore::<Cur>(cx, &[e.clone()], Gm::Direct, Mode::Mut, &[sel.clone()], i as usize % 4, 3, slim);
        }));
        // handles come and go between edits
        let two = if small() { 1 } else { tier.pick(2, 3) };
        let mut units = Vec::new();
        for s in shapes(1, 4) {
            for first in 0..s.size() {
                units.push((s.clone(), first));
            }
        }
        v.push(family("handles-between-edits", format!("all shapes of up to 4 elements, one handle to begin with; every sequence of up to {} (up to {two} elements) or {} of: acquire a handle, drop a handle, edit", tier.pick(4, 5), tier.pick(3, 4)), units.len() as u64, move |cx, i| {
            let (s, first) = &units[i as usize];
            let e = named(s, &mut 0, false);
            let depth = if s.size() <= two { cx.tier.pick(4, 5) } else { cx.tier.pick(3, 4) };
            explore::<Cur>(cx, &[e.clone()], Gm::Direct, Mode::Mut, &[vec![*first]], 0, depth, live);
        }));
        // two trees
        let tiny = shapes(1, 3);
        let mut units = Vec::new();
        for a in &tiny {
            for b in &tiny {
                for sa in subsets(a.size(), 0) {
                    for sb in subsets(b.size(), a.size()) {
                        if !sa.is_empty() && !sb.is_empty() {
                            units.push((a.clone(), b.clone(), sa.clone(), sb));
                        }
                    }
                }
            }
        }
        v.push(family("two-trees", "every two shapes of up to 3 elements, every set of live handles in increasing and decreasing order, every edit including every move between the trees; two edits when at most 4 elements", units.len() as u64, move |cx, i| {
            let (a, b, sa, sb) = &units[i as usize];
            let mut n = 0;
            let trees = [named(a, &mut n, false), named(b, &mut n, false)];
            let order = [sa.clone(), sb.clone()];
            explore::<Cur>(cx, &trees, Gm::Direct, Mode::Mut, &order, i as usize % 4, 1, full);
            if a.size() + b.size() <= 4 {
                explore::<Typ>(cx, &trees, Gm::Direct, Mode::Mut, &order, i as usize % 4, 2, slim);
            }
        }));
        // small trees in far places
        let big = tier == Tier::Thorough;
        let mut units = Vec::new();
        for s in shapes(1, if small() { 2 } else { tier.pick(3, 4) }) {
            for (k, far) in FAR.iter().chain(if big { FARTHER.iter() } else { [].iter() }).enumerate() {
                let (e, base) = far.put(&named(&s, &mut 0, false));
                for sel in subsets(s.size(), base) {
                    units.push((e.clone(), base, s.size(), k, sel));
                }
            }
        }
        v.push(family("far", format!("{FAR:?}{} around every small shape; live handles: every set of elements of the shape in both orders, the root as well or instead; every edit of and around the shape, two edits for up to {} elements", if big { format!(" and {FARTHER:?}") } else { String::new() }, tier.pick(1, 2)), units.len() as u64, move |cx, i| {
            let (e, base, size, k, sel) = &units[i as usize];
            let trees = [e.clone()];
            let with_root: Vec<usize> = if i % 2 == 0 { sel.iter().copied().chain([0]).collect() } else { [0].into_iter().chain(sel.iter().copied()).collect() };
            for order in [sel.clone(), with_root] {
                if order.is_empty() {
                    continue;
                }
                let two = *size <= cx.tier.pick(1, 2) && *k < 6;
                if i % 3 == 2 {
                    far_edited::<Typ>(cx, &trees, *base, *size, &[order], i as usize % 4, two);
                } else {
                    far_edited::<Cur>(cx, &trees, *base, *size, &[order], i as usize % 4, two);
                }
            }
        }));
        // wide nodes and deep chains: one long deterministic history per size and handle pattern
        let widths: Vec<usize> = (5..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513]).collect();
        let depths: Vec<usize> = (3..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]).collect();
        let trees = scale_trees(&widths, &depths);
        let n = trees.len() as u64;
        v.push(family("scale", format!("widths {widths:?}, depths {depths:?}; live handles: none but one, all in order, all in reverse, every second, every seventh, from the middle outwards; detaching and inserting at the ends, in the middle and at regular places"), n * 6, move |cx, i| {
            let e = &trees[(i / 6) as usize];
            if e.size() > 600 && i % 2 == 1 {
                return;
            }
            scaled::<Cur>(cx, e, (i % 6) as usize);
        }));
        let wide = scale_trees(if small() { &[300] } else { &[65535, 65537] }, &[]);
        v.push(family("very-wide", "nodes with 65535 and 65537 children, six handles at the ends, around 2^8 and 2^16 and in the middle, or none but one; the same edits", wide.len() as u64 * 2, move |cx, i| {
            scaled::<Cur>(cx, &wide[(i / 2) as usize], if i % 2 == 0 { 0 } else { 6 });
        }));
        if !small() {
            let tot = [huge::MAX - 64, (1u64 << 31) + 1];
            v.push(family("huge", format!("trees of shared parts with {tot:?} bytes of text, handles along the edges: every two edits (detach, move, put back, replace a range; at the ends and in the middle) of a node at the top, next to it, in the middle and at the bottom of an edge"), tot.len() as u64 * 5 * 4, move |cx, i| {
                let i = i as usize;
                let (name, d) = huge::shapes(tot[i / 20]).swap_remove(i % 5);
                let green = d.green();
                let deep = d.paths()[0].len();
                let depth = [0, 1, deep / 2, deep.saturating_sub(1)][i / 5 % 4];
                let mut ops = Vec::new();
                for a in 0..3 {
                    ops.push((0, a, 0));
                    for b in 0..3 {
                        ops.push((1, a, b));
                    }
                }
                for a in 0..4 {
                    ops.push((2, 0, a));
                    for b in a..4 {
                        ops.push((3, a, b));
                    }
                }
                for &x in &ops {
                    if x.0 == 2 {
                        continue;
                    }
                    // wide nodes are slow to edit: one edit, and some second ones
                    for (j, &y) in ops.iter().enumerate() {
                        if i % 5 == 2 && cx.tier == Tier::Quick && (j + x.1 + 2 * x.2) % 5 != 0 {
                            continue;
                        }
                        if j % 2 == 0 {
                            huge_edits::<Cur>(cx, name, &d, &green, depth, &[x, y]);
                        } else {
                            huge_edits::<Typ>(cx, name, &d, &green, depth, &[x, y]);
                        }
                    }
                }
            }));
        }
        v
    })
}

fn scaled<A: Api>(cx: &mut Cx, e: &El, pattern: usize) {
    let size = e.size();
    let order: Vec<usize> = match pattern {
        0 => vec![size / 2],
        1 => (0..size).collect(),
        2 => (0..size).rev().collect(),
        3 => (0..size).step_by(2).collect(),
        4 => (0..size).filter(|i| i % 7 == 3 || *i == 0).collect(),
        6 => vec![256, 1, size / 2, size - 2, size.min(65535) - 2, 0],
        _ => (0..size).map(|i| if i % 2 == 0 { size / 2 + i / 2 } else { size / 2 - i / 2 - 1 }).filter(|&i| i < size).collect(),
    };
    let trees = [e.clone()];
    let orders = [order];
    let mut ops: Vec<Op> = Vec::new();
    let mut m = start(&trees, &orders);
    let node0 = 0usize;
    for round in 0..10usize {
        // candidates on the current model, deterministic
        let here = m.present();
        let c = m.els[node0].children.len();
        let bottom = *here.iter().max_by_key(|&&i| m.path(i).len()).unwrap();
        let nodes: Vec<usize> = here.iter().copied().filter(|&i| m.els[i].node && m.root_of(i) == node0).collect();
        let deep = nodes.iter().copied().max_by_key(|&i| m.path(i).len()).unwrap_or(node0);
        if !here.contains(&node0) {
            break;
        }
        let op = match round {
            0 => Op::Detach(m.els[node0].children[c / 2]),
            1 => Op::Splice(node0, 1.min(c), 2.min(c), vec![Ins::Fresh(1, true), Ins::Fresh(0, false)]),
            2 => Op::Splice(node0, c / 3, c / 3, vec![Ins::Old(m.els[node0].children[c - 1])]),
            3 => Op::Splice(deep, 0, 0, vec![Ins::Fresh(1, true)]),
            4 => Op::Detach(bottom),
            5 => Op::Splice(node0, c, c, vec![Ins::Fresh(0, true)]),
            6 => Op::Splice(node0, 0, c / 4, vec![]),
            7 => Op::Splice(node0, 0, 0, vec![Ins::Fresh(2, false), Ins::Fresh(1, true)]),
            8 => {
                let x = m.els[node0].children[0];
                if m.contains(x, deep) { Op::Detach(x) } else { Op::Splice(deep, 0, 0, vec![Ins::Old(x)]) }
            }
            _ => Op::Splice(node0, 1.min(c), c.saturating_sub(1).max(1.min(c)), vec![]),
        };
        // removing k of n children takes time k * n
        let long = |a: usize, b: usize| b - a > 8 && c > 2000;
        if matches!(op, Op::Splice(_, a, b, _) if long(a, b)) {
            continue;
        }
        let mut m2 = m.clone();
        if !m2.apply(&op) {
            continue;
        }
        m = m2;
        ops.push(op);
        if round % 3 == 2 || round == 9 {
            one::<A>(cx, &History { trees: &trees, gm: Gm::Direct, mode: Mode::Mut, order: &orders, how: 0, ops: &ops });
            cx.nontrivial += 1;
        }
    }
}
