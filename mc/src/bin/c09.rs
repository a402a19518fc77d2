//! C09: offset and range lookups find exactly the right elements.
use mc::api::*;
use mc::engine::{Cx, Family, Tier, family, guard};
use mc::model::*;
use mc::tree::*;
use mc::huge::{self, D};
use mc::{check, check_eq};
use std::rc::Rc;
use rowan::{NodeOrToken, TokenAtOffset};

/// Element `id` of the tree behind a handle whose attributes alone may fit several elements:
/// follow its chain of parents by index.
fn which<A: Api>(cx: &Cx, f: &Flat, e: &E<A>, what: &str) -> usize {
    let mut path = Vec::new();
    let mut cur = e.clone();
    while let Some(p) = A::e_parent(&cur) {
        path.push(A::e_index(&cur));
        cur = NodeOrToken::Node(p);
    }
    let mut id = 0;
    for &i in path.iter().rev() {
        match f.els[id].children.get(i) {
            Some(&c) => id = c,
            None => cx.fail(format!("{what}: child {i} of element {id} does not exist")),
        }
    }
    denotes::<A>(cx, f, e, id, what);
    id
}

fn contains(f: &Flat, id: usize, r: (u32, u32)) -> bool {
    f.els[id].start <= r.0 && r.1 <= f.els[id].end
}

fn offsets<A: Api>(cx: &mut Cx, f: &Flat, n: &A::N, id: usize, list: &[u32], e: &El) {
    let (s, t) = (f.els[id].start, f.els[id].end);
    for &o in list {
        cx.case(|| format!("{} {e:?} token_at_offset({o}) in element {id}", A::NAME));
        cx.step();
        if o < s || o > t {
            let r = guard(|| A::token_at_offset(n, o.into()));
            check!(cx, r.is_none(), "offset {o} outside of {s}..{t} is accepted");
            continue;
        }
        // the non-empty tokens below the node that touch the offset
        let want: Vec<usize> = (id..f.els[id].last)
            .filter(|&i| {
                let m = &f.els[i];
                !m.node && m.start < m.end && m.start <= o && o <= m.end
            })
            .collect();
        let got = A::token_at_offset(n, o.into());
        let what = format!("token_at_offset({o}) in element {id}");
        cx.outcome(&(want.len(), s == t));
        match (&got, &want[..]) {
            (TokenAtOffset::None, []) => {}
            (TokenAtOffset::Single(a), &[i]) => denotes_token::<A>(cx, f, a, i, &what),
            (TokenAtOffset::Between(a, b), &[i, j]) => {
                cx.nontrivial += 1;
                denotes_token::<A>(cx, f, a, i, &what);
                denotes_token::<A>(cx, f, b, j, &what);
            }
            _ => cx.fail(format!("{what}: got {got:?}, expected tokens {want:?}")),
        }
        opt_token::<A>(cx, f, got.clone().left_biased(), want.first().copied(), "left_biased");
        opt_token::<A>(cx, f, got.clone().right_biased(), want.last().copied(), "right_biased");
        // iteration, with the remaining length at each step
        let mut it = got.clone();
        for (j, &w) in want.iter().enumerate() {
            check_eq!(cx, it.size_hint(), (want.len() - j, Some(want.len() - j)), "{what}: size_hint after {j}");
            check_eq!(cx, it.len(), want.len() - j, "{what}: len after {j}");
            opt_token::<A>(cx, f, it.next(), Some(w), "iterating the answer");
        }
        check_eq!(cx, it.size_hint(), (0, Some(0)), "{what}: size_hint at the end");
        check!(cx, it.next().is_none() && it.next().is_none(), "{what}: iteration goes on past the end");
        // mapped
        let ranges = got.clone().map(|t| r32(A::t_range(&t)));
        let want_ranges: Vec<(u32, u32)> = want.iter().map(|&i| (f.els[i].start, f.els[i].end)).collect();
        check!(cx, matches!((&ranges, want.len()), (TokenAtOffset::None, 0) | (TokenAtOffset::Single(_), 1) | (TokenAtOffset::Between(..), 2)), "{what}: map changes the number of tokens");
        check_eq!(cx, ranges.collect::<Vec<_>>(), want_ranges, "{what}: map");
        check_eq!(cx, got.count(), want.len(), "{what}: count");
    }
}

fn ranges<A: Api>(cx: &mut Cx, f: &Flat, n: &A::N, id: usize, list: &[(u32, u32)], e: &El) {
    for &r in list {
        cx.case(|| format!("{} {e:?} range {r:?} in element {id}", A::NAME));
        cx.steps(2);
        let inside = contains(f, id, r);
        if !inside {
            let c = guard(|| A::covering_element(n, range(r.0, r.1)));
            check!(cx, c.is_none(), "covering_element({r:?}) outside of element {id} is accepted");
            let c = guard(|| A::child_or_token_at_range(n, range(r.0, r.1)));
            check!(cx, c.is_none_or(|c| c.is_none()), "child_or_token_at_range({r:?}) outside of element {id} gives a child");
            continue;
        }
        let what = format!("covering_element({r:?}) in element {id}");
        let c = A::covering_element(n, range(r.0, r.1));
        let w = which::<A>(cx, f, &c, &what);
        check!(cx, f.is_ancestor_or_self(id, w), "{what}: element {w} is not below");
        check!(cx, contains(f, w, r), "{what}: element {w} does not contain the range");
        let deeper = f.els[w].children.iter().find(|&&c| contains(f, c, r));
        check!(cx, deeper.is_none(), "{what}: got element {w}, but its child {deeper:?} contains the range");
        if r.0 < r.1 {
            // unique: the deepest one
            let deepest = (id..f.els[id].last).filter(|&i| contains(f, i, r)).max_by_key(|&i| f.path(i).len());
            check_eq!(cx, Some(w), deepest, "{what}");
            cx.nontrivial += 1;
        }
        let what = format!("child_or_token_at_range({r:?}) of element {id}");
        let fits: Vec<usize> = f.els[id].children.iter().copied().filter(|&c| contains(f, c, r)).collect();
        match A::child_or_token_at_range(n, range(r.0, r.1)) {
            None => check!(cx, fits.is_empty(), "{what}: none, but children {fits:?} contain it"),
            Some(c) => {
                let w = which::<A>(cx, f, &c, &what);
                check!(cx, fits.contains(&w), "{what}: got element {w}, expected one of {fits:?}");
            }
        }
    }
}

fn tree<A: Api>(cx: &mut Cx, e: &El, f: &Flat, modes: &[Mode]) {
    let end = f.els[0].end;
    let mut all_o: Vec<u32> = (0..=end + 2).collect();
    all_o.extend([1 << 31, u32::MAX - 1, u32::MAX]);
    let mut all_r = Vec::new();
    for a in 0..=end + 2 {
        for b in a..=end + 2 {
            all_r.push((a, b));
        }
        all_r.extend([(a, 1 << 31), (a, u32::MAX)]);
    }
    all_r.push((u32::MAX, u32::MAX));
    for gm in GMS {
        for &mode in modes {
            let root = make::<A>(e, gm, mode);
            for keep in [false, true] {
                let _held = keep.then(|| handles::<A>(&root));
                for id in f.nodes() {
                    let Some(NodeOrToken::Node(n)) = reach::<A>(&root, f, id, id % HOWS) else { cx.fail("not reached") };
                    offsets::<A>(cx, f, &n, id, &all_o, e);
                    ranges::<A>(cx, f, &n, id, &all_r, e);
                }
            }
        }
    }
}

/// Every offset and range of a small tree that lies far away, asked from each of its nodes, of its parent and of the root.
fn far<A: Api>(cx: &mut Cx, e: &El, at: Far, mode: Mode, gm: Gm) {
    let (big, base) = at.put(e);
    let f = Flat::new(&big);
    cx.state(&(e, format!("{at:?}"), mode.mutable()));
    let root = make::<A>(&big, gm, mode);
    let (s, t) = (f.els[base].start, f.els[base].end);
    let o: Vec<u32> = (s.saturating_sub(2)..=t + 2).filter(|&o| o <= f.els[0].end).collect();
    let mut r = Vec::new();
    for &a in &o {
        r.extend(o.iter().filter(|&&b| b >= a).map(|&b| (a, b)));
    }
    let mut ids: Vec<usize> = (base..base + e.size()).filter(|&i| f.els[i].node).collect();
    ids.extend([f.els[base].parent.unwrap(), 0]);
    ids.dedup();
    for (k, &id) in ids.iter().enumerate() {
        let Some(NodeOrToken::Node(n)) = reach::<A>(&root, &f, id, [1, 2, 5, 0][k % 4]) else { cx.fail("not reached") };
        offsets::<A>(cx, &f, &n, id, &o, &big);
        ranges::<A>(cx, &f, &n, id, &r, &big);
    }
}

fn scaled<A: Api>(cx: &mut Cx, e: &El, f: &Flat, mode: Mode) {
    let root = make::<A>(e, Gm::Built, mode);
    let end = f.els[0].end;
    let mut o: Vec<u32> = if f.len() <= 600 && mode == Mode::Imm {
        (0..=end + 1).collect()
    } else {
        [0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 511, 512, end / 3, end / 2, end.saturating_sub(2), end.saturating_sub(1), end, end + 1].to_vec()
    };
    o.retain(|&x| x <= end + 1);
    offsets::<A>(cx, f, &root, 0, &o, e);
    // every boundary: the ranges that just fit, that just do not, and the empty ones
    let mut r = Vec::new();
    let step = if mode == Mode::Imm { 1 + f.len() / 70000 } else { 1 + f.len() / 300 };
    let n = f.els[0].children.len();
    for (i, &c) in f.els[0].children.iter().enumerate() {
        if i % step == 0 || i + 2 > n {
            let m = &f.els[c];
            r.push((m.start, m.end));
            r.push((m.start, m.start));
            r.push((m.end, m.end));
            if m.end < end {
                r.push((m.start, m.end + 1));
            }
            if m.start > 0 {
                r.push((m.start - 1, m.end));
            }
        }
    }
    if n > 2000 {
        // the oracle is linear: a subset of the children for very wide ones
        let k = r.len() / 400 + 1;
        let len = r.len();
        let mut j = 0;
        r.retain(|_| {
            j += 1;
            j % k == 0 || j < 30 || j + 30 > len || (65500 * 5 - 100..65540 * 5).contains(&j)
        });
    }
    ranges::<A>(cx, f, &root, 0, &r, e);
}

fn place<A: Api>(e: &E<A>) -> Vec<usize> {
    let mut path = Vec::new();
    let mut cur = e.clone();
    while let Some(p) = A::e_parent(&cur) {
        path.push(A::e_index(&cur));
        cur = NodeOrToken::Node(p);
    }
    path.reverse();
    path
}

/// Lookups in trees about as long as an offset can count.
fn huge_ok<A: Api>(cx: &mut Cx, name: &str, d: &Rc<D>, mode: Mode) {
    let root = match mode {
        Mode::Imm => A::new_root(d.green()),
        _ => A::new_root_mut(d.green()),
    };
    let offs = d.offsets();
    // from the root and from the nodes along the edges
    let mut starts: Vec<Vec<usize>> = vec![vec![]];
    for p in d.paths().iter().take(3) {
        for n in [1, 2, p.len() / 2, p.len() - 1] {
            starts.push(p[..n.min(p.len() - 1)].to_vec());
        }
    }
    starts.sort();
    starts.dedup();
    let stride = 1 + offs.len() / cx.tier.pick(150, 600);
    for start in &starts {
        let (base, x) = d.along(start).pop().unwrap();
        let h = huge::reach::<A>(&root, d, start, 0).pop().unwrap();
        let n = h.as_node().unwrap();
        let near = |o: u64| o.abs_diff(base) < 2 || o.abs_diff(base + x.len) < 2;
        let list: Vec<u64> = offs.iter().enumerate().filter(|(j, o)| start.is_empty() || j % stride == 0 || near(**o)).map(|x| *x.1).chain([huge::MAX]).collect();
        for &o in &list {
            cx.case(|| format!("{} {mode:?} {name}, {} bytes: token_at_offset({o}) from {start:?}", A::NAME, d.len));
            cx.step();
            let got = guard(|| A::token_at_offset(n, (o as u32).into()));
            if o < base || o > base + x.len {
                check!(cx, got.is_none(), "offset outside of the node is accepted");
                continue;
            }
            let Some(got) = got else { cx.fail("an offset within the node is refused") };
            let mut want = Vec::new();
            x.touching(o, base, &mut start.clone(), &mut want);
            let got: Vec<A::T> = got.collect();
            check_eq!(cx, got.len(), want.len(), "number of tokens");
            for (g, w) in got.into_iter().zip(want) {
                huge::is_at::<A>(cx, d, &w.3, &NodeOrToken::Token(g), "the token found");
                cx.nontrivial += 1;
            }
        }
        let few: Vec<u64> = list.iter().copied().enumerate().filter(|(j, o)| j % (1 + list.len() / 25) == 0 || near(*o)).map(|x| x.1).collect();
        for &a in &few {
            for &b in few.iter().filter(|&&b| a <= b) {
                cx.case(|| format!("{} {mode:?} {name}, {} bytes: range {a}..{b} from {start:?}", A::NAME, d.len));
                cx.steps(2);
                let r = range(a as u32, b as u32);
                let got = guard(|| A::covering_element(n, r));
                let child = guard(|| A::child_or_token_at_range(n, r));
                if a < base || b > base + x.len {
                    check!(cx, got.is_none(), "covering_element: range outside of the node is accepted");
                    check!(cx, child.is_none_or(|c| c.is_none()), "child_or_token_at_range: outside of the node gives a child");
                    continue;
                }
                let Some(got) = got else { cx.fail("covering_element: a range within the node is refused") };
                let p = place::<A>(&got);
                huge::is_at::<A>(cx, d, &p, &got, "covering_element");
                let (s, c) = d.along(&p).pop().unwrap();
                check!(cx, p.starts_with(start) && s <= a && b <= s + c.len, "covering_element: {p:?} does not contain the range");
                let mut at = s;
                for (i, k) in c.kids().iter().enumerate() {
                    check!(cx, !(at <= a && b <= at + k.len), "covering_element: child {i} of {p:?} contains the range");
                    at += k.len;
                }
                if a < b {
                    check_eq!(cx, p, d.covering(a, b).2, "covering_element: place");
                }
                let Some(child) = child else { cx.fail("child_or_token_at_range: a range within the node is refused") };
                let mut at = base;
                let mut fits = Vec::new();
                for (i, k) in x.kids().iter().enumerate() {
                    if at <= a && b <= at + k.len {
                        fits.push(i);
                    }
                    at += k.len;
                }
                match child {
                    None => check!(cx, fits.is_empty(), "child_or_token_at_range: none, but children {fits:?} contain it"),
                    Some(c) => {
                        check!(cx, fits.contains(&A::e_index(&c)), "child_or_token_at_range: child {}, expected one of {fits:?}", A::e_index(&c));
                        let mut p = start.clone();
                        p.push(A::e_index(&c));
                        huge::is_at::<A>(cx, d, &p, &c, "child_or_token_at_range");
                    }
                }
            }
        }
    }
}

fn main() {
    mc::engine::main("C09", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        v.push(family("answers", "nth, count, fold, size_hint and the other provided methods of the three forms of answer, from every point of its run, with every argument; map and the biased choices", 3, |cx, n| {
            let n = n as usize;
            let make = || match n {
                0 => TokenAtOffset::None,
                1 => TokenAtOffset::Single(10usize),
                _ => TokenAtOffset::Between(10, 11),
            };
            cx.case(|| format!("{:?}", make()));
            cx.state(&n);
            for k in 0..=n + 1 {
                let left = n.saturating_sub(k);
                for mapped in [false, true] {
                    mc::probe::probes(cx, &|| format!("{:?} after {k}, mapped {mapped}", make()), left,
                        |m| mc::probe::probe(if mapped { make().map(|x| x + 90) } else { make() }, k, m, 9),
                        |cx, &x, i, what| check_eq!(cx, x, 10 + i + n - left + 90 * mapped as usize, "{what}"));
                }
                let mut it = make();
                (0..k).for_each(|_| { it.next(); });
                check_eq!(cx, it.len(), left, "len after {k}");
                check_eq!(cx, it.clone().left_biased(), (left > 0).then(|| 10 + n - left), "left_biased after {k}");
                check_eq!(cx, it.clone().right_biased(), (left > 0).then(|| 10 + n - 1), "right_biased after {k}");
                check_eq!(cx, it.clone().collect::<Vec<_>>(), it.collect::<Vec<_>>(), "a copy after {k}");
                cx.nontrivial += 1;
            }
        }));
        for (name, s, modes) in [
            ("small", TreeSpace::new(1, 5, &[1], &[(1, "ab"), (2, ""), (3, "é|")]), &MODES[..]),
            ("mid", TreeSpace::new(6, 6, &[1], &[(1, "ab"), (2, "")]), &MODES[..3]),
            ("big", TreeSpace::new(7, tier.pick(7, 8), &[1], &[(1, "a"), (2, "")]), &MODES[..2]),
        ] {
            v.push(family(name, format!("every node, every offset and range up to 2 beyond the text, with all handles alive or not; {}", s.describe()), s.count(), move |cx, i| {
                let e = s.get(i);
                cx.state(&e);
                let f = Flat::new(&e);
                tree::<Cur>(cx, &e, &f, modes);
                tree::<Typ>(cx, &e, &f, modes);
            }));
        }
        let s = TreeSpace::new(1, 4, &[1], &[(2, "a"), (2, "é"), (2, "")]);
        let places = tier.pick(FAR, FARTHER);
        v.push(family("far", format!("every offset and range around small trees placed far down, far behind other siblings or far into the text, from each node, the parent and the root: {places:?}; {}", s.describe()), s.count() * 12, move |cx, i| {
            let e = s.get(i / 12);
            let (place, gm) = (places[(i % 6) as usize], GMS[(i / 12 % 2) as usize]);
            for mode in [Mode::Imm, Mode::Mut] {
                if i / 6 % 2 == 0 {
                    far::<Cur>(cx, &e, place, mode, gm);
                } else {
                    far::<Typ>(cx, &e, place, mode, gm);
                }
            }
        }));
        let w: Vec<usize> = (5..=70).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1025, 65535, 65536, 65537]).collect();
        let d: Vec<usize> = (4..=70).chain([127, 128, 129, 255, 256, 257]).collect();
        let scale = scale_trees(&w, &d);
        v.push(family("scale", format!("large trees, every offset up to 600 elements, ranges at every child boundary (a fixed selection beyond 2000 children); widths {w:?}, depths {d:?}"), scale.len() as u64, move |cx, i| {
            let e = &scale[i as usize];
            cx.state(e);
            let f = Flat::new(e);
            scaled::<Cur>(cx, e, &f, Mode::Imm);
            scaled::<Typ>(cx, e, &f, Mode::Imm);
            if f.len() < 3000 {
                scaled::<Cur>(cx, e, &f, Mode::Mut);
                scaled::<Typ>(cx, e, &f, Mode::Mut);
            }
        }));
        let tot = huge::totals();
        v.push(family("huge", format!("trees of shared parts with {tot:?} bytes of text: the ends of the elements along the edges and below each child of the root, their neighbours, and ranges between them, from the root and from nodes along the edges"), tot.len() as u64 * 5 * 4, move |cx, i| {
            let i = i as usize;
            let (name, d) = huge::shapes(tot[i / 20]).swap_remove(i % 5);
            let mode = MODES[i / 5 % 2];
            cx.state(&(name, d.len, mode.mutable()));
            if i / 10 % 2 == 0 { huge_ok::<Cur>(cx, name, &d, mode) } else { huge_ok::<Typ>(cx, name, &d, mode) }
        }));
        v
    })
}
