//! C18: node pointers resolve back to the node they were made from.
use mc::api::*;
use mc::engine::{Cx, Family, Tier, family, guard, hash_of};
use mc::model::*;
use mc::tree::*;
use mc::huge::{self, D};
use mc::{check, check_eq};
use std::rc::Rc;
use rowan::NodeOrToken;
use mc::asts::*;
use rowan::ast::{AstNode, AstPtr, SyntaxNodePtr};

type Ptr = SyntaxNodePtr<Lang>;

/// A pointer of any kind and range, made from a tree of its own.
fn pointer(kind: u16, a: u32, b: u32) -> Ptr {
    let pad = "x".repeat(a as usize);
    let body = "y".repeat((b - a) as usize);
    let e = if b > a { N(99, vec![t(98, &pad), N(kind, vec![t(98, &body)])]) } else { N(99, vec![t(98, &pad), N(kind, vec![])]) };
    let root = TNode::new_root(e.green());
    Ptr::new(&root.first_child().expect("child"))
}

/// Resolves a pointer in a tree in all ways.
fn resolve(cx: &mut Cx, f: &Flat, root: &TNode, hs: &[E<Typ>], p: Ptr, own: Option<usize>, what: &dyn Fn() -> String) {
    cx.step();
    let (kind, range) = (p.kind(), p.text_range());
    let hits: Vec<usize> = f
        .nodes()
        .filter(|&i| f.els[i].kind == kind.raw() && (f.els[i].start, f.els[i].end) == r32(range))
        .collect();
    if hits.len() > 1 {
        cx.nontrivial += 1;
    }
    let tn = p.try_to_node(root);
    let pn = guard(|| p.to_node(root));
    check_eq!(cx, tn, pn, "{}: try_to_node and to_node", what());
    match &tn {
        None => check!(cx, hits.is_empty(), "{}: resolves to nothing, expected one of {hits:?}", what()),
        Some(n) => {
            check!(cx, !hits.is_empty(), "{}: resolves to {n:?}, expected nothing", what());
            check_eq!(cx, n.kind(), kind, "{}: kind of the resolved node", what());
            check_eq!(cx, n.text_range(), range, "{}: range of the resolved node", what());
            // by its place (equal handles may stand for two empty elements: known finding of C10)
            let mut path = Vec::new();
            let mut at = n.clone();
            while let Some(p) = at.parent() {
                path.push(at.index());
                at = p;
            }
            path.reverse();
            let id = hits.iter().copied().find(|&i| f.path(i) == path && hs[i].as_node() == Some(n));
            match id {
                None => cx.fail(format!("{}: resolves to a node that is none of {hits:?}", what())),
                Some(id) => denotes_node::<Typ>(cx, f, n, id, "resolved node"),
            }
            if let (Some(o), 1) = (own, hits.len()) {
                check_eq!(cx, hits[0], o, "{}: the model", what());
                check!(cx, hash_of(n) == hash_of(hs[o].as_node().unwrap()), "{}: hash", what());
            }
        }
    }
    // typed
    fn typed<N: AstNode<Language = Lang> + PartialEq + std::fmt::Debug>(cx: &mut Cx, p: Ptr, root: &TNode, tn: &Option<TNode>, what: &dyn Fn() -> String) {
        let Some(q) = p.cast::<N>() else {
            check!(cx, !N::can_cast(p.kind()), "{}: not cast", what());
            return;
        };
        check!(cx, N::can_cast(p.kind()), "{}: cast though the type does not allow the kind", what());
        check_eq!(cx, q.syntax_node_ptr(), p, "{}: syntax_node_ptr", what());
        check_eq!(cx, Ptr::from(q.clone()), p, "{}: From", what());
        let want = tn.clone().and_then(N::cast);
        check_eq!(cx, q.try_to_node(root), want, "{}: typed try_to_node", what());
        check_eq!(cx, guard(|| q.to_node(root)), want, "{}: typed to_node", what());
        check!(cx, q == q.clone() && hash_of(&q) == hash_of(&q.clone()), "{}: equality of typed pointers", what());
        fn to<N: AstNode<Language = Lang>, U: AstNode<Language = Lang>>(cx: &mut Cx, q: AstPtr<N>, what: &dyn Fn() -> String) {
            let p = q.syntax_node_ptr();
            match q.cast::<U>() {
                None => check!(cx, !U::can_cast(p.kind()), "{}: typed pointer not cast", what()),
                Some(u) => {
                    check!(cx, U::can_cast(p.kind()), "{}: typed pointer cast though the type does not allow the kind", what());
                    check_eq!(cx, u.syntax_node_ptr(), p, "{}: cast typed pointer", what());
                }
            }
        }
        to::<N, One>(cx, q.clone(), what);
        to::<N, Two>(cx, q.clone(), what);
        to::<N, Both>(cx, q.clone(), what);
        to::<N, Full>(cx, q, what);
    }
    typed::<One>(cx, p, root, &tn, what);
    typed::<Two>(cx, p, root, &tn, what);
    typed::<Both>(cx, p, root, &tn, what);
    typed::<Full>(cx, p, root, &tn, what);
}

fn tree(cx: &mut Cx, e: &El, all: bool) {
    let f = Flat::new(e);
    cx.state(e);
    let (mut roots, mut names) = (Vec::new(), Vec::new());
    for gm in GMS {
        for mode in [Mode::Imm, Mode::Sub] {
            roots.push(make::<Typ>(e, gm, mode));
            names.push((gm, mode));
        }
    }
    for (i, a) in roots.iter().enumerate() {
        let hs = handles::<Typ>(a);
        let mut ptrs: Vec<(Ptr, usize)> = Vec::new();
        for id in f.nodes() {
            let n = hs[id].as_node().unwrap();
            cx.case(|| format!("pointer to element {id} of {:?} {e:?}", names[i]));
            let p = Ptr::new(n);
            let m = &f.els[id];
            check_eq!(cx, p.kind(), Kind::of(m.kind), "kind of the pointer to element {id}");
            check_eq!(cx, r32(p.text_range()), (m.start, m.end), "range of the pointer to element {id}");
            for (q, o) in &ptrs {
                let same = f.els[*o].kind == m.kind && (f.els[*o].start, f.els[*o].end) == (m.start, m.end);
                check_eq!(cx, p == *q, same, "equality of pointers to elements {o} and {id}");
                check!(cx, !same || hash_of(&p) == hash_of(q), "hash of equal pointers");
                fn typed<N: AstNode<Language = Lang>>(cx: &mut Cx, p: Ptr, q: Ptr, same: bool) {
                    let (Some(x), Some(y)) = (p.cast::<N>(), q.cast::<N>()) else { return };
                    cx.step();
                    check!(cx, (x == y) == same && (y == x) == same && (x != y) != same, "equality of typed pointers {p:?} and {q:?}");
                    check!(cx, !same || hash_of(&x) == hash_of(&y), "hash of equal typed pointers {p:?} and {q:?}");
                }
                typed::<One>(cx, p, *q, same);
                typed::<Both>(cx, p, *q, same);
                typed::<Full>(cx, p, *q, same);
            }
            ptrs.push((p, id));
            // typed pointers
            if let Some(x) = One::cast(n.clone()) {
                check_eq!(cx, AstPtr::new(&x).syntax_node_ptr(), p, "AstPtr::new of element {id}");
            }
            if let Some(x) = Both::cast(n.clone()) {
                check_eq!(cx, AstPtr::new(&x).syntax_node_ptr(), p, "AstPtr::new of element {id}");
                check!(cx, AstPtr::new(&x) == AstPtr::new(&x), "typed pointers to element {id} are equal");
            }
            for (j, b) in roots.iter().enumerate() {
                let w = || format!("pointer to element {id} of {:?} resolved in {:?} {e:?}", names[i], names[j]);
                if i == j {
                    resolve(cx, &f, b, &hs, p, Some(id), &w);
                } else if all {
                    let hb = handles::<Typ>(b);
                    resolve(cx, &f, b, &hb, p, Some(id), &w);
                }
            }
            // without other handles
            let fresh = make::<Typ>(e, names[i].0, names[i].1);
            let got = p.try_to_node(&fresh);
            match got {
                None => cx.fail(format!("pointer to element {id} of {e:?} resolves to nothing in an equal tree")),
                Some(n) => {
                    check_eq!(cx, (n.kind(), n.text_range()), (p.kind(), p.text_range()), "node resolved in an equal tree");
                }
            }
            // not from a root
            for sub in f.nodes().filter(|&s| s > 0) {
                cx.step();
                let s = hs[sub].as_node().unwrap();
                check!(cx, p.try_to_node(s).is_none(), "pointer to element {id} resolves from the inner node {sub} of {e:?}");
                check!(cx, guard(|| p.to_node(s)).is_none(), "to_node of element {id} from the inner node {sub} of {e:?} does not panic");
            }
            if i > 0 && !all {
                continue;
            }
            // mutable trees are refused
            for mode in [Mode::Mut, Mode::Upd, Mode::Det] {
                cx.step();
                let m = make::<Typ>(e, Gm::Direct, mode);
                check!(cx, guard(|| p.try_to_node(&m)).is_none(), "{mode:?}: try_to_node in a mutable tree does not panic");
                check!(cx, guard(|| p.to_node(&m)).is_none(), "{mode:?}: to_node in a mutable tree does not panic");
                let Some(NodeOrToken::Node(x)) = reach::<Typ>(&m, &f, id, 0) else { cx.fail("not reached") };
                check!(cx, guard(|| p.try_to_node(&x)).is_none(), "{mode:?}: try_to_node from an inner mutable node does not panic");
                check!(cx, guard(|| Ptr::new(&x)).is_none(), "{mode:?}: a pointer to a mutable node is made");
                if let Some(x) = Both::cast(x) {
                    check!(cx, guard(|| AstPtr::new(&x)).is_none(), "{mode:?}: a typed pointer to a mutable node is made");
                    let q = AstPtr::new(&Both::cast(hs[id].as_node().unwrap().clone()).unwrap());
                    check!(cx, guard(|| q.try_to_node(&m)).is_none(), "{mode:?}: typed try_to_node in a mutable tree does not panic");
                }
            }
        }
    }
}

/// Every kind and range in a tree.
fn foreign(cx: &mut Cx, e: &El, ptrs: &[Ptr]) {
    let f = Flat::new(e);
    cx.state(e);
    for gm in GMS {
        let root = make::<Typ>(e, gm, Mode::Imm);
        let hs = handles::<Typ>(&root);
        for p in ptrs {
            if u32::from(p.text_range().end()) > f.els[0].end + 2 {
                continue;
            }
            cx.case(|| format!("pointer {p:?} in {gm:?} {e:?}"));
            resolve(cx, &f, &root, &hs, *p, None, &|| format!("pointer {p:?} in {gm:?} {e:?}"));
        }
    }
}

/// Pointers into trees about as long as an offset can count.
fn huge_ok(cx: &mut Cx, name: &str, d: &Rc<D>) {
    let root = TNode::new_root(d.green());
    let other = TNode::new_root(d.green());
    for p in d.paths() {
        let hs = huge::reach::<Typ>(&root, d, &p, 0);
        for (i, h) in hs.iter().enumerate() {
            let NodeOrToken::Node(n) = h else { continue };
            cx.case(|| format!("{name}, {} bytes: pointer to {:?}", d.len, &p[..i]));
            cx.step();
            let ptr = Ptr::new(n);
            check_eq!(cx, huge::e32(ptr.text_range()), huge::e32(n.text_range()), "range of the pointer");
            check_eq!(cx, ptr.kind(), n.kind(), "kind of the pointer");
            for r in [&root, &other] {
                let Some(got) = guard(|| ptr.to_node(r)) else { cx.fail("resolves to nothing") };
                huge::is_at::<Typ>(cx, d, &p[..i], &NodeOrToken::Node(got.clone()), "resolved node");
                check!(cx, std::ptr::eq(r, &other) || got == *n, "the very node");
                cx.nontrivial += 1;
            }
        }
    }
}

fn typed_pairs<N: AstNode<Language = Lang>>(cx: &mut Cx, p: Ptr, all: &[Ptr]) {
    let Some(a) = p.cast::<N>() else { return };
    for q in all {
        let Some(b) = q.cast::<N>() else { continue };
        let same = p.kind() == q.kind() && p.text_range() == q.text_range();
        cx.step();
        check!(cx, (a == b) == same && (a != b) != same, "equality of typed pointers {p:?} and {q:?}");
        check!(cx, !same || hash_of(&a) == hash_of(&b), "hashes of equal typed pointers {p:?} and {q:?}");
        cx.nontrivial += same as u64;
    }
}

fn main() {
    mc::engine::main("C18", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        let toks: &[(u16, &str)] = &[(1, "é"), (2, "")];
        for (name, s, all) in [
            ("own", TreeSpace::new(1, tier.pick(5, 6), &[1, 2], toks), true),
            ("own-big", TreeSpace::new(tier.pick(6, 7), tier.pick(6, 7), &[1, 2], toks), false),
        ] {
            v.push(family(name, format!("pointers to every node, resolved in the same tree, in equal ones, from inner nodes and in mutable trees; typed ones cast between four types; {}", s.describe()), s.count(), move |cx, i| tree(cx, &s.get(i), all)));
        }
        let mut ptrs = Vec::new();
        for kind in [1, 2, 3] {
            for a in 0..=12 {
                for b in a..=12 {
                    ptrs.push(pointer(kind, a, b));
                }
            }
        }
        {
            // twice each, from trees of their own
            let mut all = ptrs.clone();
            for kind in [1, 2, 3, 257] {
                for a in 0..=12 {
                    for b in a..=12 {
                        all.push(pointer(kind, a, b));
                    }
                }
            }
            v.push(family("equality", format!("all pairs of {} pointers: every range up to 12, four kinds, and typed ones of three types: equal exactly when kind and range are, and then with equal hashes", all.len()), all.len() as u64, move |cx, i| {
                let p = all[i as usize];
                cx.case(|| format!("{p:?} against all others"));
                cx.state(&(p.kind().raw(), r32(p.text_range())));
                for q in &all {
                    let same = p.kind() == q.kind() && p.text_range() == q.text_range();
                    cx.step();
                    check!(cx, (p == *q) == same && (p != *q) != same, "equality of {p:?} and {q:?}");
                    check!(cx, !same || hash_of(&p) == hash_of(q), "hashes of equal pointers {p:?} and {q:?}");
                }
                typed_pairs::<Both>(cx, p, &all);
                typed_pairs::<One>(cx, p, &all);
                typed_pairs::<Full>(cx, p, &all);
            }));
        }
        for s in [
            TreeSpace::new(1, 5, &[1, 2], &[(1, "é"), (2, ""), (1, "a")]),
            TreeSpace::new(6, tier.pick(6, 7), &[1, 2], &[(1, "a"), (2, "")]),
        ] {
            let ptrs = ptrs.clone();
            v.push(family("foreign", format!("pointers of 3 kinds and every range up to 2 beyond the text, made from other trees; {}", s.describe()), s.count(), move |cx, i| foreign(cx, &s.get(i), &ptrs)));
        }
        {
            // only empty nodes: long rows and chains of them
            let s = TreeSpace::new(7, tier.pick(7, 8), &[1, 2], &[(1, "")]);
            v.push(family("empty", format!("pointers to every node of trees without text; {}", s.describe()), s.count(), move |cx, i| {
                let e = s.get(i);
                let f = Flat::new(&e);
                cx.state(&e);
                let root = make::<Typ>(&e, Gm::Built, Mode::Imm);
                let hs = handles::<Typ>(&root);
                for id in f.nodes() {
                    cx.case(|| format!("pointer to element {id} of {e:?}"));
                    let p = Ptr::new(hs[id].as_node().unwrap());
                    resolve(cx, &f, &root, &hs, p, Some(id), &|| format!("pointer to element {id} of {e:?}"));
                }
            }));
        }
        let w: Vec<usize> = (5..=70).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1025]).chain(tier.pick(vec![], vec![65535, 65536, 65537])).collect();
        let d: Vec<usize> = (4..=70).chain([127, 128, 129, 255, 256, 257]).collect();
        let scale = scale_trees(&w, &d);
        v.push(family("scale", format!("pointers to every node of large trees (a selection beyond 600 nodes); widths {w:?}, depths {d:?}"), scale.len() as u64, move |cx, i| {
            let e = &scale[i as usize];
            cx.state(e);
            let f = Flat::new(e);
            let root = make::<Typ>(e, Gm::Built, Mode::Imm);
            let hs = handles::<Typ>(&root);
            let nodes: Vec<usize> = f.nodes().collect();
            for (k, &id) in nodes.iter().enumerate() {
                if k % (1 + nodes.len() / 600) != 0 && k + 3 < nodes.len() {
                    continue;
                }
                cx.case(|| format!("pointer to element {id} of {e:?}"));
                let p = Ptr::new(hs[id].as_node().unwrap());
                resolve(cx, &f, &root, &hs, p, Some(id), &|| format!("pointer to element {id} of {e:?}"));
                let q = pointer(p.kind().raw() ^ 1, p.text_range().start().into(), p.text_range().end().into());
                resolve(cx, &f, &root, &hs, q, None, &|| format!("pointer {q:?} in {e:?}"));
            }
        }));
        let s = TreeSpace::new(1, 4, &[1, 2], &[(2, "a"), (2, "")]);
        let places = tier.pick(FAR, FARTHER);
        v.push(family("far", format!("pointers to the nodes of small trees placed far down, far behind other siblings or far into the text, to the node they are in, and to what is nearly there: {places:?}; {}", s.describe()), s.count() * 6, move |cx, i| {
            let (e, place) = (s.get(i / 6), places[(i % 6) as usize]);
            let (big, base) = place.put(&e);
            cx.state(&(&e, format!("{place:?}")));
            let f = Flat::new(&big);
            let root = make::<Typ>(&big, GMS[(i / 6 % 2) as usize], Mode::Imm);
            let hs = handles::<Typ>(&root);
            let mut ids: Vec<usize> = (base..base + e.size()).filter(|&i| f.els[i].node).collect();
            ids.push(f.els[base].parent.unwrap());
            for &id in &ids {
                let what = |p: Ptr| format!("pointer {p:?} to element {} of {e:?} in {place:?}", id as isize - base as isize);
                let p = Ptr::new(hs[id].as_node().unwrap());
                cx.case(|| what(p));
                cx.nontrivial += 1;
                check_eq!(cx, p.kind(), Kind::of(f.els[id].kind), "kind of the pointer");
                check_eq!(cx, r32(p.text_range()), (f.els[id].start, f.els[id].end), "range of the pointer");
                resolve(cx, &f, &root, &hs, p, Some(id), &|| what(p));
                let (a, b) = r32(p.text_range());
                for (k, a, b) in [(p.kind().raw() ^ 3, a, b), (p.kind().raw(), a, b + 1), (p.kind().raw(), a - a.min(1), b), (p.kind().raw(), a, a), (p.kind().raw(), b, b), (p.kind().raw(), a + 1, b + 1)] {
                    let q = pointer(k, a, b);
                    cx.case(|| what(q));
                    resolve(cx, &f, &root, &hs, q, None, &|| what(q));
                }
            }
        }));
        let tot = huge::totals();
        v.push(family("huge", format!("trees of shared parts with {tot:?} bytes of text: pointers to the nodes along the edges and below each child of the root"), tot.len() as u64 * 5, move |cx, i| {
            let (name, d) = huge::shapes(tot[i as usize / 5]).swap_remove(i as usize % 5);
            cx.state(&(name, d.len));
            huge_ok(cx, name, &d);
        }));
        v
    })
}
