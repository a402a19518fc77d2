//! C19: the typed layer adds kinds and casts and nothing else.
use mc::api::*;
use mc::asts::*;
use mc::engine::{Cx, Family, Tier, family, guard, hash_of};
use mc::model::*;
use mc::probe;
use mc::tree::*;
use mc::{check, check_eq};
use rowan::ast::{AstNode, support};
use rowan::{Direction, GreenToken, NodeOrToken, SyntaxKind, TextSize, TokenAtOffset, WalkEvent, cursor};

type Raw = cursor::SyntaxElement;

/// A result, in terms of the untyped interface.
#[derive(Debug, PartialEq, Clone)]
enum V {
    None,
    El(Raw, Vec<usize>),
    Num(u64),
    Str(String),
    Green(El),
    Panic,
}

fn place(e: &Raw) -> Vec<usize> {
    let mut p = vec![];
    let mut e = e.clone();
    while let Some(par) = e.parent() {
        p.push(e.index());
        e = par.into();
    }
    p.reverse();
    p
}
fn el<A: Api>(e: E<A>) -> V {
    let r = A::to_raw(e);
    let p = place(&r);
    V::El(r, p)
}
fn nd<A: Api>(n: A::N) -> V {
    el::<A>(NodeOrToken::Node(n))
}
fn tk<A: Api>(n: A::T) -> V {
    el::<A>(NodeOrToken::Token(n))
}
fn o<T>(x: Option<T>, f: impl FnOnce(T) -> V) -> V {
    x.map(f).unwrap_or(V::None)
}
fn rg(r: rowan::TextRange) -> V {
    V::Num((u32::from(r.start()) as u64) << 32 | u32::from(r.end()) as u64)
}
type Log = Vec<(String, Vec<V>)>;

/// Predicates on raw kinds: every set of the kinds in use.
fn preds() -> Vec<u16> {
    (0..16).collect()
}
fn holds(set: u16, k: u16) -> bool {
    k < 16 && set >> (k - 1) & 1 == 1
}

/// How much of an element is looked at.
#[derive(Clone, Copy)]
struct Look<'a> {
    sets: &'a [u16],
    skips: usize,
    offsets: &'a [u32],
}

fn node<A: Api>(n: &A::N, look: Look, log: &mut Log) {
    let mut put = |s: String, v: Vec<V>| log.push((s, v));
    put("kind".into(), vec![V::Num(A::kind(n).into())]);
    put("text_range".into(), vec![rg(A::range(n))]);
    if A::parent(n).is_some() {
        put("index".into(), vec![V::Num(A::index(n) as u64)]);
    }
    put("text".into(), vec![V::Str(A::text(n).to_string())]);
    put("display".into(), vec![V::Str(n.to_string())]);
    put("green".into(), vec![V::Green(El::read(&A::green(n))), V::Num(A::green_ptr(n) as u64)]);
    put("is_mutable".into(), vec![V::Num(A::is_mutable(n) as u64)]);
    put("hash".into(), vec![V::Num(hash_of(n))]);
    put("parent".into(), vec![o(A::parent(n), nd::<A>)]);
    put("ancestors".into(), A::ancestors(n).map(nd::<A>).collect());
    put("children".into(), A::children(n).map(nd::<A>).collect());
    put("children_with_tokens".into(), A::children_with_tokens(n).map(el::<A>).collect());
    put("first_child".into(), vec![o(A::first_child(n), nd::<A>)]);
    put("last_child".into(), vec![o(A::last_child(n), nd::<A>)]);
    put("first_child_or_token".into(), vec![o(A::first_child_or_token(n), el::<A>)]);
    put("last_child_or_token".into(), vec![o(A::last_child_or_token(n), el::<A>)]);
    put("next_sibling".into(), vec![o(A::next_sibling(n), nd::<A>)]);
    put("prev_sibling".into(), vec![o(A::prev_sibling(n), nd::<A>)]);
    put("next_sibling_or_token".into(), vec![o(A::next_sibling_or_token(n), el::<A>)]);
    put("prev_sibling_or_token".into(), vec![o(A::prev_sibling_or_token(n), el::<A>)]);
    put("first_token".into(), vec![o(A::first_token(n), tk::<A>)]);
    put("last_token".into(), vec![o(A::last_token(n), tk::<A>)]);
    for d in [Direction::Next, Direction::Prev] {
        put(format!("siblings({d:?})"), A::siblings(n, d).map(nd::<A>).collect());
        put(format!("siblings_with_tokens({d:?})"), A::siblings_with_tokens(n, d).map(el::<A>).collect());
    }
    put("descendants".into(), A::descendants(n).map(nd::<A>).collect());
    put("descendants_with_tokens".into(), A::descendants_with_tokens(n).map(el::<A>).collect());
    let ev = |e: WalkEvent<E<A>>| match e {
        WalkEvent::Enter(x) => vec![V::Num(1), el::<A>(x)],
        WalkEvent::Leave(x) => vec![V::Num(0), el::<A>(x)],
    };
    put("preorder".into(), A::preorder(n).flat_map(|e| ev(e.map(NodeOrToken::Node))).collect());
    put("preorder_with_tokens".into(), A::preorder_with_tokens(n).flat_map(ev).collect());
    for k in 0..look.skips {
        // leave out the subtree of the k-th node entered
        let mut out = vec![];
        let mut w = A::preorder(n);
        let mut i = 0;
        while let Some(e) = w.next() {
            let enter = matches!(e, WalkEvent::Enter(_));
            out.extend(ev(e.map(NodeOrToken::Node)));
            if enter {
                if i == k {
                    w.skip_subtree();
                }
                i += 1;
            }
        }
        put(format!("preorder, skipping {k}"), out);
        let mut out = vec![];
        let mut w = A::preorder_with_tokens(n);
        let mut i = 0;
        while let Some(e) = w.next() {
            let enter = matches!(e, WalkEvent::Enter(_));
            out.extend(ev(e));
            if enter {
                if i == k {
                    w.skip_subtree();
                }
                i += 1;
            }
        }
        put(format!("preorder_with_tokens, skipping {k}"), out);
    }
    for &set in look.sets {
        let m = |k: u16| holds(set, k);
        put(format!("first_child_by_kind({set:b})"), vec![o(A::first_child_by_kind(n, &m), nd::<A>)]);
        put(format!("first_child_or_token_by_kind({set:b})"), vec![o(A::first_child_or_token_by_kind(n, &m), el::<A>)]);
        put(format!("next_sibling_by_kind({set:b})"), vec![o(A::next_sibling_by_kind(n, &m), nd::<A>)]);
        put(format!("next_sibling_or_token_by_kind({set:b})"), vec![o(A::next_sibling_or_token_by_kind(n, &m), el::<A>)]);
        put(format!("children().by_kind({set:b})"), A::nc_by_kind(A::children(n), &m).map(nd::<A>).collect());
        put(format!("children_with_tokens().by_kind({set:b})"), A::ec_by_kind(A::children_with_tokens(n), &m).map(el::<A>).collect());
    }
    for (i, &at) in look.offsets.iter().enumerate() {
        let v = match guard(|| A::token_at_offset(n, TextSize::from(at))) {
            None => vec![V::Panic],
            Some(TokenAtOffset::None) => vec![],
            Some(TokenAtOffset::Single(a)) => vec![tk::<A>(a)],
            Some(TokenAtOffset::Between(a, b)) => vec![tk::<A>(a), tk::<A>(b)],
        };
        put(format!("token_at_offset({at})"), v);
        for &to in &look.offsets[i..] {
            let r = range(at, to);
            put(format!("covering_element({r:?})"), vec![guard(|| A::covering_element(n, r)).map(el::<A>).unwrap_or(V::Panic)]);
            put(format!("child_or_token_at_range({r:?})"), vec![match guard(|| A::child_or_token_at_range(n, r)) {
                None => V::Panic,
                Some(x) => o(x, el::<A>),
            }]);
        }
    }
    let new = N(4, vec![t(3, "new")]);
    put("replace_with".into(), vec![V::Green(El::read(&A::replace_with(n, N(A::kind(n), vec![new]).green())))]);
    let mut copies = vec![("clone_subtree", A::clone_subtree(n))];
    if !A::is_mutable(n) {
        copies.push(("clone_for_update", A::clone_for_update(n)));
    }
    for (name, c) in copies {
        put(name.into(), vec![
            V::Green(El::read(&A::green(&c))),
            V::Num(A::is_mutable(&c) as u64),
            V::Num(A::ancestors(&c).count() as u64),
            rg(A::range(&c)),
        ]);
    }
    elem::<A>(&NodeOrToken::Node(n.clone()), log);
}

fn token<A: Api>(n: &A::T, log: &mut Log) {
    let mut put = |s: String, v: Vec<V>| log.push((s, v));
    put("kind".into(), vec![V::Num(A::t_kind(n).into())]);
    put("text_range".into(), vec![rg(A::t_range(n))]);
    put("index".into(), vec![V::Num(A::t_index(n) as u64)]);
    put("text".into(), vec![V::Str(A::t_text(n).to_string())]);
    put("display".into(), vec![V::Str(n.to_string())]);
    put("green".into(), vec![V::Num(A::t_green_ptr(n) as u64), V::Str(A::t_green(n).text().into()), V::Num(A::t_green(n).kind().0.into())]);
    put("hash".into(), vec![V::Num(hash_of(n))]);
    put("parent".into(), vec![o(A::t_parent(n), nd::<A>)]);
    put("next_sibling_or_token".into(), vec![o(A::t_next_sibling_or_token(n), el::<A>)]);
    put("prev_sibling_or_token".into(), vec![o(A::t_prev_sibling_or_token(n), el::<A>)]);
    put("next_token".into(), vec![o(A::t_next_token(n), tk::<A>)]);
    put("prev_token".into(), vec![o(A::t_prev_token(n), tk::<A>)]);
    for d in [Direction::Next, Direction::Prev] {
        put(format!("siblings_with_tokens({d:?})"), A::t_siblings_with_tokens(n, d).map(el::<A>).collect());
    }
    put("replace_with".into(), vec![V::Green(El::read(&A::t_replace_with(n, GreenToken::new(SyntaxKind(A::t_kind(n)), "new"))))]);
    elem::<A>(&NodeOrToken::Token(n.clone()), log);
}

fn elem<A: Api>(e: &E<A>, log: &mut Log) {
    let mut put = |s: &str, v: Vec<V>| log.push((format!("element {s}"), v));
    put("text_range", vec![rg(A::e_range(e))]);
    put("kind", vec![V::Num(A::e_kind(e).into())]);
    put("display", vec![V::Str(e.to_string())]);
    put("parent", vec![o(A::e_parent(e), nd::<A>)]);
    if A::e_parent(e).is_some() {
        put("index", vec![V::Num(A::e_index(e) as u64)]);
    }
    put("ancestors", A::e_ancestors(e).map(nd::<A>).collect());
    put("next_sibling_or_token", vec![o(A::e_next(e), el::<A>)]);
    put("prev_sibling_or_token", vec![o(A::e_prev(e), el::<A>)]);
}

fn compare(cx: &mut Cx, typed: Log, plain: Log, what: &dyn Fn() -> String) {
    check_eq!(cx, typed.len(), plain.len(), "{}: number of operations", what());
    for ((name, a), (_, b)) in typed.iter().zip(&plain) {
        cx.step();
        check!(cx, a == b, "{}: {name}: typed {a:?}, untyped {b:?}", what());
    }
}

/// Reading operations: both interfaces on the same handles.
fn reading(cx: &mut Cx, e: &El, mode: Mode) {
    let f = Flat::new(e);
    let offsets: Vec<u32> = (0..=f.els[0].end + 1).collect();
    let sets = preds();
    look_at(cx, e, &f, mode, Look { sets: &sets, skips: 4, offsets: &offsets }, &|_| true);
}

fn look_at(cx: &mut Cx, e: &El, f: &Flat, mode: Mode, look: Look, pick: &dyn Fn(usize) -> bool) {
    let root = make::<Cur>(e, Gm::Direct, mode);
    for (id, h) in handles::<Cur>(&root).into_iter().enumerate() {
        if !pick(id) {
            continue;
        }
        cx.case(|| format!("{mode:?} {e:?}, element {id}, every operation through both interfaces"));
        let th: E<Typ> = Typ::from_raw(h.clone());
        check!(cx, Typ::to_raw(th.clone()) == h, "there and back");
        let (mut a, mut b) = (Log::new(), Log::new());
        match (&h, &th) {
            (NodeOrToken::Node(n), NodeOrToken::Node(m)) => {
                check!(cx, TNode::from(n.clone()) == *m, "conversion of node {id}");
                check!(cx, cursor::SyntaxNode::from(m.clone()) == *n, "conversion of node {id} back");
                check!(cx, TElem::from(m.clone()) == th, "typed node {id} into an element");
                check!(cx, Raw::from(n.clone()) == h, "node {id} into an element");
                node::<Cur>(n, look, &mut b);
                node::<Typ>(m, look, &mut a);
            }
            (NodeOrToken::Token(n), NodeOrToken::Token(m)) => {
                check!(cx, TToken::from(n.clone()) == *m, "conversion of token {id}");
                check!(cx, cursor::SyntaxToken::from(m.clone()) == *n, "conversion of token {id} back");
                check!(cx, TElem::from(m.clone()) == th, "typed token {id} into an element");
                check!(cx, Raw::from(n.clone()) == h, "token {id} into an element");
                token::<Cur>(n, &mut b);
                token::<Typ>(m, &mut a);
                let anc: Vec<Raw> = n.ancestors().map(Raw::from).collect();
                let pa: Vec<Raw> = m.parent_ancestors().map(|x| Typ::to_raw(x.into())).collect();
                #[allow(deprecated)]
                let ta: Vec<Raw> = m.ancestors().map(|x| Typ::to_raw(x.into())).collect();
                check!(cx, anc == pa && anc == ta, "ancestors of token {id}");
            }
            _ => cx.fail(format!("element {id} changes between node and token when converted")),
        }
        // the language's own kinds
        let k = match &th {
            NodeOrToken::Node(n) => n.kind(),
            NodeOrToken::Token(n) => n.kind(),
        };
        check_eq!(cx, k, Kind::of(f.els[id].kind), "kind of element {id}");
        check_eq!(cx, th.kind(), k, "kind of element {id} as an element");
        cx.outcome(&b.iter().map(|x| format!("{:?}", x.1.len())).collect::<Vec<_>>());
        compare(cx, a, b, &|| format!("element {id} of {mode:?} {e:?}"));
    }
}

/// An editing operation, executed through one interface on a tree of its own; what is left of it.
fn edited<A: Api>(e: &El, mode: Mode, op: &Edit) -> Vec<V> {
    let root = make::<A>(e, Gm::Built, mode);
    let hs = handles::<A>(&root);
    let mut out = Vec::new();
    let r = guard(|| match op {
        Edit::Detach(id, k) => match (&hs[*id], k) {
            (x, 0) => A::e_detach(x),
            (NodeOrToken::Node(n), _) => A::detach(n),
            (NodeOrToken::Token(n), _) => A::t_detach(n),
        },
        Edit::Splice(id, a, b, old, new) => {
            let mut ins: Vec<E<A>> = Vec::new();
            if let Some(i) = old {
                ins.push(hs[*i].clone());
            }
            for i in 0..*new {
                ins.push(NodeOrToken::Node(A::new_root_mut(N(70 + i, vec![t(80, "n")]).green())));
            }
            A::splice(hs[*id].as_node().unwrap(), *a..*b, ins)
        }
    });
    out.push(if r.is_none() { V::Panic } else { V::None });
    if r.is_none() {
        return out;
    }
    for h in hs {
        out.push(V::Num(A::e_kind(&h).into()));
        out.push(rg(A::e_range(&h)));
        if A::e_parent(&h).is_some() {
            out.push(V::Num(A::e_index(&h) as u64));
        }
        out.push(V::Num(A::e_ancestors(&h).count() as u64));
        if let NodeOrToken::Node(n) = &h {
            out.push(V::Green(El::read(&A::green(n))));
        }
    }
    out
}

#[derive(Debug)]
enum Edit {
    Detach(usize, usize),
    Splice(usize, usize, usize, Option<usize>, u16),
}

fn editing(cx: &mut Cx, e: &El, mode: Mode) {
    let f = Flat::new(e);
    let mut ops = Vec::new();
    for id in 0..f.len() {
        ops.push(Edit::Detach(id, 0));
        ops.push(Edit::Detach(id, 1));
    }
    for id in f.nodes() {
        let c = f.els[id].children.len();
        for a in 0..=c {
            for b in a..=c {
                for new in 0..3 {
                    ops.push(Edit::Splice(id, a, b, None, new));
                }
                for old in 0..f.len() {
                    if !f.is_ancestor_or_self(old, id) {
                        ops.push(Edit::Splice(id, a, b, Some(old), 1));
                    }
                }
            }
        }
    }
    for op in &ops {
        cx.case(|| format!("{mode:?} {e:?} {op:?} through both interfaces"));
        cx.step();
        let (a, b) = (edited::<Typ>(e, mode, op), edited::<Cur>(e, mode, op));
        check!(cx, a == b, "{op:?} of {mode:?} {e:?}: typed {a:?}, untyped {b:?}");
        if a[0] != V::Panic {
            cx.nontrivial += 1;
        }
    }
}

fn helper<A: AstNode<Language = Lang> + PartialEq + Clone + std::fmt::Debug>(cx: &mut Cx, f: &Flat, hs: &[E<Typ>], id: usize, what: &dyn Fn() -> String) {
    cx.step();
    let n = hs[id].as_node().unwrap();
    let all: Vec<TNode> = f.els[id].children.iter().filter(|&&c| f.els[c].node).map(|&c| hs[c].as_node().unwrap().clone()).collect();
    let want: Vec<A> = all.iter().filter_map(|x| A::cast(x.clone())).collect();
    check_eq!(cx, support::child::<A>(n), want.first().cloned(), "{}: support::child", what());
    let got: Vec<A> = support::children::<A>(n).take(want.len() + 2).collect();
    check_eq!(cx, got, want, "{}: support::children", what());
    // by places, which equality does not tell for empty elements
    for (g, w) in got.iter().zip(&want) {
        check_eq!(cx, (g.syntax().index(), g.syntax().text_range()), (w.syntax().index(), w.syntax().text_range()), "{}: place of a child", what());
    }
    for k in 0..=want.len() {
        let mut it = support::children::<A>(n);
        for _ in 0..k {
            it.next();
        }
        let c = it.clone();
        check_eq!(cx, it.collect::<Vec<_>>(), want[k..], "{}: support::children after {k}", what());
        check_eq!(cx, c.collect::<Vec<_>>(), want[k..], "{}: a copy of support::children after {k}", what());
    }
    for k in 0..=want.len() + 1 {
        let rest = &want[k.min(want.len())..];
        probe::probes(cx, &|| format!("{}: support::children after {k}", what()), rest.len(),
            |m| probe::probe(support::children::<A>(n), k, m, want.len() + 2),
            |cx, x: &A, i, _| check!(cx, *x == rest[i] && x.syntax().index() == rest[i].syntax().index(), "{}: support::children after {k}: got {x:?}, expected {:?}", what(), rest[i]));
    }
    let mut it = support::children::<A>(n);
    while it.next().is_some() {}
    check!(cx, it.next().is_none() && it.next().is_none(), "{}: support::children after its end", what());
    // copies
    if let Some(a) = A::cast(n.clone()) {
        check_eq!(cx, a.syntax(), n, "{}: syntax", what());
        let c = a.clone_subtree();
        check!(cx, c.syntax().parent().is_none(), "{}: clone_subtree is not a root", what());
        check!(cx, same_green(&c.syntax().green(), &f.to_el(id)), "{}: clone_subtree", what());
        if !n.is_mutable() {
            let c = a.clone_for_update();
            let s = c.syntax();
            check!(cx, s.is_mutable(), "{}: clone_for_update is not mutable", what());
            denotes_node::<Typ>(cx, f, s, id, "clone_for_update");
            let top = s.ancestors().last().unwrap();
            check!(cx, same_green(&top.green(), &f.to_el(0)), "{}: tree of clone_for_update", what());
        }
    }
}

fn helpers_at(cx: &mut Cx, f: &Flat, hs: &[E<Typ>], id: usize, kinds: &[u16], w: &dyn Fn() -> String) {
    helper::<One>(cx, f, hs, id, w);
    helper::<Two>(cx, f, hs, id, w);
    helper::<Both>(cx, f, hs, id, w);
    helper::<Full>(cx, f, hs, id, w);
    let n = hs[id].as_node().unwrap();
    for &k in kinds {
        cx.step();
        let want = f.els[id].children.iter().find(|&&c| !f.els[c].node && f.els[c].kind == k);
        let got = support::token(n, Kind::of(k));
        opt_token::<Typ>(cx, f, got, want.copied(), &format!("support::token({k}) of {}", w()));
    }
}

fn helpers(cx: &mut Cx, e: &El, gm: Gm, mode: Mode) {
    let f = Flat::new(e);
    let root = make::<Typ>(e, gm, mode);
    let hs = handles::<Typ>(&root);
    for id in f.nodes() {
        let w = || format!("node {id} of {gm:?} {mode:?} {e:?}");
        cx.case(|| format!("typed helpers on {}", w()));
        helpers_at(cx, &f, &hs, id, &[1, 2, 3, 4, 5], &w);
    }
    if mode.mutable() {
        // children may be detached while they are gone through
        for id in f.nodes() {
            let root = make::<Typ>(e, gm, mode);
            let Some(NodeOrToken::Node(n)) = reach::<Typ>(&root, &f, id, id % HOWS) else { cx.fail("not reached") };
            cx.step();
            let kids: Vec<usize> = f.els[id].children.iter().copied().filter(|&c| f.els[c].node).collect();
            let mut got = Vec::new();
            for x in support::children::<Both>(&n).take(kids.len() + 1) {
                x.syntax().detach();
                got.push(El::read(&x.syntax().green()));
            }
            let want: Vec<El> = kids.iter().filter(|&&c| [1, 2].contains(&f.els[c].kind)).map(|&c| f.to_el(c)).collect();
            check_eq!(cx, got, want, "children detached while gone through, node {id} of {gm:?} {mode:?} {e:?}");
        }
    }
}

fn main() {
    mc::engine::main("C19", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        let toks: &[(u16, &str)] = &[(2, "é"), (3, "")];
        for (name, s, modes) in [
            ("reading", TreeSpace::new(1, 4, &[1, 2], toks), &MODES[..]),
            ("reading-big", TreeSpace::new(5, tier.pick(5, 6), &[1, 2], toks), &MODES[..2]),
        ] {
            v.push(family(name, format!("every reading operation on every element through both interfaces, on the same handles; every set of kinds as predicate, every offset and range; {}", s.describe()), s.count(), move |cx, i| {
                let e = s.get(i);
                cx.state(&e);
                for &mode in modes {
                    reading(cx, &e, mode);
                }
            }));
        }
        for (name, s, modes) in [
            ("editing", TreeSpace::new(1, 4, &[1], &[(2, "a"), (3, "")]), &[Mode::Mut, Mode::Upd, Mode::Det, Mode::Imm, Mode::Sub][..]),
            ("editing-big", TreeSpace::new(5, tier.pick(5, 6), &[1], &[(2, "a")]), &[Mode::Mut, Mode::Imm][..]),
        ] {
            v.push(family(name, format!("every detach and splice of every node, with every element moved, through both interfaces; {}", s.describe()), s.count(), move |cx, i| {
                let e = s.get(i);
                cx.state(&e);
                for &mode in modes {
                    editing(cx, &e, mode);
                }
            }));
        }
        for (name, s, modes) in [
            ("helpers", TreeSpace::new(1, 5, &[1, 2], &[(1, "a"), (2, "")]), &MODES[..3]),
            ("helpers-big", TreeSpace::new(6, tier.pick(6, 7), &[1, 2, 3], &[(2, "a")]), &MODES[..2]),
        ] {
            v.push(family(name, format!("the child helpers for four node types (one of which casts by contents) and five token kinds on every node, typed copies; {}", s.describe()), s.count(), move |cx, i| {
                let e = s.get(i);
                cx.state(&e);
                for &mode in modes {
                    for gm in GMS {
                        helpers(cx, &e, gm, mode);
                    }
                }
            }));
        }
        let w: Vec<usize> = tier.pick(vec![9, 17, 33, 65, 129], vec![9, 17, 33, 65, 129, 257, 513]);
        let d: Vec<usize> = tier.pick(vec![9, 17, 40], vec![9, 17, 40, 130]);
        let scale = scale_trees(&w, &d);
        v.push(family("scale", format!("every reading operation on elements of large trees through both interfaces; widths {w:?}, depths {d:?}"), scale.len() as u64, move |cx, i| {
            let e = &scale[i as usize];
            cx.state(e);
            let f = Flat::new(e);
            let end = f.els[0].end;
            let mut offsets = vec![0, 1, end / 2, end / 2 + 1, end.saturating_sub(1), end, end + 1];
            offsets.sort();
            let sets = [0, !0, 0b10, 0b1010_1010_1010_1010, 1 << 12, 1 << 2];
            for mode in [Mode::Imm, Mode::Mut] {
                look_at(cx, e, &f, mode, Look { sets: &sets, skips: 2, offsets: &offsets }, &|id| id % (1 + f.len() / 150) == 0 || id + 1 == f.len());
                let root = make::<Typ>(e, Gm::Built, mode);
                let hs = handles::<Typ>(&root);
                for id in f.nodes().into_iter().filter(|&id| f.len() < 200 || id < 3) {
                    let w = || format!("node {id} of {mode:?} {e:?}");
                    cx.case(|| format!("typed helpers on {}", w()));
                    helpers_at(cx, &f, &hs, id, &[3, 10, 11, 13, 0x8001], &w);
                }
            }
        }));
        let s = TreeSpace::new(1, 3, &[1, 2], toks);
        let places = tier.pick(FAR, FARTHER);
        v.push(family("far", format!("every reading operation on the elements of small trees placed far down, far behind other siblings or far into the text, through both interfaces, and the child helpers: {places:?}; {}", s.describe()), s.count() * 6, move |cx, i| {
            let (e, place) = (s.get(i / 6), places[(i % 6) as usize]);
            let (big, base) = place.put(&e);
            cx.state(&(&e, format!("{place:?}")));
            let f = Flat::new(&big);
            let (a, b) = (f.els[base].start, f.els[base].end);
            let mut offsets = vec![a - a.min(1), a, a + 1, b, b + 1];
            offsets.sort();
            offsets.dedup();
            for mode in [Mode::Imm, Mode::Mut] {
                look_at(cx, &big, &f, mode, Look { sets: &[0, !0, 0b10, 0b1100], skips: 2, offsets: &offsets }, &|id| (base..base + e.size()).contains(&id));
                let root = make::<Typ>(&big, GMS[(i / 6 % 2) as usize], mode);
                let hs = handles::<Typ>(&root);
                for id in (base..base + e.size()).filter(|&i| f.els[i].node) {
                    let w = || format!("node {} of {mode:?} {e:?} in {place:?}", id - base);
                    cx.case(|| format!("typed helpers on {}", w()));
                    cx.nontrivial += 1;
                    helpers_at(cx, &f, &hs, id, &[1, 2, 3, 4], &w);
                }
            }
        }));
        // helpers on wide nodes
        let mut units: Vec<(usize, Vec<usize>)> = Vec::new();
        for n in (5..=34).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 1000, 1025]).chain(tier.pick(vec![65537], vec![4097, 65535, 65536, 65537, 70001, 131073])) {
            let mut at: Vec<usize> = if n <= 129 { (0..n).collect() } else { vec![0, 1, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 4095, 65534, 65535, 65536, n / 2, n - 2, n - 1] };
            at.retain(|&x| x < n);
            units.push((n, at));
        }
        v.push(family("helpers-wide", "the child helpers on nodes with 5 to 34, and around 2^6, 2^7, 2^8, 2^10, 2^16 children: every place (some of them beyond 129 children) of the only or the first of two matching children, before, among and after tokens of that kind and nodes that do not cast", units.len() as u64, move |cx, i| {
            let (n, at) = &units[i as usize];
            cx.state(n);
            for mode in [Mode::Imm, Mode::Mut] {
                if mode == Mode::Mut && *n > 300 {
                    continue;
                }
                for (round, &p) in at.iter().enumerate() {
                    let second = [at.len() - 1 - round, round].map(|k| at[k])[round % 2];
                    for what in 0..3 {
                        wide_helper(cx, *n, p, second, what, mode);
                    }
                }
            }
        }));
        v
    })
}

/// Children `p` and `q` of kind 1, the others of kind 2 or tokens; a token of kind 5 is as far.
fn wide_helper(cx: &mut Cx, n: usize, p: usize, q: usize, what: u64, mode: Mode) {
    cx.step();
    cx.case(|| format!("{mode:?} {n} children, matching at {p} and {q}, variant {what}"));
    let e = N(7, (0..n).map(|i| match (what, i % 2) {
        _ if i == p || i == q => if what == 2 { t(5, "k") } else { N(1, vec![T(1, i.to_string())]) },
        (0, _) => t(1, "x"),
        (1, _) => N(2, vec![]),
        (_, 0) => t(4, ""),
        _ => N(5, vec![]),
    }).collect());
    let root = make::<Typ>(&e, Gm::Direct, mode);
    let first = p.min(q);
    let last = p.max(q);
    if what == 2 {
        let got = support::token(&root, Kind::of(5));
        check_eq!(cx, got.as_ref().map(|t| (t.index(), t.kind())), Some((first, Kind::of(5))), "support::token among {n} children, at {p} and {q}");
        check!(cx, support::token(&root, Kind::of(9)).is_none(), "support::token of a kind that is not there");
        check!(cx, support::child::<One>(&root).is_none() && support::children::<One>(&root).next().is_none(), "a child that is not there");
        return;
    }
    cx.nontrivial += 1;
    let num = |x: &One| x.syntax().text().to_string().parse::<usize>().unwrap();
    let got = support::child::<One>(&root);
    check_eq!(cx, got.as_ref().map(|x| (num(x), x.syntax().index())), Some((first, first)), "support::child among {n} children, at {p} and {q}");
    let got: Vec<usize> = support::children::<One>(&root).map(|x| num(&x)).take(4).collect();
    let mut want = vec![first, last];
    want.dedup();
    check_eq!(cx, got, want, "support::children among {n} children, at {p} and {q}");
    let others = if what == 1 { n - want.len() } else { 0 };
    check_eq!(cx, support::children::<Two>(&root).count(), others, "support::children of another type among {n} children");
    let both: Vec<usize> = support::children::<Both>(&root).map(|x| x.syntax().index()).collect();
    let expect: Vec<usize> = if what == 1 { (0..n).collect() } else { want };
    check!(cx, both == expect, "support::children of either type among {n} children, at {p} and {q}");
}
