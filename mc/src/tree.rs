//! Building syntax trees from model trees, reaching elements, and comparing handles to the model.

use crate::api::*;
use crate::engine::Cx;
use crate::model::*;
use crate::{check, check_eq};
use rowan::{GreenNode, NodeOrToken};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Gm {
    /// Every element its own allocation.
    Direct,
    /// Through a builder: equal elements shared.
    Built,
}
pub const GMS: [Gm; 2] = [Gm::Direct, Gm::Built];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Imm,
    Mut,
    /// Mutable copy of an immutable tree.
    Upd,
    /// Mutable tree that was detached from a larger one.
    Det,
    /// Immutable copy of a subtree of a larger immutable tree.
    Sub,
}
pub const MODES: [Mode; 5] = [Mode::Imm, Mode::Mut, Mode::Upd, Mode::Det, Mode::Sub];

impl Mode {
    pub fn mutable(self) -> bool {
        matches!(self, Mode::Mut | Mode::Upd | Mode::Det)
    }
}

pub fn green(e: &El, gm: Gm) -> GreenNode {
    match gm {
        Gm::Direct => e.green(),
        Gm::Built => e.green_built(),
    }
}

/// A syntax tree of the given kind; the returned handle is its root.
pub fn make<A: Api>(e: &El, gm: Gm, mode: Mode) -> A::N {
    match mode {
        Mode::Imm => A::new_root(green(e, gm)),
        Mode::Mut => A::new_root_mut(green(e, gm)),
        Mode::Upd => A::clone_for_update(&A::new_root(green(e, gm))),
        Mode::Det | Mode::Sub => {
            let big = N(7, vec![t(8, "left"), N(9, vec![t(8, "x"), e.clone()]), t(8, "right")]);
            let g = green(&big, gm);
            let root = if mode == Mode::Det { A::new_root_mut(g) } else { A::new_root(g) };
            let n = A::first_child(&root).expect("first child");
            let me = A::first_child(&n).expect("first child");
            if mode == Mode::Det {
                A::detach(&me);
                me
            } else {
                A::clone_subtree(&me)
            }
        }
    }
}

/// All elements of the tree in preorder (one live handle each), by a plain recursive walk.
pub fn handles<A: Api>(root: &A::N) -> Vec<E<A>> {
    let mut out = Vec::new();
    fn go<A: Api>(e: E<A>, out: &mut Vec<E<A>>) {
        out.push(e.clone());
        if let NodeOrToken::Node(n) = e {
            let mut c = A::first_child_or_token(&n);
            while let Some(x) = c {
                c = A::e_next(&x);
                go::<A>(x, out);
            }
        }
    }
    go::<A>(NodeOrToken::Node(root.clone()), &mut out);
    out
}

/// Ways of reaching one element from the root.
pub const HOWS: usize = 6;
pub fn reach<A: Api>(root: &A::N, f: &Flat, id: usize, how: usize) -> Option<E<A>> {
    let mut cur: E<A> = NodeOrToken::Node(root.clone());
    if how == 4 {
        return A::descendants_with_tokens(root).nth(id);
    }
    for i in f.path(id) {
        let n = cur.into_node()?;
        cur = match how {
            0 => A::children_with_tokens(&n).nth(i)?,
            1 => {
                let mut c = A::first_child_or_token(&n)?;
                for _ in 0..i {
                    c = A::e_next(&c)?;
                }
                c
            }
            2 => {
                let w = A::children_with_tokens(&n).count();
                let mut c = A::last_child_or_token(&n)?;
                for _ in i + 1..w {
                    c = A::e_prev(&c)?;
                }
                c
            }
            5 => {
                // steps that consume the handle
                let mut c = A::first_child_or_token(&n)?;
                for _ in 0..i {
                    c = A::from_raw(A::to_raw(c).to_next_sibling_or_token()?);
                }
                c
            }
            _ => {
                // from the middle outwards, keeping all handles of the level alive meanwhile
                let all: Vec<E<A>> = A::children_with_tokens(&n).collect();
                all.get(i)?.clone()
            }
        };
    }
    Some(cur)
}

/// The reported attributes of `e` are exactly those of element `id`.
pub fn attrs<A: Api>(cx: &Cx, f: &Flat, e: &E<A>, id: usize, what: &str) {
    let m = &f.els[id];
    check_eq!(cx, e.as_node().is_some(), m.node, "{what}: node or token, element {id}");
    match e {
        NodeOrToken::Node(n) => {
            check_eq!(cx, A::kind(n), m.kind, "{what}: kind of element {id}");
            check_eq!(cx, r32(A::range(n)), (m.start, m.end), "{what}: range of element {id}");
        }
        NodeOrToken::Token(k) => {
            check_eq!(cx, A::t_kind(k), m.kind, "{what}: kind of element {id}");
            check_eq!(cx, r32(A::t_range(k)), (m.start, m.end), "{what}: range of element {id}");
            check_eq!(cx, A::t_text(k), f.text_of(id), "{what}: text of element {id}");
        }
    }
    if m.parent.is_some() {
        check_eq!(cx, A::e_index(e), m.index, "{what}: index of element {id}");
    }
}

/// `e` is element `id`: its attributes and those of its whole chain of ancestors agree.
pub fn denotes<A: Api>(cx: &Cx, f: &Flat, e: &E<A>, id: usize, what: &str) {
    attrs::<A>(cx, f, e, id, what);
    let mut cur = A::e_parent(e);
    let mut mid = f.els[id].parent;
    let mut up = 0;
    loop {
        up += 1;
        match (&cur, mid) {
            (None, None) => return,
            (Some(n), Some(p)) => {
                let el: E<A> = NodeOrToken::Node(n.clone());
                attrs::<A>(cx, f, &el, p, what);
                cur = A::parent(n);
                mid = f.els[p].parent;
            }
            (got, want) => cx.fail(format!(
                "{what}: ancestor {up} of element {id}: got {:?}, expected element {want:?}",
                got.as_ref().map(|n| r32(A::range(n)))
            )),
        }
    }
}

pub fn denotes_node<A: Api>(cx: &Cx, f: &Flat, n: &A::N, id: usize, what: &str) {
    denotes::<A>(cx, f, &NodeOrToken::Node(n.clone()), id, what)
}
pub fn denotes_token<A: Api>(cx: &Cx, f: &Flat, n: &A::T, id: usize, what: &str) {
    denotes::<A>(cx, f, &NodeOrToken::Token(n.clone()), id, what)
}

pub fn opt_is<A: Api>(cx: &mut Cx, f: &Flat, got: Option<E<A>>, want: Option<usize>, what: &str) {
    cx.step();
    match (got, want) {
        (None, None) => {}
        (Some(e), Some(id)) => denotes::<A>(cx, f, &e, id, what),
        (Some(e), None) => {
            cx.fail(format!("{what}: got an element at {:?}, expected none", r32(A::e_range(&e))))
        }
        (None, Some(id)) => cx.fail(format!("{what}: got none, expected element {id}")),
    }
}
pub fn opt_node<A: Api>(cx: &mut Cx, f: &Flat, got: Option<A::N>, want: Option<usize>, what: &str) {
    opt_is::<A>(cx, f, got.map(NodeOrToken::Node), want, what)
}
pub fn opt_token<A: Api>(cx: &mut Cx, f: &Flat, got: Option<A::T>, want: Option<usize>, what: &str) {
    opt_is::<A>(cx, f, got.map(NodeOrToken::Token), want, what)
}

/// An iterator yields exactly these elements, then stays at its end.
pub fn yields<A: Api>(
    cx: &mut Cx,
    f: &Flat,
    it: impl Iterator<Item = E<A>>,
    want: &[usize],
    what: &str,
) {
    let got: Vec<E<A>> = it.take(want.len() + 2).collect();
    for (i, e) in got.iter().enumerate() {
        cx.step();
        match want.get(i) {
            Some(&id) => denotes::<A>(cx, f, e, id, what),
            None => cx.fail(format!(
                "{what}: yields more than the expected {} elements: {:?}",
                want.len(),
                r32(A::e_range(e))
            )),
        }
    }
    check!(
        cx,
        got.len() == want.len(),
        "{what}: yields {} elements, expected {} ({:?})",
        got.len(),
        want.len(),
        want
    );
}

/// The whole syntax tree below `root` has exactly this structure, text and ranges.
pub fn same_tree<A: Api>(cx: &Cx, root: &A::N, f: &Flat, what: &str) {
    let hs = handles::<A>(root);
    check_eq!(cx, hs.len(), f.len(), "{what}: number of elements");
    for (id, e) in hs.iter().enumerate() {
        attrs::<A>(cx, f, e, id, what);
    }
    check_eq!(cx, A::text(root).to_string(), f.text, "{what}: text");
}

/// Every provided method of an iterator that `e` offers, from every point of its run: it yields `want` (1: as an enter, 2: as a leave, 0: plainly).
pub fn provided<A: Api>(cx: &mut Cx, f: &Flat, e: &E<A>, it: It, from: usize, want: &[(u8, usize)], what: &dyn Fn() -> String) {
    let cap = want.len() + 2;
    for k in from..=want.len() + 1 {
        let rest = &want[k.min(want.len())..];
        crate::probe::probes(
            cx,
            &|| format!("{} after {k} of {}", what(), want.len()),
            rest.len(),
            |m| match e {
                NodeOrToken::Node(n) => A::probe(n, it, k, m, cap),
                NodeOrToken::Token(t) => A::t_probe(t, it, k, m, cap),
            },
            |cx, (how, x), i, what| {
                check_eq!(cx, *how, rest[i].0, "{what}: enter or leave");
                attrs::<A>(cx, f, x, rest[i].1, what)
            },
        );
    }
}
pub fn plainly(ids: &[usize]) -> Vec<(u8, usize)> {
    ids.iter().map(|&i| (0, i)).collect()
}
