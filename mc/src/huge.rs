//! Trees whose text is about as long as an offset can count (4 GiB), made of shared parts so that
//! they take little memory; and the model of them.

use crate::api::*;
use crate::{Cx, check, check_eq};
use rowan::{GreenNode, GreenNodeBuilder, GreenToken, NodeOrToken, SyntaxKind};
use std::collections::HashMap;
use std::rc::Rc;

pub const MAX: u64 = u32::MAX as u64;
pub const MIB: u64 = 1 << 20;
const PATTERN: &[u8; 7] = b"abcdefg";

/// An element of a tree with shared parts. Every distinct element has a kind of its own.
pub struct D {
    pub kind: u16,
    pub len: u64,
    /// `None` for tokens.
    pub children: Option<Vec<Rc<D>>>,
}

pub fn token_text(len: u64) -> String {
    let mut s = String::with_capacity(len as usize + 7);
    while (s.len() as u64) < len {
        s.push_str("abcdefg");
    }
    s.truncate(len as usize);
    s
}

pub fn token(kind: u16, len: u64) -> Rc<D> {
    Rc::new(D { kind, len, children: None })
}
pub fn node(kind: u16, children: Vec<Rc<D>>) -> Rc<D> {
    Rc::new(D { kind, len: children.iter().map(|c| c.len).sum(), children: Some(children) })
}

pub type Green = NodeOrToken<GreenNode, GreenToken>;

impl D {
    pub fn is_node(&self) -> bool {
        self.children.is_some()
    }
    pub fn kids(&self) -> &[Rc<D>] {
        self.children.as_deref().unwrap_or(&[])
    }
    /// Offset of a child in its parent.
    pub fn rel(&self, i: usize) -> u64 {
        self.kids()[..i].iter().map(|c| c.len).sum()
    }
    pub fn green_el(self: &Rc<D>, memo: &mut HashMap<*const D, Green>) -> Green {
        if let Some(g) = memo.get(&Rc::as_ptr(self)) {
            return g.clone();
        }
        let g: Green = match &self.children {
            None => GreenToken::new(SyntaxKind(self.kind), &token_text(self.len)).into(),
            Some(c) => {
                let c: Vec<Green> = c.iter().map(|c| c.green_el(memo)).collect();
                GreenNode::new(SyntaxKind(self.kind), c).into()
            }
        };
        memo.insert(Rc::as_ptr(self), g.clone());
        g
    }
    pub fn green(self: &Rc<D>) -> GreenNode {
        self.green_el(&mut HashMap::new()).into_node().unwrap()
    }
    /// (start, path) of the tokens that touch an offset: at most two, without empty ones.
    pub fn touching(&self, at: u64, base: u64, path: &mut Vec<usize>, out: &mut Vec<(u64, u64, u16, Vec<usize>)>) {
        if self.len == 0 || at < base || at > base + self.len {
            return;
        }
        if !self.is_node() {
            out.push((base, base + self.len, self.kind, path.clone()));
            return;
        }
        let mut b = base;
        for (i, c) in self.kids().iter().enumerate() {
            if b > at {
                break;
            }
            path.push(i);
            c.touching(at, b, path, out);
            path.pop();
            b += c.len;
        }
    }
    /// The deepest element that contains a non-empty range: (start, end, path).
    pub fn covering(&self, from: u64, to: u64) -> (u64, u64, Vec<usize>) {
        let (mut d, mut base, mut path) = (self, 0, Vec::new());
        'down: loop {
            let mut b = base;
            for (i, c) in d.kids().iter().enumerate() {
                if b <= from && to <= b + c.len {
                    path.push(i);
                    d = c;
                    base = b;
                    continue 'down;
                }
                b += c.len;
            }
            return (base, base + d.len, path);
        }
    }
    pub fn byte(&self, mut at: u64) -> u8 {
        let mut d = self;
        'down: loop {
            for c in d.kids() {
                if at < c.len {
                    d = c;
                    continue 'down;
                }
                at -= c.len;
            }
            assert!(!d.is_node());
            return PATTERN[(at % 7) as usize];
        }
    }
    pub fn slice(&self, a: u64, b: u64) -> String {
        (a..b).map(|o| self.byte(o) as char).collect()
    }
    /// Elements along a path: (start, element).
    pub fn along(self: &Rc<D>, path: &[usize]) -> Vec<(u64, Rc<D>)> {
        let mut out = vec![(0, self.clone())];
        for &i in path {
            let (s, d) = out.last().unwrap().clone();
            out.push((s + d.rel(i), d.kids()[i].clone()));
        }
        out
    }
    /// Root-to-leaf paths along the edges of the tree and through each of the root's children.
    pub fn paths(self: &Rc<D>) -> Vec<Vec<usize>> {
        fn down(d: &Rc<D>, pick: impl Fn(usize, usize) -> usize) -> Vec<usize> {
            let (mut d, mut p) = (d.clone(), vec![]);
            while !d.kids().is_empty() {
                let i = pick(p.len(), d.kids().len());
                p.push(i);
                let c = d.kids()[i].clone();
                d = c;
            }
            p
        }
        let n = self.kids().len();
        let mut v = vec![down(self, |_, _| 0), down(self, |_, n| n - 1), down(self, |d, n| if d % 2 == 0 { 0 } else { n - 1 }), down(self, |_, n| n / 2)];
        for i in (0..n).filter(|&i| n < 40 || i < 3 || i + 3 > n || (i & (i - 1)) == 0 || i == n / 2) {
            v.push(down(self, |d, n| if d == 0 { i } else { n - 1 }));
            v.push(down(self, |d, n| if d == 0 { i } else { d % n }));
        }
        v.sort();
        v.dedup();
        v
    }
    /// Offsets of interest: the ends of the elements along those paths and their neighbours.
    pub fn offsets(self: &Rc<D>) -> Vec<u64> {
        let mut v = vec![0, 1, self.len / 2, (1 << 31) - 1, 1 << 31, (1 << 31) + 1];
        for p in self.paths() {
            for (s, d) in self.along(&p) {
                for o in [s, s + d.len] {
                    v.extend([o.saturating_sub(1), o, o + 1]);
                }
            }
        }
        v.retain(|&o| o <= self.len);
        v.sort();
        v.dedup();
        v
    }
}

/// Trees with exactly this length of text.
pub fn shapes(total: u64) -> Vec<(&'static str, Rc<D>)> {
    let mut v = Vec::new();
    // halves of halves
    let mut d = vec![token(100, 1)];
    for k in 1..=33u16 {
        let x = d[k as usize - 1].clone();
        d.push(node(100 + k, vec![x.clone(), x]));
    }
    let bits: Vec<Rc<D>> = (0..34).filter(|k| total >> k & 1 == 1).map(|k| d[k].clone()).collect();
    v.push(("powers of two, ascending", node(1, bits.clone())));
    v.push(("powers of two, descending", node(1, bits.into_iter().rev().collect())));
    // flat
    let big = token(200, MIB);
    let mut c: Vec<Rc<D>> = (0..total / MIB).map(|_| big.clone()).collect();
    c.push(token(201, 0));
    c.push(token(202, total % MIB));
    v.push(("1 MiB tokens", node(2, c)));
    // deep to the right and to the left
    for left in [false, true] {
        let big = token(300, MIB << 4);
        let mut x = node(301, vec![token(302, total % (MIB << 4)), node(303, vec![])]);
        for i in 0..(total / (MIB << 4)) as u16 {
            x = node(304 + i, if left { vec![x, big.clone()] } else { vec![big.clone(), x] });
        }
        v.push((if left { "deep to the left" } else { "deep to the right" }, x));
    }
    v
}

pub fn totals() -> Vec<u64> {
    vec![(1 << 31) - 1, 1 << 31, (1 << 31) + 1, MAX - MIB, MAX - 1, MAX]
}

/// The element at a path, reached down from the root.
pub fn reach<A: Api>(root: &A::N, d: &Rc<D>, path: &[usize], how: usize) -> Vec<E<A>> {
    let mut out: Vec<E<A>> = vec![NodeOrToken::Node(root.clone())];
    let mut d = d.clone();
    for &i in path {
        let n = out.last().unwrap().as_node().unwrap().clone();
        let len = d.kids().len();
        let c = match how {
            0 => A::children_with_tokens(&n).nth(i).unwrap(),
            _ if i < len / 2 => {
                let mut c = A::first_child_or_token(&n).unwrap();
                for _ in 0..i {
                    c = A::e_next(&c).unwrap();
                }
                c
            }
            _ => {
                let mut c = A::last_child_or_token(&n).unwrap();
                for _ in i + 1..len {
                    c = A::e_prev(&c).unwrap();
                }
                c
            }
        };
        out.push(c);
        let x = d.kids()[i].clone();
        d = x;
    }
    out
}

pub fn e32(r: rowan::TextRange) -> (u64, u64) {
    (u32::from(r.start()) as u64, u32::from(r.end()) as u64)
}

/// A handle is the element at a path: kind, range, place, and the text of tokens.
pub fn is_at<A: Api>(cx: &mut Cx, d: &Rc<D>, path: &[usize], h: &E<A>, what: &str) {
    cx.step();
    let (s, x) = d.along(path).pop().unwrap();
    check_eq!(cx, A::e_kind(h), x.kind, "{what}: kind at {path:?}");
    check_eq!(cx, e32(A::e_range(h)), (s, s + x.len), "{what}: range at {path:?}");
    let mut up: Vec<usize> = Vec::new();
    let mut cur = h.clone();
    while let Some(p) = A::e_parent(&cur) {
        up.push(A::e_index(&cur));
        cur = NodeOrToken::Node(p);
    }
    up.reverse();
    check_eq!(cx, up, path, "{what}: place");
    match h {
        NodeOrToken::Node(n) => {
            check_eq!(cx, u32::from(A::green(n).text_len()) as u64, x.len, "{what}: green length at {path:?}");
            check_eq!(cx, u32::from(A::text(n).len()) as u64, x.len, "{what}: text length at {path:?}");
        }
        NodeOrToken::Token(t) => {
            let text = A::t_text(t);
            check_eq!(cx, text.len() as u64, x.len, "{what}: token length at {path:?}");
            check!(cx, text.len() < 1 << 21 || text.starts_with("abcdefgabc"), "{what}: token text at {path:?}");
        }
    }
}

/// Every way to build a node of given children out of green elements.
pub const BUILDS: usize = 8;
pub fn build(kind: u16, c: &[Green], how: usize) -> GreenNode {
    let k = SyntaxKind(kind);
    let empty = GreenNode::new(k, Vec::new());
    let last = c.len() - 1;
    let dot = || -> Green { GreenToken::new(SyntaxKind(9), "").into() };
    match how {
        0 => GreenNode::new(k, c.to_vec()),
        1 => empty.splice_children(.., c.to_vec()),
        2 => c.iter().fold(empty, |n, c| n.insert_child(n.children().len(), c.clone())),
        3 => c.iter().rev().fold(empty, |n, c| n.insert_child(0, c.clone())),
        4 => {
            let mut v = c[..last].to_vec();
            v.push(dot());
            GreenNode::new(k, v).replace_child(last, c[last].clone())
        }
        5 => {
            let mut v = c[..last].to_vec();
            v.push(dot());
            let r = rowan::cursor::SyntaxNode::new_root(GreenNode::new(k, v));
            // substitute below the root
            match (&c[last], r.last_child_or_token().unwrap()) {
                (NodeOrToken::Token(t), NodeOrToken::Token(x)) => x.replace_with(GreenToken::new(SyntaxKind(9), t.text())),
                (NodeOrToken::Node(n), _) => {
                    let e = GreenNode::new(n.kind(), Vec::new());
                    let r = rowan::cursor::SyntaxNode::new_root(r.green().into_owned().replace_child(last, e.into()));
                    r.last_child().unwrap().replace_with(n.clone())
                }
                _ => unreachable!(),
            }
        }
        6 => {
            let root = rowan::cursor::SyntaxNode::new_root_mut(empty);
            for (i, c) in c.iter().enumerate() {
                root.splice_children(i..i, vec![mutable(c)]);
            }
            root.green().into_owned()
        }
        _ => {
            let root = rowan::cursor::SyntaxNode::new_root_mut(empty);
            root.splice_children(0..0, c.iter().map(mutable).collect::<Vec<_>>());
            root.green().into_owned()
        }
    }
}

pub fn mutable(c: &Green) -> rowan::cursor::SyntaxElement {
    match c {
        NodeOrToken::Node(n) => NodeOrToken::Node(rowan::cursor::SyntaxNode::new_root_mut(n.clone())),
        NodeOrToken::Token(_) => {
            let r = rowan::cursor::SyntaxNode::new_root_mut(GreenNode::new(SyntaxKind(0), vec![c.clone()]));
            let t = r.first_child_or_token().unwrap();
            t.detach();
            t
        }
    }
}

/// Build by a builder: the doubled node is finished from equal parts.
pub fn doubled(b: &mut GreenNodeBuilder<'_>, kind: u16, text: &str, times: usize) {
    b.start_node(SyntaxKind(kind));
    for _ in 0..times {
        b.token(SyntaxKind(kind), text);
    }
    b.finish_node();
}

/// The tree with the children of one node edited.
pub fn edited(d: &Rc<D>, path: &[usize], f: &mut dyn FnMut(&mut Vec<Rc<D>>)) -> Rc<D> {
    let mut kids = d.kids().to_vec();
    match path.split_first() {
        None => f(&mut kids),
        Some((&i, rest)) => kids[i] = edited(&kids[i], rest, f),
    }
    node(d.kind, kids)
}
