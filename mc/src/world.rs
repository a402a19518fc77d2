//! Mutable trees under edit: a plain model with element identities, and the same history executed
//! on real trees with any set of live handles.

use crate::api::*;
use crate::engine::{Cx, hash_of};
use crate::model::*;
use crate::tree::*;
use crate::{check, check_eq};
use rowan::NodeOrToken;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Me {
    pub kind: u16,
    pub node: bool,
    pub text: Rc<str>,
    pub children: Vec<usize>,
    pub parent: Option<usize>,
    pub live: bool,
}

/// Ordered trees with identified elements. A tree without any live handle is gone.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Model {
    pub els: Vec<Me>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ins {
    Old(usize),
    /// A fresh element; its handle is kept or dropped.
    Fresh(usize, bool),
}

pub fn fresh(k: usize) -> El {
    match k {
        0 => t(60, "f"),
        1 => N(61, vec![t(62, "gh"), N(63, vec![])]),
        2 => N(64, vec![]),
        _ => t(65, ""),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// Acquire a handle along path variant `.1`.
    Take(usize, usize),
    Drop(usize),
    Detach(usize),
    Splice(usize, usize, usize, Vec<Ins>),
}

impl Model {
    pub fn add(&mut self, e: &El) -> usize {
        let id = self.els.len();
        self.els.push(Me {
            kind: e.kind(),
            node: e.is_node(),
            text: match e {
                T(_, s) => s.as_str().into(),
                _ => "".into(),
            },
            children: vec![],
            parent: None,
            live: false,
        });
        for c in e.children() {
            let cid = self.add(c);
            self.els[id].children.push(cid);
            self.els[cid].parent = Some(id);
        }
        id
    }
    pub fn root_of(&self, mut id: usize) -> usize {
        while let Some(p) = self.els[id].parent {
            id = p;
        }
        id
    }
    pub fn index(&self, id: usize) -> usize {
        match self.els[id].parent {
            None => 0,
            Some(p) => self.els[p].children.iter().position(|&c| c == id).unwrap(),
        }
    }
    pub fn path(&self, mut id: usize) -> Vec<usize> {
        let mut v = Vec::new();
        while let Some(p) = self.els[id].parent {
            v.push(self.index(id));
            id = p;
        }
        v.reverse();
        v
    }
    pub fn contains(&self, a: usize, mut id: usize) -> bool {
        loop {
            if a == id {
                return true;
            }
            match self.els[id].parent {
                None => return false,
                Some(p) => id = p,
            }
        }
    }
    /// Ids of the tree below `id` in preorder.
    pub fn preorder(&self, id: usize) -> Vec<usize> {
        let mut v = vec![id];
        let mut i = 0;
        // children lists are inserted right after their parent
        while i < v.len() {
            let c = self.els[v[i]].children.clone();
            v.splice(i + 1..i + 1, c);
            i += 1;
        }
        v
    }
    pub fn el(&self, id: usize) -> El {
        let m = &self.els[id];
        if m.node {
            N(m.kind, m.children.iter().map(|&c| self.el(c)).collect())
        } else {
            T(m.kind, m.text.to_string())
        }
    }
    pub fn roots(&self) -> Vec<usize> {
        (0..self.els.len()).filter(|&i| self.els[i].parent.is_none()).collect()
    }
    /// A live handle in the tree of `id`.
    pub fn live_near(&self, id: usize) -> Option<usize> {
        if self.els[id].live {
            return Some(id);
        }
        let r = self.root_of(id);
        self.find_live(r)
    }
    fn find_live(&self, id: usize) -> Option<usize> {
        if self.els[id].live {
            return Some(id);
        }
        self.els[id].children.iter().find_map(|&c| self.find_live(c))
    }
    /// Ids whose tree still has a live handle.
    pub fn present(&self) -> Vec<usize> {
        let mut v = Vec::new();
        for r in self.roots() {
            if self.find_live(r).is_some() {
                v.extend(self.preorder(r));
            }
        }
        v.sort();
        v
    }
    fn unlink(&mut self, id: usize) {
        if let Some(p) = self.els[id].parent.take() {
            self.els[p].children.retain(|&c| c != id);
        }
    }
    /// `false`: the operation has to be refused.
    pub fn apply(&mut self, op: &Op) -> bool {
        match op {
            Op::Take(id, _) => self.els[*id].live = true,
            Op::Drop(id) => self.els[*id].live = false,
            Op::Detach(id) => self.unlink(*id),
            Op::Splice(n, a, b, ins) => {
                let del: Vec<usize> = self.els[*n]
                    .children
                    .iter()
                    .enumerate()
                    .filter(|(i, _)| (*a..*b).contains(i))
                    .map(|x| *x.1)
                    .collect();
                for d in del {
                    self.unlink(d);
                }
                let mut at = *a;
                for i in ins {
                    let c = match i {
                        Ins::Old(id) => *id,
                        Ins::Fresh(k, keep) => {
                            let id = self.add(&fresh(*k));
                            self.els[id].live = *keep;
                            id
                        }
                    };
                    // the new child leaves its place first
                    self.unlink(c);
                    if at > self.els[*n].children.len() || self.contains(c, *n) {
                        return false;
                    }
                    self.els[c].parent = Some(*n);
                    self.els[*n].children.insert(at, c);
                    at += 1;
                }
            }
        }
        true
    }
}

/// The real side.
pub struct Real<A: Api> {
    pub h: Vec<Option<E<A>>>,
    ancestry: usize,
}

pub fn fresh_real<A: Api>(k: usize) -> E<A> {
    match fresh(k) {
        e @ N(..) => NodeOrToken::Node(A::new_root_mut(e.green())),
        e @ T(..) => {
            let host = A::new_root_mut(N(66, vec![e]).green());
            let k = A::first_child_or_token(&host).expect("token");
            A::e_detach(&k);
            k
        }
    }
}

impl<A: Api> Default for Real<A> {
    fn default() -> Self {
        Real { h: Vec::new(), ancestry: 0 }
    }
}

impl<A: Api> Real<A> {
    /// Puts a tree in: handles to all elements for which `live` holds in `m`, in the given order.
    /// The elements must be the last ones added to the model.
    pub fn add(&mut self, root: A::N, m: &Model, rid: usize, order: &[usize], how: usize) {
        self.h.resize_with(m.els.len(), || None);
        let e: E<A> = NodeOrToken::Node(root);
        for &id in order {
            let x = Self::descend(e.clone(), &m.path(id), how + id);
            self.h[id] = Some(x);
        }
        let _ = rid;
    }
    fn descend(mut e: E<A>, path: &[usize], how: usize) -> E<A> {
        for &i in path {
            let n = e.into_node().expect("a node on the path");
            e = match how % 5 {
                0 => A::children_with_tokens(&n).nth(i).expect("child"),
                1 => {
                    let mut c = A::first_child_or_token(&n).expect("first child");
                    for _ in 0..i {
                        c = A::e_next(&c).expect("next sibling");
                    }
                    c
                }
                2 => {
                    let w = A::children_with_tokens(&n).count();
                    let mut c = A::last_child_or_token(&n).expect("last child");
                    for _ in i + 1..w {
                        c = A::e_prev(&c).expect("previous sibling");
                    }
                    c
                }
                4 => {
                    // steps that consume the handle
                    let mut c = A::first_child_or_token(&n).expect("first child");
                    for _ in 0..i {
                        c = A::from_raw(A::to_raw(c).to_next_sibling_or_token().expect("next sibling"));
                    }
                    c
                }
                _ => {
                    let all: Vec<E<A>> = A::children_with_tokens(&n).collect();
                    all[i].clone()
                }
            };
        }
        e
    }
    /// A handle to `id`: the live one, or one reached from a live one of the same tree.
    pub fn get(&self, m: &Model, id: usize, how: usize) -> E<A> {
        if let Some(e) = &self.h[id] {
            return e.clone();
        }
        self.reach(m, id, how)
    }
    /// A handle to `id` reached through the tree even if one is live.
    pub fn reach(&self, m: &Model, id: usize, how: usize) -> E<A> {
        let from = m.live_near(id).expect("a live handle");
        let mut e = self.h[from].clone().expect("live");
        // climb to the nearest common ancestor or to the root
        let mut at = from;
        while !m.contains(at, id) || how >= 4 && m.els[at].parent.is_some() {
            e = NodeOrToken::Node(A::e_parent(&e).expect("parent"));
            at = m.els[at].parent.expect("parent");
        }
        let depth = m.path(at).len();
        Self::descend(e, &m.path(id)[depth..], how)
    }
    /// Executes `op`; `m` is the model before it.
    pub fn exec(&mut self, m: &Model, op: &Op) {
        match op {
            Op::Take(id, how) => {
                let e = self.get(m, *id, *how);
                self.h[*id] = Some(e);
            }
            Op::Drop(id) => self.h[*id] = None,
            Op::Detach(id) => {
                let e = self.get(m, *id, 0);
                A::e_detach(&e);
            }
            Op::Splice(n, a, b, ins) => {
                let node = self.get(m, *n, 0).into_node().expect("node");
                let mut news = Vec::new();
                let mut next = m.els.len();
                for i in ins {
                    match i {
                        Ins::Old(id) => news.push(self.get(m, *id, 1)),
                        Ins::Fresh(k, keep) => {
                            let x = fresh_real::<A>(*k);
                            let size = fresh(*k).size();
                            self.h.resize_with(next + size, || None);
                            if *keep {
                                self.h[next] = Some(x.clone());
                            }
                            next += size;
                            news.push(x);
                        }
                    }
                }
                A::splice(&node, *a..*b, news);
            }
        }
        self.ancestry += 1;
    }

    /// Every live handle reports exactly what the model says, and so does every tree read from it.
    pub fn verify(&self, cx: &mut Cx, m: &Model, what: &str) {
        for r in m.roots() {
            if m.find_live(r).is_none() {
                continue;
            }
            let ids = m.preorder(r);
            let e = m.el(r);
            if !e.is_node() {
                let h = self.h[r].as_ref().unwrap();
                cx.step();
                let k = h.as_token().unwrap();
                check_eq!(cx, A::t_text(k), &*m.els[r].text, "{what}: text of lone token {r}");
                check_eq!(cx, A::t_kind(k), m.els[r].kind, "{what}: kind of lone token {r}");
                check_eq!(cx, r32(A::t_range(k)), (0, m.els[r].text.len() as u32), "{what}: range of lone token {r}");
                check!(cx, A::t_parent(k).is_none(), "{what}: lone token {r} has a parent");
                check!(cx, A::t_next_sibling_or_token(k).is_none() && A::t_prev_sibling_or_token(k).is_none(), "{what}: lone token {r} has siblings");
                continue;
            }
            let f = Flat::new(&e);
            let mut top: Option<A::N> = None;
            for (pos, &id) in ids.iter().enumerate() {
                let Some(h) = &self.h[id] else { continue };
                cx.step();
                denotes::<A>(cx, &f, h, pos, what);
                match h {
                    NodeOrToken::Node(n) => {
                        check!(cx, same_green(&A::green(n), &m.el(id)), "{what}: element {id} has become {:?}, expected {:?}", El::read(&A::green(n)), m.el(id));
                        check!(cx, A::is_mutable(n), "{what}: element {id} is not mutable");
                        check_eq!(cx, A::text(n).to_string(), f.text_of(pos), "{what}: text of element {id}");
                        yields::<A>(cx, &f, A::children_with_tokens(n), &f.els[pos].children, what);
                        opt_is::<A>(cx, &f, A::first_child_or_token(n), f.els[pos].children.first().copied(), what);
                        opt_is::<A>(cx, &f, A::last_child_or_token(n), f.els[pos].children.last().copied(), what);
                        let nodes = |ids: &[usize]| -> Vec<usize> { ids.iter().copied().filter(|&i| f.els[i].node).collect() };
                        let kids = nodes(&f.els[pos].children);
                        opt_node::<A>(cx, &f, A::first_child(n), kids.first().copied(), what);
                        opt_node::<A>(cx, &f, A::last_child(n), kids.last().copied(), what);
                        let (sib, i) = f.siblings(pos);
                        opt_node::<A>(cx, &f, A::next_sibling(n), nodes(sib.get(i + 1..).unwrap_or(&[])).first().copied(), what);
                        opt_node::<A>(cx, &f, A::prev_sibling(n), nodes(sib.get(..i).unwrap_or(&[])).last().copied(), what);
                    }
                    NodeOrToken::Token(k) => {
                        let by = |d: isize| {
                            let mut i = pos;
                            loop {
                                i = i.checked_add_signed(d)?;
                                if !f.els.get(i)?.node {
                                    return Some(i);
                                }
                            }
                        };
                        opt_token::<A>(cx, &f, A::t_next_token(k), by(1), what);
                        opt_token::<A>(cx, &f, A::t_prev_token(k), by(-1), what);
                    }
                }
                let (sib, i) = f.siblings(pos);
                opt_is::<A>(cx, &f, A::e_next(h), sib.get(i + 1).copied(), what);
                opt_is::<A>(cx, &f, A::e_prev(h), i.checked_sub(1).map(|i| sib[i]), what);
                if top.is_none() {
                    top = A::e_ancestors(h).last();
                }
            }
            let top = top.unwrap();
            check!(cx, same_green(&A::green(&top), &e), "{what}: the tree has become {:?}, expected {e:?}", El::read(&A::green(&top)));
            check_eq!(cx, u32::from(A::green(&top).text_len()), f.els[0].end, "{what}: length of the tree {e:?}");
            // all of it at once; those handed out before are the same elements
            let hs = handles::<A>(&top);
            check_eq!(cx, hs.len(), f.len(), "{what}: number of elements");
            for (pos, x) in hs.iter().enumerate() {
                attrs::<A>(cx, &f, x, pos, what);
                if let Some(h) = &self.h[ids[pos]] {
                    check!(cx, h == x, "{what}: the live handle of element {} differs from one reached from the root", ids[pos]);
                    check!(cx, hash_of(h) == hash_of(x), "{what}: hash of element {}", ids[pos]);
                }
            }
        }
    }
}

/// Every live handle agrees with the tree it is in; the model of what is there now.
pub fn resync<A: Api>(cx: &mut Cx, r: &mut Real<A>, before: &Model, what: &str) -> Model {
    let mut m = Model::default();
    let mut tops: Vec<(E<A>, usize)> = Vec::new();
    let mut h: Vec<Option<E<A>>> = Vec::new();
    for (old, x) in std::mem::take(&mut r.h).into_iter().enumerate() {
        let Some(x) = x else { continue };
        cx.step();
        let kind = A::e_kind(&x);
        if let Some(e) = before.els.get(old) {
            check_eq!(cx, kind, e.kind, "{what}: kind of the handle to element {old}");
            check_eq!(cx, x.as_node().is_some(), e.node, "{what}: element {old}: node or token");
        }
        // climb
        let mut path = Vec::new();
        let mut top = x.clone();
        let mut hops = 0;
        while let Some(p) = A::e_parent(&top) {
            path.push(A::e_index(&top));
            top = NodeOrToken::Node(p);
            hops += 1;
            check!(cx, hops < 1000, "{what}: the ancestors of a handle do not end");
        }
        path.reverse();
        let base = match tops.iter().find(|t| t.0 == top) {
            Some(t) => t.1,
            None => {
                let e = match &top {
                    NodeOrToken::Node(n) => El::read(&A::green(n)),
                    NodeOrToken::Token(k) => T(A::t_kind(k), A::t_text(k).to_string()),
                };
                let base = m.add(&e);
                tops.push((top.clone(), base));
                base
            }
        };
        let mut id = base;
        for i in path {
            match m.els[id].children.get(i) {
                Some(&c) => id = c,
                None => cx.fail(format!("{what}: a handle of kind {kind} has index {i} among {} children", m.els[id].children.len())),
            }
        }
        h.resize_with(m.els.len(), || None);
        check_eq!(cx, m.els[id].kind, kind, "{what}: kind found at the place of the handle");
        m.els[id].live = true;
        h[id] = Some(x);
    }
    h.resize_with(m.els.len(), || None);
    r.h = h;
    r.verify(cx, &m, what);
    let e = crate::alloc::take_errors();
    check!(cx, !e.any(), "memory errors: {e:?}");
    m
}

/// Runs a history from the start: `init` is the model with the live flags set.
pub struct History<'a> {
    pub trees: &'a [El],
    pub gm: Gm,
    pub mode: Mode,
    /// Order in which the initial handles are acquired, by tree.
    pub order: &'a [Vec<usize>],
    pub how: usize,
    pub ops: &'a [Op],
}

impl History<'_> {
    pub fn describe(&self, name: &str) -> String {
        format!(
            "{name} {:?} {:?} trees {:?} (elements numbered in preorder), handles acquired {:?} how {}, then {:?}",
            self.gm, self.mode, self.trees, self.order, self.how, self.ops
        )
    }
    pub fn start<A: Api>(&self) -> (Real<A>, Model) {
        let mut m = Model::default();
        let mut r = Real::default();
        for (t, o) in self.trees.iter().zip(self.order) {
            let rid = m.add(t);
            let root = make::<A>(t, self.gm, self.mode);
            r.add(root, &m, rid, o, self.how);
            for &i in o {
                m.els[i].live = true;
            }
        }
        (r, m)
    }
    /// Executes everything; the trees are not looked at before the end.
    pub fn run<A: Api>(&self) -> (Real<A>, Model) {
        let (mut r, mut m) = self.start::<A>();
        for op in self.ops {
            r.exec(&m, op);
            m.apply(op);
        }
        (r, m)
    }
}

/// How rich the set of edits is.
#[derive(Clone, Copy)]
pub struct Edits {
    pub wide_ranges: bool,
    pub pairs: bool,
    pub fresh: usize,
    pub keep: bool,
    pub handles: bool,
    pub detach: bool,
}

/// All edits enabled in `m` (those the model refuses included).
pub fn edits(m: &Model, x: Edits) -> Vec<Op> {
    let mut v = Vec::new();
    let here = m.present();
    if x.handles {
        for &id in &here {
            if m.els[id].live {
                v.push(Op::Drop(id));
            } else {
                v.push(Op::Take(id, 0));
                if x.keep {
                    v.push(Op::Take(id, 4));
                }
            }
        }
    }
    if x.detach {
        for &id in &here {
            v.push(Op::Detach(id));
        }
    }
    for &n in here.iter().filter(|&&i| m.els[i].node) {
        let c = m.els[n].children.len();
        let mut ranges = Vec::new();
        for a in 0..=c {
            for b in a..=c {
                if x.wide_ranges || b <= a + 1 {
                    ranges.push((a, b));
                }
            }
        }
        if x.wide_ranges {
            ranges.push((0, c + 2));
            ranges.push((c, usize::MAX));
        }
        let mut ins: Vec<Vec<Ins>> = vec![vec![]];
        for k in 0..x.fresh {
            ins.push(vec![Ins::Fresh(k, false)]);
            if x.keep {
                ins.push(vec![Ins::Fresh(k, true)]);
            }
        }
        for &o in &here {
            if !m.contains(o, n) {
                ins.push(vec![Ins::Old(o)]);
            }
        }
        if x.pairs {
            ins.push(vec![Ins::Fresh(0, true), Ins::Fresh(1, true)]);
            for &o in &here {
                if m.contains(o, n) {
                    continue;
                }
                ins.push(vec![Ins::Old(o), Ins::Fresh(0, false)]);
                ins.push(vec![Ins::Fresh(1, true), Ins::Old(o)]);
                for &p in &here {
                    if p != o && !m.contains(p, n) {
                        ins.push(vec![Ins::Old(o), Ins::Old(p)]);
                    }
                }
            }
        }
        for &(a, b) in &ranges {
            for i in &ins {
                if i.is_empty() && a == b {
                    continue;
                }
                v.push(Op::Splice(n, a, b, i.clone()));
            }
        }
    }
    v
}

/// A small tree in a far place: edits of its elements (`base..base + size` to begin with), of what
/// came later and of the node `host` it was put into.
pub fn far_edits(m: &Model, from: usize, base: usize, size: usize, host: Option<usize>) -> Vec<Op> {
    let mut v = Vec::new();
    let here = m.present();
    let own: Vec<usize> = here.iter().copied().filter(|&i| (base..base + size).contains(&i) || i >= from).collect();
    let news = |n: usize| {
        let mut ins: Vec<Vec<Ins>> = vec![vec![], vec![Ins::Fresh(0, false)], vec![Ins::Fresh(1, true)]];
        ins.extend(own.iter().filter(|&&o| !m.contains(o, n)).map(|&o| vec![Ins::Old(o)]));
        ins
    };
    v.extend(own.iter().map(|&i| Op::Detach(i)));
    for &n in own.iter().filter(|&&i| m.els[i].node) {
        let c = m.els[n].children.len();
        for a in 0..=c {
            for b in a..=c.min(a + 1) {
                for i in news(n) {
                    if !i.is_empty() || a != b {
                        v.push(Op::Splice(n, a, b, i));
                    }
                }
            }
        }
    }
    if let Some(n) = host.filter(|h| here.contains(h)) {
        let c = m.els[n].children.len();
        let at = m.els[n].children.iter().position(|&c| c == base).unwrap_or(c);
        let mut ranges = vec![(0, 0), (0, 1), (0, at), (at, at), (at, at + 1), (at + 1, at + 1), (at + 1, c), (c, c)];
        ranges.retain(|r| r.0 <= r.1 && r.1 <= c);
        ranges.dedup();
        for (a, b) in ranges {
            for i in news(n) {
                if !i.is_empty() || a != b {
                    v.push(Op::Splice(n, a, b, i));
                }
            }
        }
        v.push(Op::Detach(n));
    }
    v
}

/// All ordered selections (every subset in every order) of `0..n`, shifted by `base`.
pub fn selections(n: usize, base: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        let mut next = Vec::new();
        for s in &last {
            for i in 0..n {
                if !s.contains(&(base + i)) {
                    let mut t = s.clone();
                    t.push(base + i);
                    next.push(t);
                }
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// Every subset, in increasing and in decreasing order.
pub fn subsets(n: usize, base: usize) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    for bits in 0..1u64 << n {
        let s: Vec<usize> = (0..n).filter(|i| bits >> i & 1 == 1).map(|i| base + i).collect();
        if s.len() > 1 {
            out.push(s.iter().rev().copied().collect());
        }
        out.push(s);
    }
    out
}
