//! Reference model: plain ordered trees, and the enumeration of all of them within bounds.

use rowan::{GreenNode, GreenNodeBuilder, GreenToken, NodeCache, NodeOrToken, SyntaxKind};

/// A plain ordered tree.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum El {
    N(u16, Vec<El>),
    T(u16, String),
}

pub use El::{N, T};

pub type GreenEl = NodeOrToken<GreenNode, GreenToken>;

impl std::fmt::Debug for El {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            N(k, c) => {
                write!(f, "{k}(")?;
                for (i, e) in c.iter().enumerate() {
                    if i > 0 {
                        write!(f, " ")?;
                    }
                    if i == 40 && c.len() > 60 {
                        write!(f, ".. {} more", c.len() - 40)?;
                        break;
                    }
                    write!(f, "{e:?}")?;
                }
                write!(f, ")")
            }
            T(k, t) => write!(f, "{k}:{t:?}"),
        }
    }
}

pub fn t(k: u16, s: &str) -> El {
    T(k, s.to_string())
}

impl El {
    pub fn kind(&self) -> u16 {
        match self {
            N(k, _) | T(k, _) => *k,
        }
    }
    pub fn is_node(&self) -> bool {
        matches!(self, N(..))
    }
    pub fn children(&self) -> &[El] {
        match self {
            N(_, c) => c,
            T(..) => &[],
        }
    }
    pub fn push_text(&self, out: &mut String) {
        match self {
            N(_, c) => c.iter().for_each(|e| e.push_text(out)),
            T(_, t) => out.push_str(t),
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.push_text(&mut s);
        s
    }
    pub fn len(&self) -> u32 {
        match self {
            N(_, c) => c.iter().map(|e| e.len()).sum(),
            T(_, t) => t.len() as u32,
        }
    }
    /// Number of elements.
    pub fn size(&self) -> usize {
        1 + self.children().iter().map(|e| e.size()).sum::<usize>()
    }

    /// Green tree without any sharing, built bottom-up from parts.
    pub fn green_el(&self) -> GreenEl {
        match self {
            N(..) => NodeOrToken::Node(self.green()),
            T(k, t) => NodeOrToken::Token(GreenToken::new(SyntaxKind(*k), t)),
        }
    }
    pub fn green(&self) -> GreenNode {
        match self {
            N(k, c) => {
                GreenNode::new(SyntaxKind(*k), c.iter().map(|e| e.green_el()).collect::<Vec<_>>())
            }
            T(..) => panic!("token"),
        }
    }
    pub fn emit(&self, b: &mut GreenNodeBuilder<'_>) {
        match self {
            N(k, c) => {
                b.start_node(SyntaxKind(*k));
                for e in c {
                    e.emit(b);
                }
                b.finish_node();
            }
            T(k, t) => b.token(SyntaxKind(*k), t),
        }
    }
    /// Green tree with equal elements shared, as a parser would build it.
    pub fn green_built(&self) -> GreenNode {
        let mut b = GreenNodeBuilder::new();
        self.emit(&mut b);
        b.finish()
    }
    pub fn green_cached(&self, cache: &mut NodeCache) -> GreenNode {
        let mut b = GreenNodeBuilder::with_cache(cache);
        self.emit(&mut b);
        b.finish()
    }
    /// The structure of a green node read back through its public interface.
    pub fn read(g: &rowan::GreenNodeData) -> El {
        N(
            g.kind().0,
            g.children()
                .map(|c| match c {
                    NodeOrToken::Node(n) => El::read(n),
                    NodeOrToken::Token(t) => T(t.kind().0, t.text().to_string()),
                })
                .collect(),
        )
    }
    /// Element at a path of child indices.
    pub fn at(&self, path: &[usize]) -> &El {
        path.iter().fold(self, |e, &i| &e.children()[i])
    }
    pub fn at_mut(&mut self, path: &[usize]) -> &mut El {
        path.iter().fold(self, |e, &i| match e {
            N(_, c) => &mut c[i],
            T(..) => panic!("token"),
        })
    }
    pub fn children_mut(&mut self) -> &mut Vec<El> {
        match self {
            N(_, c) => c,
            T(..) => panic!("token"),
        }
    }
}

/// Whether a green tree is exactly the model tree (structure only, no text offsets).
pub fn same_green(g: &rowan::GreenNodeData, e: &El) -> bool {
    match e {
        T(..) => false,
        N(k, c) => {
            let ch = g.children();
            g.kind().0 == *k
                && ch.len() == c.len()
                && ch.zip(c).all(|(g, e)| match (g, e) {
                    (NodeOrToken::Node(g), N(..)) => same_green(g, e),
                    (NodeOrToken::Token(g), T(k, t)) => g.kind().0 == *k && g.text() == t,
                    _ => false,
                })
        }
    }
}

#[derive(Clone, Debug)]
pub struct FlatEl {
    pub kind: u16,
    pub node: bool,
    pub parent: Option<usize>,
    pub index: usize,
    pub start: u32,
    pub end: u32,
    /// One past the last element of the subtree (preorder numbering).
    pub last: usize,
    pub children: Vec<usize>,
}

/// A tree as a table in preorder; element 0 is the root.
#[derive(Clone)]
pub struct Flat {
    pub els: Vec<FlatEl>,
    pub text: String,
}

impl Flat {
    pub fn new(e: &El) -> Flat {
        let mut f = Flat { els: Vec::new(), text: String::new() };
        f.add(e, None, 0);
        f
    }
    fn add(&mut self, e: &El, parent: Option<usize>, index: usize) -> usize {
        let id = self.els.len();
        let start = self.text.len() as u32;
        self.els.push(FlatEl {
            kind: e.kind(),
            node: e.is_node(),
            parent,
            index,
            start,
            end: start,
            last: id + 1,
            children: Vec::new(),
        });
        match e {
            T(_, t) => self.text.push_str(t),
            N(_, c) => {
                for (i, x) in c.iter().enumerate() {
                    let cid = self.add(x, Some(id), i);
                    self.els[id].children.push(cid);
                }
            }
        }
        self.els[id].end = self.text.len() as u32;
        self.els[id].last = self.els.len();
        id
    }
    pub fn len(&self) -> usize {
        self.els.len()
    }
    pub fn text_of(&self, id: usize) -> &str {
        &self.text[self.els[id].start as usize..self.els[id].end as usize]
    }
    pub fn nodes(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.els.len()).filter(|&i| self.els[i].node)
    }
    pub fn tokens(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.els.len()).filter(|&i| !self.els[i].node)
    }
    pub fn path(&self, mut id: usize) -> Vec<usize> {
        let mut p = Vec::new();
        while let Some(par) = self.els[id].parent {
            p.push(self.els[id].index);
            id = par;
        }
        p.reverse();
        p
    }
    /// Siblings of `id` in its parent, itself included, and its position in them.
    pub fn siblings(&self, id: usize) -> (Vec<usize>, usize) {
        match self.els[id].parent {
            None => (vec![id], 0),
            Some(p) => (self.els[p].children.clone(), self.els[id].index),
        }
    }
    pub fn is_ancestor_or_self(&self, a: usize, b: usize) -> bool {
        a <= b && b < self.els[a].last
    }
    pub fn to_el(&self, id: usize) -> El {
        let e = &self.els[id];
        if e.node {
            N(e.kind, e.children.iter().map(|&c| self.to_el(c)).collect())
        } else {
            T(e.kind, self.text_of(id).to_string())
        }
    }
}

// ---------------------------------------------------------------------------------------------
// enumeration

/// All forests with exactly `n` elements (kind 0, empty texts: shapes only).
fn forests(n: usize, memo: &mut Vec<Option<Vec<Vec<El>>>>) -> Vec<Vec<El>> {
    if let Some(Some(v)) = memo.get(n) {
        return v.clone();
    }
    let mut out = Vec::new();
    if n == 0 {
        out.push(Vec::new());
    } else {
        // first element of size k, then a forest of n-k
        for k in 1..=n {
            let mut firsts: Vec<El> = Vec::new();
            if k == 1 {
                firsts.push(T(0, String::new()));
            }
            for f in forests(k - 1, memo) {
                firsts.push(N(0, f));
            }
            let rests = forests(n - k, memo);
            for a in &firsts {
                for r in &rests {
                    let mut v = Vec::with_capacity(1 + r.len());
                    v.push(a.clone());
                    v.extend(r.iter().cloned());
                    out.push(v);
                }
            }
        }
    }
    if memo.len() <= n {
        memo.resize(n + 1, None);
    }
    memo[n] = Some(out.clone());
    out
}

/// All shapes of trees with `min..=max` elements: 1, 2, 6, 22, 90, 394, 1806, 8558 of 1..=8 elements.
pub fn shapes(min: usize, max: usize) -> Vec<El> {
    let mut memo = Vec::new();
    (min..=max).flat_map(|n| forests(n - 1, &mut memo).into_iter().map(|f| N(0, f))).collect()
}

/// All trees of given sizes with kinds and texts from given sets.
pub struct TreeSpace {
    shapes: Vec<El>,
    /// Cumulative number of trees up to and including the shape.
    cum: Vec<u64>,
    nodes: Vec<u16>,
    toks: Vec<(u16, &'static str)>,
}

impl TreeSpace {
    pub fn new(min: usize, max: usize, nodes: &[u16], toks: &[(u16, &'static str)]) -> TreeSpace {
        let shapes = shapes(min, max);
        let mut cum = Vec::with_capacity(shapes.len());
        let mut total = 0u64;
        for s in &shapes {
            let f = Flat::new(s);
            let n = f.nodes().count() as u32;
            let k = f.tokens().count() as u32;
            total += (nodes.len() as u64).pow(n) * (toks.len() as u64).pow(k);
            cum.push(total);
        }
        TreeSpace { shapes, cum, nodes: nodes.to_vec(), toks: toks.to_vec() }
    }
    pub fn count(&self) -> u64 {
        self.cum.last().copied().unwrap_or(0)
    }
    pub fn get(&self, i: u64) -> El {
        let s = self.cum.partition_point(|&c| c <= i);
        let mut rest = i - if s == 0 { 0 } else { self.cum[s - 1] };
        let mut e = self.shapes[s].clone();
        self.fill(&mut e, &mut rest);
        e
    }
    fn fill(&self, e: &mut El, rest: &mut u64) {
        match e {
            N(k, c) => {
                let n = self.nodes.len() as u64;
                *k = self.nodes[(*rest % n) as usize];
                *rest /= n;
                for x in c {
                    self.fill(x, rest);
                }
            }
            T(k, t) => {
                let n = self.toks.len() as u64;
                let (kk, tt) = self.toks[(*rest % n) as usize];
                *rest /= n;
                *k = kk;
                *t = tt.to_string();
            }
        }
    }
    pub fn describe(&self) -> String {
        format!(
            "{} tree shapes x node kinds {:?} x tokens {:?} = {} trees",
            self.shapes.len(),
            self.nodes,
            self.toks,
            self.count()
        )
    }
}

/// Trees beyond the small scope: wide, deep and mixed ones, with sizes around every power of two
/// that a length, an index or a table size could be cut at.
pub fn scale_trees(widths: &[usize], depths: &[usize]) -> Vec<El> {
    let texts = ["a", "", "é", "xyz", "日本"];
    let mut out = Vec::new();
    for &w in widths {
        // flat: tokens with rotating texts
        out.push(N(1, (0..w).map(|i| t(10 + (i % 3) as u16, texts[i % 5])).collect()));
        // nodes and tokens alternating, nodes empty or holding a token
        out.push(N(
            2,
            (0..w)
                .map(|i| match i % 4 {
                    0 => N(3, vec![t(11, texts[(i / 4) % 5])]),
                    1 => t(12, texts[(i / 3) % 5]),
                    2 => N(4, vec![]),
                    _ => t(13, "q"),
                })
                .collect(),
        ));
    }
    for &d in depths {
        // a chain with a token before and after each level
        let mut e = N(5, vec![]);
        for i in 0..d {
            e = N(
                6 + (i % 2) as u16,
                vec![t(14, texts[i % 5]), e, t(15, texts[(i + 2) % 5])],
            );
        }
        out.push(e);
        // a bare chain
        let mut e = N(5, vec![t(14, "z")]);
        for _ in 0..d {
            e = N(8, vec![e]);
        }
        out.push(e);
    }
    if depths.iter().any(|&d| d >= 9) {
        // trees that are both wide and deep: every combination of places on some levels below each other
        let mut n = 0;
        out.push(bushy(3, 4, 0, &mut n));
        out.push(bushy(4, 3, 1, &mut n));
        out.push(bushy(2, 5, 0, &mut n));
    }
    out
}

/// A complete tree of `levels` below the root, all its nodes with `k` children; with `tokens` of them
/// being tokens, above the last level.
fn bushy(k: usize, levels: usize, tokens: usize, n: &mut usize) -> El {
    let texts = ["a", "", "é", "xyz", "日本"];
    *n += 1;
    let i = *n;
    if levels == 0 {
        return if i % 7 == 3 { N(3, vec![]) } else { t([10, 11, 0x8001, 13][i % 4], texts[i % 5]) };
    }
    let child = |j: usize, n: &mut usize| {
        if (j + levels) % k < tokens { t(11 + (j % 2) as u16, texts[(i + j) % 5]) } else { bushy(k, levels - 1, tokens, n) }
    };
    N([3, 4, 300, u16::MAX, 6][i % 5], (0..k).map(|j| child(j, n)).collect())
}

/// A place far from the root, the start of the text or the first sibling, to put a small tree in.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Far {
    /// At the end of a bare chain.
    Chain(usize),
    /// At the end of a chain with tokens on both sides of each level.
    Deep(usize),
    /// Behind that many siblings.
    Late(usize),
    /// Behind a token of that many bytes.
    Behind(usize),
    /// Behind that many bytes in another subtree.
    After(usize),
    /// Everything at once.
    All(usize, usize, usize),
}

impl Far {
    /// The whole tree, and the number of the element which `e` is in it.
    pub fn put(self, e: &El) -> (El, usize) {
        let texts = ["a", "", "é", "xyz"];
        match self {
            Far::Chain(d) => {
                ((0..d).fold(e.clone(), |e, i| N([20, 521][i % 2], vec![e])), d)
            }
            Far::Deep(d) => {
                let level = |e, i: usize| {
                    N([20, 521][i % 2], vec![t(22, texts[i % 4]), e, t(23, texts[(i + 1) % 4])])
                };
                ((0..d).fold(e.clone(), level), 2 * d)
            }
            Far::Late(w) => {
                let mut c: Vec<El> = (0..w)
                    .map(|i| if i % 3 == 2 { N(24, vec![]) } else { t(22, texts[i % 4]) })
                    .collect();
                c.push(e.clone());
                c.extend([t(23, "x"), N(24, vec![])]);
                (N(20, c), 1 + w)
            }
            Far::Behind(n) => {
                (N(20, vec![t(22, &"b".repeat(n)), e.clone(), t(23, "x"), N(24, vec![])]), 2)
            }
            Far::After(n) => {
                let before = N(24, vec![t(22, &"é".repeat(n / 2)), N(25, vec![])]);
                (N(20, vec![before, N(26, vec![t(23, ""), e.clone()]), t(23, "x")]), 6)
            }
            Far::All(d, w, n) => {
                let (e, a) = Far::Late(w).put(e);
                let (e, b) = Far::Deep(d).put(&e);
                let (e, c) = Far::Behind(n).put(&e);
                (e, a + b + c)
            }
        }
    }
}
/// Far beyond what the exhaustive spaces reach, but small enough to be walked.
pub const FAR: [Far; 6] = [
    Far::Chain(150),
    Far::Deep(130),
    Far::Late(300),
    Far::Behind(70_001),
    Far::After(140_000),
    Far::All(66, 260, 70_000),
];
pub const FARTHER: [Far; 6] = [
    Far::Chain(400),
    Far::Deep(260),
    Far::Late(1100),
    Far::Behind(1 << 20),
    Far::After(1 << 20),
    Far::All(130, 520, 1 << 18),
];

/// Indices of a permutation number: the `p`-th permutation of `0..n`.
pub fn permutation(n: usize, mut p: u64) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = Vec::with_capacity(n);
    for k in (1..=n).rev() {
        let i = (p % k as u64) as usize;
        p /= k as u64;
        out.push(pool.remove(i));
    }
    out
}
pub fn factorial(n: usize) -> u64 {
    (1..=n as u64).product()
}

/// The kind of the `k`th element of a tree whose elements all differ: small and large ones.
pub fn nth_kind(k: u16) -> u16 {
    if k % 4 == 2 && k < 0x7000 { 0x8000 + k } else { 20 + k }
}
