//! The two public interfaces to syntax trees, under one trait, so that every check runs on both.

use rowan::{
    Direction, GreenNode, GreenToken, Language, NodeOrToken, SyntaxKind, SyntaxText, TextRange,
    TextSize, TokenAtOffset, WalkEvent, cursor,
};
use crate::probe::{Got, Meth, probe};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::ops::Range;

/// A language whose kinds are not the raw numbers, so that a missing translation shows.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Lang {}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Kind(pub u16);

impl Debug for Kind {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "K{}", self.0)
    }
}

const MASK: u16 = 0x2A5A;
impl Kind {
    pub fn of(raw: u16) -> Kind {
        Kind(raw ^ MASK)
    }
    pub fn raw(self) -> u16 {
        self.0 ^ MASK
    }
}

impl Language for Lang {
    type Kind = Kind;
    fn kind_from_raw(raw: SyntaxKind) -> Kind {
        Kind::of(raw.0)
    }
    fn kind_to_raw(kind: Kind) -> SyntaxKind {
        SyntaxKind(kind.raw())
    }
}

pub type TNode = rowan::SyntaxNode<Lang>;
pub type TToken = rowan::SyntaxToken<Lang>;
pub type TElem = rowan::SyntaxElement<Lang>;

pub type E<A> = NodeOrToken<<A as Api>::N, <A as Api>::T>;
pub type BoxIter<'a, X> = Box<dyn Iterator<Item = X> + 'a>;
pub type Pred<'a> = &'a dyn Fn(u16) -> bool;

/// An iterator that a node or token offers.
#[derive(Clone, Copy)]
pub enum It<'a> {
    Ancestors,
    ElAncestors,
    Children,
    Els,
    /// Filtered after so many children.
    ChildrenBy(usize, Pred<'a>),
    ElsBy(usize, Pred<'a>),
    Siblings(Direction),
    ElSiblings(Direction),
    Descendants,
    ElDescendants,
    /// `skip_subtree` right after so many events, if it is an enter.
    Walk(Option<usize>),
    ElWalk(Option<usize>),
}

/// 0: no event, 1: enter, 2: leave.
fn event<X, Y: From<X>>(e: WalkEvent<X>) -> (u8, Y) {
    match e {
        WalkEvent::Enter(x) => (1, x.into()),
        WalkEvent::Leave(x) => (2, x.into()),
    }
}

fn walk_probe<X, W: Walk<X>>(mut w: W, skip: Option<usize>, mut k: usize, m: Meth, cap: usize) -> Got<WalkEvent<X>> {
    if let Some(at) = skip {
        for _ in 0..at {
            w.next();
        }
        w.skip_subtree();
        k -= at;
    }
    probe(w, k, m, cap)
}

pub trait Walk<X>: Iterator<Item = WalkEvent<X>> {
    fn skip_subtree(&mut self);
}

pub trait Api: 'static {
    const NAME: &'static str;
    type N: Clone + Eq + Hash + Debug + Display + 'static;
    type T: Clone + Eq + Hash + Debug + Display + 'static;
    type NC: Iterator<Item = Self::N> + Clone + 'static;
    type EC: Iterator<Item = E<Self>> + Clone + 'static;
    type P: Walk<Self::N>;
    type PT: Walk<E<Self>>;

    fn new_root(g: GreenNode) -> Self::N;
    fn new_root_mut(g: GreenNode) -> Self::N;
    fn replace_with(n: &Self::N, g: GreenNode) -> GreenNode;
    fn kind(n: &Self::N) -> u16;
    fn range(n: &Self::N) -> TextRange;
    fn index(n: &Self::N) -> usize;
    fn text(n: &Self::N) -> SyntaxText;
    fn green(n: &Self::N) -> GreenNode;
    fn green_cow(n: &Self::N) -> std::borrow::Cow<'_, rowan::GreenNodeData>;
    fn green_ptr(n: &Self::N) -> usize;
    fn parent(n: &Self::N) -> Option<Self::N>;
    fn ancestors(n: &Self::N) -> BoxIter<'_, Self::N>;
    fn children(n: &Self::N) -> Self::NC;
    fn children_with_tokens(n: &Self::N) -> Self::EC;
    fn nc_by_kind<'a>(c: Self::NC, m: Pred<'a>) -> BoxIter<'a, Self::N>;
    fn ec_by_kind<'a>(c: Self::EC, m: Pred<'a>) -> BoxIter<'a, E<Self>>;
    fn first_child(n: &Self::N) -> Option<Self::N>;
    fn first_child_by_kind(n: &Self::N, m: Pred) -> Option<Self::N>;
    fn last_child(n: &Self::N) -> Option<Self::N>;
    fn first_child_or_token(n: &Self::N) -> Option<E<Self>>;
    fn first_child_or_token_by_kind(n: &Self::N, m: Pred) -> Option<E<Self>>;
    fn last_child_or_token(n: &Self::N) -> Option<E<Self>>;
    fn next_sibling(n: &Self::N) -> Option<Self::N>;
    fn next_sibling_by_kind(n: &Self::N, m: Pred) -> Option<Self::N>;
    fn prev_sibling(n: &Self::N) -> Option<Self::N>;
    fn next_sibling_or_token(n: &Self::N) -> Option<E<Self>>;
    fn next_sibling_or_token_by_kind(n: &Self::N, m: Pred) -> Option<E<Self>>;
    fn prev_sibling_or_token(n: &Self::N) -> Option<E<Self>>;
    fn first_token(n: &Self::N) -> Option<Self::T>;
    fn last_token(n: &Self::N) -> Option<Self::T>;
    fn siblings(n: &Self::N, d: Direction) -> BoxIter<'_, Self::N>;
    fn siblings_with_tokens(n: &Self::N, d: Direction) -> BoxIter<'_, E<Self>>;
    fn descendants(n: &Self::N) -> BoxIter<'_, Self::N>;
    fn descendants_with_tokens(n: &Self::N) -> BoxIter<'_, E<Self>>;
    fn preorder(n: &Self::N) -> Self::P;
    fn preorder_with_tokens(n: &Self::N) -> Self::PT;
    fn token_at_offset(n: &Self::N, o: TextSize) -> TokenAtOffset<Self::T>;
    fn covering_element(n: &Self::N, r: TextRange) -> E<Self>;
    fn child_or_token_at_range(n: &Self::N, r: TextRange) -> Option<E<Self>>;
    fn clone_subtree(n: &Self::N) -> Self::N;
    fn clone_for_update(n: &Self::N) -> Self::N;
    fn is_mutable(n: &Self::N) -> bool;
    fn detach(n: &Self::N);
    fn splice(n: &Self::N, r: Range<usize>, ins: Vec<E<Self>>);
    fn splice_iter(n: &Self::N, r: Range<usize>, ins: &mut dyn Iterator<Item = E<Self>>);
    /// Steps the iterator `k` times and applies a method of its own type.
    fn probe(n: &Self::N, it: It, k: usize, m: Meth, cap: usize) -> Got<(u8, E<Self>)>;
    fn t_probe(t: &Self::T, it: It, k: usize, m: Meth, cap: usize) -> Got<(u8, E<Self>)>;

    fn t_replace_with(t: &Self::T, g: GreenToken) -> GreenNode;
    fn t_kind(t: &Self::T) -> u16;
    fn t_range(t: &Self::T) -> TextRange;
    fn t_index(t: &Self::T) -> usize;
    fn t_text(t: &Self::T) -> &str;
    fn t_green(t: &Self::T) -> GreenToken;
    fn t_green_ptr(t: &Self::T) -> usize;
    fn t_parent(t: &Self::T) -> Option<Self::N>;
    /// All ways the interface offers to get a token's ancestors.
    fn t_ancestors(t: &Self::T) -> Vec<BoxIter<'_, Self::N>>;
    fn t_next_sibling_or_token(t: &Self::T) -> Option<E<Self>>;
    fn t_next_sibling_or_token_by_kind(t: &Self::T, m: Pred) -> Option<Option<E<Self>>>;
    fn t_prev_sibling_or_token(t: &Self::T) -> Option<E<Self>>;
    fn t_siblings_with_tokens(t: &Self::T, d: Direction) -> BoxIter<'_, E<Self>>;
    fn t_next_token(t: &Self::T) -> Option<Self::T>;
    fn t_prev_token(t: &Self::T) -> Option<Self::T>;
    fn t_detach(t: &Self::T);

    // the methods of the element type itself
    fn e_range(e: &E<Self>) -> TextRange;
    fn e_index(e: &E<Self>) -> usize;
    fn e_kind(e: &E<Self>) -> u16;
    fn e_parent(e: &E<Self>) -> Option<Self::N>;
    fn e_ancestors(e: &E<Self>) -> BoxIter<'_, Self::N>;
    fn e_next(e: &E<Self>) -> Option<E<Self>>;
    fn e_prev(e: &E<Self>) -> Option<E<Self>>;
    fn e_detach(e: &E<Self>);
    /// Outer `None`: not offered by this interface.
    fn e_first_token(e: &E<Self>) -> Option<Option<Self::T>>;
    fn e_last_token(e: &E<Self>) -> Option<Option<Self::T>>;
    fn e_next_by_kind(e: &E<Self>, m: Pred) -> Option<Option<E<Self>>>;
    fn from_node(n: Self::N) -> E<Self>;
    fn from_token(t: Self::T) -> E<Self>;
    /// The untyped handle and back.
    fn to_raw(e: E<Self>) -> cursor::SyntaxElement;
    fn from_raw(e: cursor::SyntaxElement) -> E<Self>;
}

macro_rules! api {
    ($name:ident, $label:literal, $n:ty, $t:ty, $nc:ty, $ec:ty, $p:ty, $pt:ty,
     from = $from:expr, tanc = $tanc:expr, extra = { $($extra:tt)* }) => {
        pub struct $name;
        impl Walk<$n> for $p {
            fn skip_subtree(&mut self) { <$p>::skip_subtree(self) }
        }
        impl Walk<NodeOrToken<$n, $t>> for $pt {
            fn skip_subtree(&mut self) { <$pt>::skip_subtree(self) }
        }
        #[allow(deprecated)]
        impl Api for $name {
            const NAME: &'static str = $label;
            type N = $n;
            type T = $t;
            type NC = $nc;
            type EC = $ec;
            type P = $p;
            type PT = $pt;
            fn new_root(g: GreenNode) -> $n { <$n>::new_root(g) }
            fn new_root_mut(g: GreenNode) -> $n { <$n>::new_root_mut(g) }
            fn replace_with(n: &$n, g: GreenNode) -> GreenNode { n.replace_with(g) }
            fn kind(n: &$n) -> u16 { $from(n.kind()) }
            fn range(n: &$n) -> TextRange { n.text_range() }
            fn index(n: &$n) -> usize { n.index() }
            fn text(n: &$n) -> SyntaxText { n.text() }
            fn green(n: &$n) -> GreenNode { n.green().into_owned() }
            fn green_cow(n: &$n) -> std::borrow::Cow<'_, rowan::GreenNodeData> { n.green() }
            fn green_ptr(n: &$n) -> usize { &*n.green() as *const rowan::GreenNodeData as usize }
            fn parent(n: &$n) -> Option<$n> { n.parent() }
            fn ancestors(n: &$n) -> BoxIter<'_, $n> { Box::new(n.ancestors()) }
            fn children(n: &$n) -> $nc { n.children() }
            fn children_with_tokens(n: &$n) -> $ec { n.children_with_tokens() }
            fn nc_by_kind<'a>(c: $nc, m: Pred<'a>) -> BoxIter<'a, $n> {
                Box::new(c.by_kind(move |k| m($from(k))))
            }
            fn ec_by_kind<'a>(c: $ec, m: Pred<'a>) -> BoxIter<'a, E<Self>> {
                Box::new(c.by_kind(move |k| m($from(k))))
            }
            fn first_child(n: &$n) -> Option<$n> { n.first_child() }
            fn first_child_by_kind(n: &$n, m: Pred) -> Option<$n> {
                n.first_child_by_kind(&|k| m($from(k)))
            }
            fn last_child(n: &$n) -> Option<$n> { n.last_child() }
            fn first_child_or_token(n: &$n) -> Option<E<Self>> { n.first_child_or_token() }
            fn first_child_or_token_by_kind(n: &$n, m: Pred) -> Option<E<Self>> {
                n.first_child_or_token_by_kind(&|k| m($from(k)))
            }
            fn last_child_or_token(n: &$n) -> Option<E<Self>> { n.last_child_or_token() }
            fn next_sibling(n: &$n) -> Option<$n> { n.next_sibling() }
            fn next_sibling_by_kind(n: &$n, m: Pred) -> Option<$n> {
                n.next_sibling_by_kind(&|k| m($from(k)))
            }
            fn prev_sibling(n: &$n) -> Option<$n> { n.prev_sibling() }
            fn next_sibling_or_token(n: &$n) -> Option<E<Self>> { n.next_sibling_or_token() }
            fn next_sibling_or_token_by_kind(n: &$n, m: Pred) -> Option<E<Self>> {
                n.next_sibling_or_token_by_kind(&|k| m($from(k)))
            }
            fn prev_sibling_or_token(n: &$n) -> Option<E<Self>> { n.prev_sibling_or_token() }
            fn first_token(n: &$n) -> Option<$t> { n.first_token() }
            fn last_token(n: &$n) -> Option<$t> { n.last_token() }
            fn siblings(n: &$n, d: Direction) -> BoxIter<'_, $n> { Box::new(n.siblings(d)) }
            fn siblings_with_tokens(n: &$n, d: Direction) -> BoxIter<'_, E<Self>> {
                Box::new(n.siblings_with_tokens(d))
            }
            fn descendants(n: &$n) -> BoxIter<'_, $n> { Box::new(n.descendants()) }
            fn descendants_with_tokens(n: &$n) -> BoxIter<'_, E<Self>> {
                Box::new(n.descendants_with_tokens())
            }
            fn preorder(n: &$n) -> $p { n.preorder() }
            fn preorder_with_tokens(n: &$n) -> $pt { n.preorder_with_tokens() }
            fn token_at_offset(n: &$n, o: TextSize) -> TokenAtOffset<$t> { n.token_at_offset(o) }
            fn covering_element(n: &$n, r: TextRange) -> E<Self> { n.covering_element(r) }
            fn child_or_token_at_range(n: &$n, r: TextRange) -> Option<E<Self>> {
                n.child_or_token_at_range(r)
            }
            fn clone_subtree(n: &$n) -> $n { n.clone_subtree() }
            fn clone_for_update(n: &$n) -> $n { n.clone_for_update() }
            fn is_mutable(n: &$n) -> bool { n.is_mutable() }
            fn detach(n: &$n) { n.detach() }
            fn splice(n: &$n, r: Range<usize>, ins: Vec<E<Self>>) { n.splice_children(r, ins) }
            fn splice_iter(n: &$n, r: Range<usize>, ins: &mut dyn Iterator<Item = E<Self>>) {
                n.splice_children(r, ins)
            }
            fn probe(n: &$n, it: It, k: usize, m: Meth, cap: usize) -> Got<(u8, E<Self>)> {
                let e: E<Self> = n.clone().into();
                let node = |x: $n| (0, x.into());
                let el = |x| (0, x);
                match it {
                    It::Ancestors => probe(n.ancestors(), k, m, cap).map(node),
                    It::ElAncestors => probe(e.ancestors(), k, m, cap).map(node),
                    It::Children => probe(n.children(), k, m, cap).map(node),
                    It::Els => probe(n.children_with_tokens(), k, m, cap).map(el),
                    It::ChildrenBy(at, p) => {
                        let mut c = n.children();
                        for _ in 0..at {
                            c.next();
                        }
                        probe(c.by_kind(|k| p($from(k))), k, m, cap).map(node)
                    }
                    It::ElsBy(at, p) => {
                        let mut c = n.children_with_tokens();
                        for _ in 0..at {
                            c.next();
                        }
                        probe(c.by_kind(|k| p($from(k))), k, m, cap).map(el)
                    }
                    It::Siblings(d) => probe(n.siblings(d), k, m, cap).map(node),
                    It::ElSiblings(d) => probe(n.siblings_with_tokens(d), k, m, cap).map(el),
                    It::Descendants => probe(n.descendants(), k, m, cap).map(node),
                    It::ElDescendants => probe(n.descendants_with_tokens(), k, m, cap).map(el),
                    It::Walk(s) => walk_probe(n.preorder(), s, k, m, cap).map(event),
                    It::ElWalk(s) => walk_probe(n.preorder_with_tokens(), s, k, m, cap).map(event),
                }
            }
            fn t_probe(t: &$t, it: It, k: usize, m: Meth, cap: usize) -> Got<(u8, E<Self>)> {
                let e: E<Self> = t.clone().into();
                let node = |x: $n| (0, x.into());
                match it {
                    It::Ancestors => probe($tanc(t), k, m, cap).map(node),
                    It::ElAncestors => probe(e.ancestors(), k, m, cap).map(node),
                    It::ElSiblings(d) => probe(t.siblings_with_tokens(d), k, m, cap).map(|x| (0, x)),
                    _ => unreachable!(),
                }
            }
            fn t_replace_with(t: &$t, g: GreenToken) -> GreenNode { t.replace_with(g) }
            fn t_kind(t: &$t) -> u16 { $from(t.kind()) }
            fn t_range(t: &$t) -> TextRange { t.text_range() }
            fn t_index(t: &$t) -> usize { t.index() }
            fn t_text(t: &$t) -> &str { t.text() }
            fn t_green(t: &$t) -> GreenToken { t.green().to_owned() }
            fn t_green_ptr(t: &$t) -> usize { t.green() as *const rowan::GreenTokenData as usize }
            fn t_parent(t: &$t) -> Option<$n> { t.parent() }
            fn t_next_sibling_or_token(t: &$t) -> Option<E<Self>> { t.next_sibling_or_token() }
            fn t_prev_sibling_or_token(t: &$t) -> Option<E<Self>> { t.prev_sibling_or_token() }
            fn t_siblings_with_tokens(t: &$t, d: Direction) -> BoxIter<'_, E<Self>> {
                Box::new(t.siblings_with_tokens(d))
            }
            fn t_next_token(t: &$t) -> Option<$t> { t.next_token() }
            fn t_prev_token(t: &$t) -> Option<$t> { t.prev_token() }
            fn t_detach(t: &$t) { t.detach() }
            fn e_range(e: &E<Self>) -> TextRange { e.text_range() }
            fn e_index(e: &E<Self>) -> usize { e.index() }
            fn e_kind(e: &E<Self>) -> u16 { $from(e.kind()) }
            fn e_parent(e: &E<Self>) -> Option<$n> { e.parent() }
            fn e_ancestors(e: &E<Self>) -> BoxIter<'_, $n> { Box::new(e.ancestors()) }
            fn e_next(e: &E<Self>) -> Option<E<Self>> { e.next_sibling_or_token() }
            fn e_prev(e: &E<Self>) -> Option<E<Self>> { e.prev_sibling_or_token() }
            fn e_detach(e: &E<Self>) { e.detach() }
            fn from_node(n: $n) -> E<Self> { n.into() }
            fn from_token(t: $t) -> E<Self> { t.into() }
            $($extra)*
        }
    };
}

api!(Cur, "cursor", cursor::SyntaxNode, cursor::SyntaxToken, cursor::SyntaxNodeChildren,
    cursor::SyntaxElementChildren, cursor::Preorder, cursor::PreorderWithTokens,
    from = (|k: SyntaxKind| k.0), tanc = cursor::SyntaxToken::ancestors, extra = {
        fn t_ancestors(t: &cursor::SyntaxToken) -> Vec<BoxIter<'_, cursor::SyntaxNode>> {
            vec![Box::new(t.ancestors())]
        }
        fn t_next_sibling_or_token_by_kind(t: &cursor::SyntaxToken, m: Pred) -> Option<Option<E<Self>>> {
            Some(t.next_sibling_or_token_by_kind(&|k| m(k.0)))
        }
        fn e_first_token(e: &E<Self>) -> Option<Option<cursor::SyntaxToken>> { Some(e.first_token()) }
        fn e_last_token(e: &E<Self>) -> Option<Option<cursor::SyntaxToken>> { Some(e.last_token()) }
        fn e_next_by_kind(e: &E<Self>, m: Pred) -> Option<Option<E<Self>>> {
            Some(e.next_sibling_or_token_by_kind(&|k| m(k.0)))
        }
        fn to_raw(e: E<Self>) -> cursor::SyntaxElement { e }
        fn from_raw(e: cursor::SyntaxElement) -> E<Self> { e }
    });

api!(Typ, "typed", TNode, TToken, rowan::SyntaxNodeChildren<Lang>,
    rowan::SyntaxElementChildren<Lang>, rowan::api::Preorder<Lang>,
    rowan::api::PreorderWithTokens<Lang>,
    from = (|k: Kind| k.raw()), tanc = TToken::parent_ancestors, extra = {
        fn t_ancestors(t: &TToken) -> Vec<BoxIter<'_, TNode>> {
            vec![Box::new(t.parent_ancestors()), Box::new(t.ancestors())]
        }
        fn t_next_sibling_or_token_by_kind(_: &TToken, _: Pred) -> Option<Option<E<Self>>> { None }
        fn e_first_token(_: &E<Self>) -> Option<Option<TToken>> { None }
        fn e_last_token(_: &E<Self>) -> Option<Option<TToken>> { None }
        fn e_next_by_kind(_: &E<Self>, _: Pred) -> Option<Option<E<Self>>> { None }
        fn to_raw(e: E<Self>) -> cursor::SyntaxElement { e.into() }
        fn from_raw(e: cursor::SyntaxElement) -> E<Self> { e.into() }
    });

pub fn r32(r: TextRange) -> (u32, u32) {
    (r.start().into(), r.end().into())
}
pub fn range(a: u32, b: u32) -> TextRange {
    TextRange::new(a.into(), b.into())
}
