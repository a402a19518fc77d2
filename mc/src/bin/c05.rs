//! C05: green equality and hashing are structural.
use mc::{check, check_eq};
use mc::engine::{Cx, Family, Tier, family, hash_of};
use mc::model::*;
use rowan::{GreenNode, GreenNodeData, GreenToken, GreenTokenData, NodeCache, NodeOrToken, SyntaxKind};
use std::sync::Arc;

/// The same tree built in several ways.
fn builds(e: &El, cache: &mut NodeCache) -> Vec<GreenNode> {
    let mut v = vec![e.green(), e.green_built(), e.green_cached(cache)];
    // as the result of edits: children put in one by one, back to front, and a detour
    let N(k, c) = e else { unreachable!() };
    let mut g = GreenNode::new(SyntaxKind(*k), std::iter::empty::<GreenEl>());
    for x in c.iter().rev() {
        g = g.insert_child(0, x.green_el());
    }
    v.push(g.clone());
    v.push(g.insert_child(0, GreenToken::new(SyntaxKind(3), "zz").into()).remove_child(0));
    if !c.is_empty() {
        v.push(g.replace_child(0, GreenToken::new(SyntaxKind(3), "zz").into()).replace_child(0, c[0].green_el()));
        // through a mutable syntax tree
        let root = rowan::cursor::SyntaxNode::new_root_mut(e.green());
        let first = root.first_child_or_token().unwrap();
        first.detach();
        root.splice_children(0..0, [first]);
        v.push(root.green().into_owned());
    }
    v
}

fn compare(cx: &mut Cx, a: &El, ga: &GreenNode, b: &El, gb: &GreenNode) {
    let same = a == b;
    cx.step();
    check_eq!(cx, ga == gb, same, "GreenNode == of {a:?} and {b:?}");
    check_eq!(cx, **ga == **gb, same, "GreenNodeData == of {a:?} and {b:?}");
    check_eq!(cx, ga != gb, !same, "GreenNode != of {a:?} and {b:?}");
    check_eq!(cx, **ga != **gb, !same, "GreenNodeData != of {a:?} and {b:?}");
    let (ea, eb): (GreenEl, GreenEl) = (ga.clone().into(), gb.clone().into());
    check_eq!(cx, ea == eb, same, "green element == of {a:?} and {b:?}");
    check_eq!(cx, ea != eb, !same, "green element != of {a:?} and {b:?}");
    let (ra, rb) = (NodeOrToken::<_, ()>::Node(&**ga), NodeOrToken::<_, ()>::Node(&**gb));
    check_eq!(cx, ra == rb, same, "borrowed green element == of {a:?} and {b:?}");
    if same {
        check_eq!(cx, hash_of(ga), hash_of(gb), "hashes of equal nodes {a:?}");
        check_eq!(cx, hash_of(&ea), hash_of(&eb), "hashes of equal elements {a:?}");
    }
    // the children pairwise, crosswise
    for (x, gx) in a.children().iter().zip(ga.children()).take(3) {
        for (y, gy) in b.children().iter().zip(gb.children()).take(3) {
            let same = x == y;
            check_eq!(cx, gx == gy, same, "borrowed child elements {x:?} and {y:?}");
            let (ox, oy) = (gx.to_owned(), gy.to_owned());
            check_eq!(cx, ox == oy, same, "owned child elements {x:?} and {y:?}");
            if same {
                check_eq!(cx, hash_of(&ox), hash_of(&oy), "hashes of equal child elements {x:?}");
            }
            match (gx, gy) {
                (NodeOrToken::Node(p), NodeOrToken::Node(q)) => {
                    check_eq!(cx, p == q, same, "child nodes {x:?} and {y:?}");
                    check_eq!(cx, p != q, !same, "child nodes != {x:?} and {y:?}");
                }
                (NodeOrToken::Token(p), NodeOrToken::Token(q)) => {
                    check_eq!(cx, p == q, same, "child tokens {x:?} and {y:?}");
                    check_eq!(cx, p != q, !same, "child tokens != {x:?} and {y:?}");
                    check_eq!(cx, p.to_owned() != q.to_owned(), !same, "owned child tokens != {x:?} and {y:?}");
                    check_eq!(cx, p.to_owned() == q.to_owned(), same, "owned child tokens {x:?} and {y:?}");
                }
                _ => {}
            }
        }
    }
}

fn conversions(cx: &mut Cx, e: &El, g: &GreenNode) {
    use std::borrow::{Borrow, Cow};
    use std::collections::HashMap;
    type Ref<'a> = NodeOrToken<&'a GreenNodeData, &'a GreenTokenData>;
    let data: &GreenNodeData = g;
    let borrowed: &GreenNodeData = g.borrow();
    check!(cx, std::ptr::eq(data, borrowed) && borrowed == data, "borrow of {e:?}");
    let from_ref: Ref<'_> = Ref::from(g);
    let root = rowan::cursor::SyntaxNode::new_root(g.clone());
    let root_mut = rowan::cursor::SyntaxNode::new_root_mut(g.clone());
    let owned: Vec<(&str, GreenEl)> = vec![
        ("clone", g.clone().into()),
        ("to_owned", data.to_owned().into()),
        ("from borrowed Cow", GreenNode::from(Cow::Borrowed(data)).into()),
        ("from owned Cow", GreenNode::from(Cow::<GreenNodeData>::Owned(g.clone())).into()),
        ("element from borrowed Cow", GreenEl::from(Cow::Borrowed(data))),
        ("element from owned Cow", GreenEl::from(Cow::<GreenNodeData>::Owned(g.clone()))),
        ("element from the Cow of a tree", GreenEl::from(root.green())),
        ("element from the Cow of a mutable tree", GreenEl::from(root_mut.green())),
        ("element reference to_owned", from_ref.to_owned()),
        ("Cow into_owned", Cow::Borrowed(data).into_owned().into()),
        ("clone of an owned Cow", Cow::<GreenNodeData>::Owned(g.clone()).clone().into_owned().into()),
        ("element clone", NodeOrToken::<GreenNode, GreenToken>::Node(g.clone()).clone()),
    ];
    drop((root, root_mut));
    fn hash(e: &GreenEl) -> u64 {
        hash_of(e)
    }
    let check_el = |cx: &mut Cx, x: &GreenEl, e: &El, what: &str| {
        cx.step();
        check_eq!(cx, x.kind().0, e.kind(), "{what}: kind of {e:?}");
        check_eq!(cx, u32::from(x.text_len()), e.len(), "{what}: length of {e:?}");
        check_eq!(cx, x.to_string(), e.text(), "{what}: text of {e:?}");
        check_eq!(cx, x.as_node().is_some(), e.is_node(), "{what}: node or token");
        check_eq!(cx, x.as_token().is_none(), e.is_node(), "{what}: node or token");
        let r: Ref<'_> = match x {
            NodeOrToken::Node(n) => Ref::from(n),
            NodeOrToken::Token(t) => Ref::from(t),
        };
        check_eq!(cx, r.kind().0, e.kind(), "{what}: kind of the reference to {e:?}");
        check_eq!(cx, u32::from(r.text_len()), e.len(), "{what}: length of the reference to {e:?}");
        check_eq!(cx, r.to_string(), e.text(), "{what}: text of the reference to {e:?}");
        check!(cx, r.to_owned() == *x && hash(&r.to_owned()) == hash(x), "{what}: reference to owned of {e:?}");
    };
    for (what, x) in &owned {
        check_el(cx, x, e, what);
        let n = x.as_node().unwrap();
        check!(cx, n == g && **n == **g && hash(x) == hash(&owned[0].1) && hash_of(n) == hash_of(g), "{what}: equal to the original {e:?}");
        check!(cx, std::ptr::eq::<GreenNodeData>(&**n, data), "{what}: {e:?} copied, not shared");
    }
    // each dropped while the others are used
    for i in 0..owned.len() {
        let kept = owned[i].1.clone();
        let mut rest: Vec<_> = owned.clone();
        rest.truncate(i);
        drop(rest);
        check_el(cx, &kept, e, "after others were dropped");
        let back = kept.into_node().unwrap();
        check!(cx, back == *g, "into_node of {e:?}");
    }
    let mut map: HashMap<GreenEl, usize> = HashMap::new();
    for (_, x) in &owned {
        *map.entry(x.clone()).or_default() += 1;
    }
    check_eq!(cx, map.len(), 1, "entries of a map for {e:?}");
    drop(owned);
    check_el(cx, &g.clone().into(), e, "the original");
    for (c, ec) in g.children().zip(e.children()) {
        match c {
            NodeOrToken::Node(n) => conversions(cx, ec, &n.to_owned()),
            NodeOrToken::Token(t) => {
                let own: GreenToken = t.to_owned();
                let b: &GreenTokenData = own.borrow();
                check!(cx, std::ptr::eq(b, t), "token of {ec:?} copied, not shared");
                let all = [GreenEl::from(own.clone()), c.to_owned(), Ref::from(&own).to_owned(), Cow::Borrowed(t).into_owned().into(), GreenEl::Token(own.clone())];
                for x in &all {
                    check_el(cx, x, ec, "token");
                    let t2 = x.clone().into_token().unwrap();
                    check!(cx, t2 == own && hash_of(&t2) == hash_of(&own) && t2.text() == t.text(), "token {ec:?}");
                    check!(cx, x.clone().into_node().is_none(), "token {ec:?} as a node");
                }
                drop(own);
                check_el(cx, &all[1], ec, "the last owner of a token");
                cx.nontrivial += 1;
            }
        }
    }
}

fn main() {
    mc::engine::main("C05", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        // every pair of trees of a space; the partner tree always in all builds
        let spaces = [
            ("pairs-of-small", TreeSpace::new(1, 4, &[1, 2], &[(1, "a"), (2, "a"), (1, ""), (1, "aa")])),
            ("pairs-of-shapes", TreeSpace::new(1, tier.pick(5, 6), &[1], &[(1, "a"), (1, "")])),
        ];
        for (name, s) in spaces {
            let all: Arc<Vec<El>> = Arc::new((0..s.count()).map(|i| s.get(i)).collect());
            let greens: Arc<Vec<GreenNode>> = Arc::new(all.iter().map(|e| e.green_built()).collect());
            v.push(family(name, format!("all ordered pairs; {}", s.describe()), s.count(), move |cx, i| {
                let a = &all[i as usize];
                cx.case(|| format!("builds of {a:?} against all {} trees", all.len()));
                cx.state(a);
                let mut cache = NodeCache::default();
                let bs = builds(a, &mut cache);
                for x in &bs {
                    for y in &bs {
                        compare(cx, a, x, a, y);
                    }
                }
                for (j, b) in all.iter().enumerate() {
                    if a.children().len() == b.children().len() {
                        cx.nontrivial += 1;
                    }
                    compare(cx, a, &bs[j % 2], b, &greens[j]);
                }
            }));
        }
        // tokens: all pairs of texts over a small alphabet, and kinds
        let mut texts: Vec<String> = vec![String::new()];
        let mut last = vec![String::new()];
        for _ in 0..tier.pick(4, 5) {
            last = last.iter().flat_map(|s| ["a", "b", "é"].map(|c| format!("{s}{c}"))).collect();
            texts.extend(last.iter().cloned());
        }
        let texts = Arc::new(texts);
        let n = texts.len() as u64;
        v.push(family("tokens", format!("all pairs of {n} texts over a, b, é x kinds 0, 1, 256"), n, move |cx, i| {
            let s = &texts[i as usize];
            cx.case(|| format!("token {s:?}"));
            for k in [0u16, 1, 256] {
                cx.state(&(k, s));
                let a = GreenToken::new(SyntaxKind(k), s);
                for u in texts.iter() {
                    for l in [0u16, 1, 256] {
                        let b = GreenToken::new(SyntaxKind(l), u);
                        let same = k == l && s == u;
                        cx.step();
                        check_eq!(cx, a == b, same, "GreenToken == of {k}:{s:?} and {l}:{u:?}");
                        check_eq!(cx, *a == *b, same, "GreenTokenData == of {k}:{s:?} and {l}:{u:?}");
                        if same {
                            check_eq!(cx, hash_of(&a), hash_of(&b), "hash of {k}:{s:?}");
                        }
                    }
                }
            }
        }));
        // every way from borrowed to owned and back
        let s = TreeSpace::new(1, tier.pick(5, 6), &[1, 2], &[(1, "a"), (2, "é"), (1, "")]);
        v.push(family("conversions", format!("every conversion between borrowed data, owned handles, Cow and elements, of every node and token of a tree, with the other owners dropped before and after, in maps keyed by owned handles; nothing remains allocated; {}", s.describe()), s.count(), move |cx, i| {
            let e = s.get(i);
            cx.case(|| format!("{e:?}"));
            cx.state(&e);
            let before = mc::alloc::live();
            for g in [e.green(), e.green_built()] {
                conversions(cx, &e, &g);
            }
            check_eq!(cx, mc::alloc::live(), before, "memory still allocated after all owners of {e:?} are gone");
        }));
        // tokens of every length: the same text twice, and with one byte changed, added or removed
        let mut lens: Vec<usize> = (1..=tier.pick(140, 300)).collect();
        for p in [9, 10, 12, 15, 16, tier.pick(17, 24)] {
            lens.extend([(1 << p) - 1, 1 << p, (1 << p) + 1]);
        }
        let lens = Arc::new(lens);
        v.push(family("token-lengths", format!("texts of 1 to {} bytes and around 2^9 .. 2^{}: against an equal text, and one with a single byte changed (every position up to 300 bytes, else around the ends, the middle and powers of two), a byte added or removed at either end; as tokens and as the only child, and one of three children, of a node", tier.pick(140, 300), tier.pick(17, 24)),
            lens.len() as u64, move |cx, i| {
                let n = lens[i as usize];
                cx.case(|| format!("text of {n} bytes"));
                cx.state(&n);
                let base: String = (0..n).map(|i| (b'a' + (i * 7 % 23) as u8) as char).collect();
                let mut others: Vec<String> = vec![format!("{base}a"), format!("a{base}"), base[1..].into(), base[..n - 1].into(), format!("{base}\0"), "b".repeat(n)];
                let at: Vec<usize> = if n <= 300 {
                    (0..n).collect()
                } else {
                    let mut v = vec![0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, n / 2 - 1, n / 2, n / 2 + 1];
                    v.extend((7..25).map(|p| 1 << p).flat_map(|p: usize| [p - 1, p, p + 1]));
                    v.extend((1..=65).map(|k| n - k));
                    v.retain(|&x| x < n);
                    if n > 1 << 20 {
                        v.retain(|&x| x < 3 || n - x < 3 || x.count_ones() == 1);
                    }
                    v
                };
                for p in at {
                    let mut b = base.clone().into_bytes();
                    b[p] = if p % 2 == 0 { b'Z' } else { b[p] ^ 1 };
                    others.push(String::from_utf8(b).unwrap());
                }
                let a = T(1, base.clone());
                let wrap = |e: &El| [N(1, vec![e.clone()]), N(1, vec![t(1, "a"), e.clone(), N(1, vec![])])];
                let ga = wrap(&a).map(|e| (e.green_built(), e));
                let a2 = wrap(&a).map(|e| (e.green(), e));
                for ((g, e), (h, f)) in ga.iter().zip(&a2) {
                    compare(cx, e, g, f, h);
                }
                let ta = GreenToken::new(SyntaxKind(1), &base);
                for s in others {
                    cx.nontrivial += 1;
                    let same = s == base;
                    let tb = GreenToken::new(SyntaxKind(1), &s);
                    cx.step();
                    check_eq!(cx, ta == tb, same, "tokens of {n} and {} bytes that differ at {:?}", s.len(), s.bytes().zip(base.bytes()).position(|(a, b)| a != b));
                    check_eq!(cx, *tb == *ta, same, "token data of {n} and {} bytes", s.len());
                    if n <= 300 || s.len() == n {
                        let b = T(1, s);
                        for ((g, e), f) in ga.iter().zip(wrap(&b)) {
                            compare(cx, e, g, &f, &f.green());
                        }
                    }
                }
            }));
        // kinds that differ in one bit
        v.push(family("kind-bits", "tokens and nodes whose kinds are equal or differ in any of the 16 bits, every kind with at most two bits set or clear, alone and as a child", 16 * 16 * 2, |cx, i| {
            let (x, y, inv) = (i % 16, i / 16 % 16, i / 256);
            let k = ((1u32 << x | 1 << y) as u16) ^ (inv as u16).wrapping_neg();
            cx.case(|| format!("kind {k}"));
            cx.state(&k);
            let of = |k: u16| [
                N(k, vec![]),
                N(k, vec![t(3, "a")]),
                N(9, vec![T(k, "a".into())]),
                N(9, vec![N(k, vec![]), t(3, "a")]),
                N(9, vec![t(3, "a"), N(k, vec![N(k, vec![T(k, "".into())])])]),
            ];
            let a = of(k).map(|e| (e.green(), e));
            for bit in 0..17 {
                let l = if bit == 16 { k } else { k ^ 1 << bit };
                let b = of(l).map(|e| (e.green_built(), e));
                for (g, e) in &a {
                    for (h, f) in &b {
                        compare(cx, e, g, f, h);
                    }
                }
                cx.nontrivial += 1;
            }
        }));
        // one difference among very many children, or very deep
        let wide: Vec<usize> = tier.pick(vec![1000, 1025, 65537, 100_001], vec![1000, 1025, 4097, 65535, 65536, 65537, 131073, 300001]);
        let deep: Vec<usize> = tier.pick(vec![300, 1025, 3000], vec![300, 1025, 3000, 4500]);
        let units: Vec<(bool, usize, usize)> = wide.iter().flat_map(|&w| (0..3).map(move |k| (true, w, k))).chain(deep.iter().flat_map(|&d| (0..3).map(move |k| (false, d, k)))).collect();
        v.push(family("far-difference", format!("nodes with {wide:?} children (all tokens, all nodes, mixed) and chains {deep:?} deep (bare, a token before, a token after): equal copies, and copies that differ in one child (kind, text, node for token, removed, added, two neighbours swapped) at the ends, the middle, and around 255, 1023, 4095, 65535"), units.len() as u64, move |cx, i| {
            let (wide, n, k) = units[i as usize];
            cx.case(|| format!("{} {n}, variant {k}", if wide { "width" } else { "depth" }));
            cx.state(&(wide, n, k));
            let at: Vec<usize> = {
                let mut v = vec![0, 1, n / 2, n - 2, n - 1];
                v.extend([127usize, 255, 256, 1022, 1023, 1024, 4095, 4096, 65534, 65535, 65536].into_iter().filter(|&x| x < n));
                v
            };
            let pick = |i: usize| -> GreenEl {
                match k {
                    0 => GreenToken::new(SyntaxKind(1), ["a", "b", ""][i % 3]).into(),
                    1 => GreenNode::new(SyntaxKind(1), if i % 3 == 0 { vec![] } else { vec![GreenToken::new(SyntaxKind(2), ["a", "b"][i % 2]).into()] }).into(),
                    _ if i % 2 == 0 => GreenToken::new(SyntaxKind(1), "ab").into(),
                    _ => GreenNode::new(SyntaxKind(1), []).into(),
                }
            };
            // what is at one position: (position, change)
            let make = |diff: Option<(usize, usize)>| -> GreenNode {
                let change = |i: usize, e: GreenEl| -> Vec<GreenEl> {
                    match diff {
                        Some((p, how)) if p == i => match how {
                            0 => vec![match e {
                                NodeOrToken::Node(x) => GreenNode::new(SyntaxKind(x.kind().0 ^ 0x8000), x.children().map(|c| c.to_owned())).into(),
                                NodeOrToken::Token(x) => GreenToken::new(SyntaxKind(x.kind().0 ^ 1), x.text()).into(),
                            }],
                            1 => vec![match e {
                                NodeOrToken::Node(x) => GreenNode::new(x.kind(), x.children().map(|c| c.to_owned()).chain([GreenToken::new(SyntaxKind(2), "").into()]).collect::<Vec<GreenEl>>()).into(),
                                NodeOrToken::Token(x) => GreenToken::new(x.kind(), &format!("{}c", x.text())).into(),
                            }],
                            2 => vec![match e {
                                NodeOrToken::Node(x) => GreenToken::new(x.kind(), "").into(),
                                NodeOrToken::Token(x) => GreenNode::new(x.kind(), []).into(),
                            }],
                            3 => vec![],
                            4 => vec![e, GreenToken::new(SyntaxKind(1), "").into()],
                            _ => unreachable!(),
                        },
                        _ => vec![e],
                    }
                };
                if wide {
                    let v: Vec<GreenEl> = (0..n).flat_map(|i| change(i, pick(i))).collect();
                    GreenNode::new(SyntaxKind(7), v)
                } else {
                    let mut g = GreenNode::new(SyntaxKind(7), []);
                    for i in 0..n {
                        let mut c: Vec<GreenEl> = vec![g.into()];
                        let extra = change(i, GreenToken::new(SyntaxKind(1), "a").into());
                        match (k, diff) {
                            (0, Some((p, how))) if p == i && how > 0 => c.extend(extra),
                            (0, _) => {}
                            (1, _) => {
                                c.splice(0..0, extra);
                            }
                            _ => c.extend(extra),
                        }
                        let kind = if k == 0 && diff == Some((i, 0)) { 6 } else { 7 };
                        g = GreenNode::new(SyntaxKind(kind), c);
                    }
                    g
                }
            };
            let a = make(None);
            let a2 = make(None);
            cx.step();
            check_eq!(cx, a == a2, true, "two copies");
            check_eq!(cx, hash_of(&a), hash_of(&a2), "hashes of two copies");
            for p in at {
                for how in 0..5 {
                    if !wide && k == 0 && how == 3 {
                        continue;
                    }
                    let d = Some((p, how));
                    let b = make(d);
                    cx.step();
                    cx.nontrivial += 1;
                    check_eq!(cx, a == b, false, "a copy changed at {p} in way {how}");
                    check_eq!(cx, b == a, false, "a copy changed at {p} in way {how}, the other way round");
                    if p % 5 == 0 {
                        let c = make(d);
                        check_eq!(cx, b == c, true, "two copies changed at {p} in way {how}");
                        check_eq!(cx, hash_of(&b), hash_of(&c), "hashes of two copies changed at {p} in way {how}");
                    }
                }
            }
        }));
        // single differences far inside large trees
        let widths: Vec<usize> = vec![4, 5, 8, 9, 16, 17, 33, 64, 65, 129, tier.pick(256, 600)];
        let depths: Vec<usize> = vec![3, 8, 17, 40];
        let scale = Arc::new(scale_trees(&widths, &depths));
        v.push(family("one-difference", format!("large trees (widths {widths:?}, depths {depths:?}) against every copy with one element's kind or text changed or one element removed"),
            scale.len() as u64, move |cx, i| {
                let a = &scale[i as usize];
                let ga = [a.green(), a.green_built()];
                let f = Flat::new(a);
                cx.case(|| format!("single differences in {a:?}"));
                cx.state(a);
                compare(cx, a, &ga[0], a, &ga[1]);
                let stride = 1 + f.len() / 200;
                for id in (0..f.len()).filter(|id| id % stride == 0 || id + 3 > f.len()) {
                    let p = f.path(id);
                    let mut muts: Vec<El> = Vec::new();
                    let mut b = a.clone();
                    match b.at_mut(&p) {
                        N(k, _) | T(k, _) => *k ^= 0x100,
                    }
                    muts.push(b);
                    if let T(_, s) = a.at(&p) {
                        for r in [format!("{s}x"), s.chars().skip(1).collect(), s.replace('a', "b")] {
                            if &r != s {
                                let mut b = a.clone();
                                *b.at_mut(&p) = T(a.at(&p).kind(), r);
                                muts.push(b);
                            }
                        }
                    }
                    if let Some((last, up)) = p.split_last() {
                        let mut b = a.clone();
                        b.at_mut(up).children_mut().remove(*last);
                        muts.push(b);
                    }
                    for b in muts {
                        cx.nontrivial += 1;
                        let gb = [b.green(), b.green_built()];
                        compare(cx, a, &ga[0], &b, &gb[0]);
                        compare(cx, &b, &gb[1], a, &ga[1]);
                        compare(cx, &b, &gb[1], &b, &gb[0]);
                    }
                }
            }));
        v
    })
}
