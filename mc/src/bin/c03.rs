//! C03: a node cache is invisible in the result and really shares.
use mc::fx;
use mc::engine::{Cx, Family, Tier, family};
use mc::model::*;
use mc::{check, check_eq};
use rowan::{GreenNode, GreenNodeBuilder, GreenNodeData, GreenTokenData, NodeCache, NodeOrToken, SyntaxKind};
use std::collections::HashMap;
use std::sync::Arc;

/// What the cache owes us: one allocation per token, and per node that it shares.
#[derive(Default)]
struct Interned {
    at: HashMap<El, usize>,
    new: u64,
    reused: u64,
}

impl Interned {
    /// Checks `g` against the model; whether it must be shared.
    fn node(&mut self, cx: &mut Cx, g: &GreenNodeData, e: &El) -> bool {
        let N(k, c) = e else { unreachable!() };
        check!(cx, g.kind().0 == *k && g.children().len() == c.len(), "built {:?}, expected {e:?}", El::read(g));
        let mut shared = c.len() <= 3;
        for (gc, ec) in g.children().zip(c) {
            shared &= match (gc, ec) {
                (NodeOrToken::Node(n), N(..)) => self.node(cx, n, ec),
                (NodeOrToken::Token(t), T(k, s)) => {
                    check!(cx, t.kind().0 == *k && t.text() == s, "built token {t:?}, expected {ec:?} in {e:?}");
                    self.seen(cx, ec, t as *const GreenTokenData as usize);
                    true
                }
                _ => cx.fail(format!("node/token confusion, expected {ec:?} in {e:?}")),
            };
        }
        if shared {
            self.seen(cx, e, g as *const GreenNodeData as usize);
        }
        shared
    }
    fn seen(&mut self, cx: &mut Cx, e: &El, p: usize) {
        cx.step();
        match self.at.get(e) {
            Some(&q) => {
                self.reused += 1;
                check!(cx, p == q, "a second allocation for {e:?}: not shared");
            }
            None => {
                self.new += 1;
                self.at.insert(e.clone(), p);
            }
        }
    }
}

fn order(n: u64, how: usize) -> Vec<u64> {
    match how {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => {
            // from both ends
            (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect()
        }
        k => {
            // a stride coprime to n
            let mut s = [7919u64, 104729, 1299709, 15485863, 101, 257][k % 6] % n.max(1);
            while gcd(s, n) != 1 {
                s += 1;
            }
            (0..n).map(|i| (i * s) % n).collect()
        }
    }
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// All the trees through one cache in one order, then again in another; everything kept.
fn history(cx: &mut Cx, n: u64, get: &dyn Fn(u64) -> El, how: usize) {
    let mut cache = NodeCache::default();
    let mut kept: Vec<(u64, GreenNode)> = Vec::new();
    let mut seen = Interned::default();
    for round in 0..2 {
        for i in order(n, how + round) {
            let e = get(i);
            cx.case(|| format!("order {how} round {round} tree {i} {e:?}"));
            cx.state(&e);
            let g = e.green_cached(&mut cache);
            check!(cx, same_green(&g, &e), "built {:?}, expected {e:?}", El::read(&g));
            check!(cx, u32::from(g.text_len()) == e.len(), "length of {e:?}");
            seen.node(cx, &g, &e);
            if round == 0 {
                kept.push((i, g));
            }
        }
    }
    drop(cache);
    for (i, g) in kept {
        let e = get(i);
        check!(cx, same_green(&g, &e), "tree {i} became {:?}, was {e:?}", El::read(&g));
        check!(cx, g == e.green(), "tree {i} differs from {e:?} built without a cache");
    }
    cx.nontrivial += seen.reused;
}

/// Issues the first `n` calls that build `e`.
fn partial(e: &El, n: &mut usize, b: &mut GreenNodeBuilder<'_>) {
    if *n == 0 {
        return;
    }
    *n -= 1;
    match e {
        T(k, s) => b.token(SyntaxKind(*k), s),
        N(k, c) => {
            b.start_node(SyntaxKind(*k));
            for x in c {
                partial(x, n, b);
            }
            if *n > 0 {
                *n -= 1;
                b.finish_node();
            }
        }
    }
}

/// Groups of elements whose hashes are equal, or 0, or 1.
fn groups(seed: u64) -> Vec<El> {
    let mut out: Vec<El> = Vec::new();
    // a hash that looks like any other
    let any = 0x9E37_79B9_7F4A_7C15u64.wrapping_mul(2 * seed + 1).rotate_left(7 * seed as u32);
    for hash in [0, 1, any, u64::MAX] {
        for kind in [0, 1, 7, 300] {
            // several texts of one kind, and of different kinds
            out.extend(fx::tokens_with(kind, hash, 3).into_iter().map(|s| T(kind, s)));
            // nodes whose only child makes it so
            out.extend(fx::tokens_with(5, fx::last_child(kind, &[], hash), 2).into_iter().map(|s| N(kind, vec![T(5, s)])));
            // and whose last of two and three does
            for (before, n) in [(any ^ 0xabcdef, 2), (any ^ 77, 3)] {
                let Some(first) = fx::tokens_with(6, before, 1).pop() else { continue };
                let b = vec![before; n - 1];
                for s in fx::tokens_with(5, fx::last_child(kind, &b, hash), 2) {
                    let mut c = vec![T(6, first.clone()); n - 1];
                    c.push(T(5, s));
                    out.push(N(kind, c));
                }
            }
        }
    }
    out
}

/// Everything with a special hash through one cache, alone and in parents.
fn collisions(cx: &mut Cx, seed: u64, how: usize) {
    let els = groups(seed);
    let mut trees = Vec::new();
    for e in &els {
        trees.push(N(40, vec![e.clone()]));
        trees.push(N(41, vec![t(1, "a"), e.clone(), N(42, vec![e.clone()])]));
        if e.is_node() {
            trees.push(e.clone());
        }
    }
    for w in els.windows(2) {
        trees.push(N(40, w.to_vec()));
    }
    history(cx, trees.len() as u64, &|i| trees[i as usize].clone(), how);
}

fn main() {
    mc::engine::main("C03", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        let orders = tier.pick(4, 8);
        for (name, s) in [
            ("history-kinds", TreeSpace::new(1, tier.pick(5, 6), &[0, 1, 2], &[(0, "a"), (1, ""), (1, "a")])),
            ("history-shapes", TreeSpace::new(1, tier.pick(8, 9), &[0], &[(0, "a")])),
            ("history-texts", TreeSpace::new(1, 5, &[3], &[(0, "a"), (0, "b"), (0, "ab"), (0, "ba"), (0, ""), (1, "a"), (1, "aa")])),
        ] {
            let n = s.count();
            v.push(family(name, format!("all trees of a space through one cache, twice, in each of {orders} orders; {}", s.describe()),
                orders, move |cx, i| history(cx, n, &|i| s.get(i), i as usize)));
        }
        // all ordered pairs (and back) through a fresh cache
        for (name, s) in [
            ("pairs", TreeSpace::new(1, 4, &[0, 1], &[(0, "a"), (0, ""), (1, "a")])),
            ("pairs-of-lists", TreeSpace::new(1, 5, &[0], &[(0, "a"), (0, "b")])),
        ] {
            let all: Arc<Vec<El>> = Arc::new((0..s.count()).map(|i| s.get(i)).collect());
            v.push(family(name, format!("a, b, a through a fresh cache, all ordered pairs a, b; {}", s.describe()), s.count(), move |cx, i| {
                let a = &all[i as usize];
                cx.case(|| format!("{a:?} and every other"));
                cx.state(a);
                for b in all.iter() {
                    let mut cache = NodeCache::default();
                    let mut seen = Interned::default();
                    let ga = a.green_cached(&mut cache);
                    seen.node(cx, &ga, a);
                    let gb = b.green_cached(&mut cache);
                    check!(cx, same_green(&gb, b), "after {a:?}: built {:?}, expected {b:?}", El::read(&gb));
                    seen.node(cx, &gb, b);
                    let gc = a.green_cached(&mut cache);
                    seen.node(cx, &gc, a);
                    check!(cx, same_green(&ga, a), "{a:?} became {:?}", El::read(&ga));
                    cx.nontrivial += 1;
                }
            }));
        }
        // abandoned builders in between
        let s = TreeSpace::new(1, 4, &[0, 1], &[(0, "a"), (1, "")]);
        let all: Arc<Vec<El>> = Arc::new((0..s.count()).map(|i| s.get(i)).collect());
        v.push(family("abandoned", format!("b through a cache after a builder was dropped after each number of calls that build a, all pairs a, b; {}", s.describe()), s.count(), move |cx, i| {
            let a = &all[i as usize];
            cx.state(a);
            for stop in 0..2 * a.size() {
                cx.case(|| format!("{a:?} abandoned after {stop} calls, then every other"));
                let mut cache = NodeCache::default();
                let mut seen = Interned::default();
                for b in all.iter() {
                    let mut k = stop;
                    let mut bld = GreenNodeBuilder::with_cache(&mut cache);
                    partial(a, &mut k, &mut bld);
                    drop(bld);
                    let gb = b.green_cached(&mut cache);
                    check!(cx, same_green(&gb, b), "after {stop} calls of {a:?}: built {:?}, expected {b:?}", El::read(&gb));
                    seen.node(cx, &gb, b);
                }
            }
        }));
        // every kind
        v.push(family("kinds", "one cache, two rounds: for every kind a token, an empty node, a node with one, two and three equal children", 4, |cx, how| {
            let get = |i: u64| {
                let k = i as u16;
                let tok = t(k, "x");
                N(0, vec![
                    N(k, vec![]),
                    N(k, vec![tok.clone()]),
                    N(k, vec![tok.clone(), t(1, "x")]),
                    N(k, vec![N(k, vec![tok.clone()]), t(1, "x"), tok]),
                ])
            };
            history(cx, 65536, &get, how as usize);
        }));
        // many texts
        let depth = tier.pick(9, 10);
        v.push(family("texts", format!("one cache, two rounds: tokens with every text of up to {depth} letters from a, b, c, each in a node"), 3, move |cx, how| {
            let get = |i: u64| {
                let mut x = i;
                let mut len = 0;
                let mut n = 1u64;
                while x >= n {
                    x -= n;
                    n *= 3;
                    len += 1;
                }
                let text: String = (0..len).map(|_| { let c = b"abc"[(x % 3) as usize] as char; x /= 3; c }).collect();
                N(5, vec![T((len % 2) as u16, text)])
            };
            let n: u64 = (0..=depth).map(|d| 3u64.pow(d)).sum();
            history(cx, n, &get, how as usize);
        }));
        // growth: chains and wide trees; sharing of early elements at every later size of the table
        let max = tier.pick(2200u64, 20000);
        v.push(family("growth", format!("after each of {max} further distinct tokens and nodes in one cache, the earliest elements are still shared"), 4, move |cx, how| {
            let mut cache = NodeCache::default();
            let mut seen = Interned::default();
            let early = [
                N(0, vec![]),
                N(7, vec![t(1, "a")]),
                N(7, vec![t(1, "a"), N(0, vec![]), t(2, "")]),
                N(8, vec![N(7, vec![t(1, "a")]), N(7, vec![t(1, "a")])]),
                N(9, vec![N(0, vec![]), N(0, vec![N(0, vec![])]), N(0, vec![t(0, "")])]),
            ];
            let mut kept = Vec::new();
            for i in 0..max {
                cx.case(|| format!("variant {how}, {i} elements in between"));
                let e = match how {
                    0 => N(1, vec![T(1, format!("{i}"))]),
                    1 => N((i % 65000) as u16, vec![t(1, "a")]),
                    2 => T(1, "y".repeat(i as usize % 1000) + &format!("{i}")),
                    _ => N(1, vec![T(3, format!("{i}")), N(2, vec![T(4, format!("{i}"))]), t(1, "a")]),
                };
                let e = if e.is_node() { e } else { N(1, vec![e]) };
                let g = e.green_cached(&mut cache);
                seen.node(cx, &g, &e);
                kept.push(g);
                for x in &early {
                    let g = x.green_cached(&mut cache);
                    seen.node(cx, &g, x);
                }
            }
            check_eq!(cx, kept.len() as u64, max, "kept");
            cx.nontrivial += seen.reused;
        }));
        // growth to a size at which a limit would be put
        let far = tier.pick(1_300_000u64, 5_000_000);
        v.push(family("growth-far", format!("{far} distinct tokens and as many distinct nodes in one cache, all kept: early ones are still shared near every power of two and every 10000, and every one at the end"), 2, move |cx, how| {
            let mut cache = NodeCache::default();
            let early = [
                N(0, vec![]),
                N(7, vec![t(1, "a")]),
                N(7, vec![t(1, "a"), N(0, vec![]), t(2, "")]),
                N(8, vec![N(7, vec![t(1, "a")]), N(7, vec![t(1, "a")])]),
            ];
            let mut seen = Interned::default();
            let mut at: Vec<GreenNode> = Vec::with_capacity(far as usize);
            let build = |cache: &mut NodeCache, i: u64| {
                let mut b = GreenNodeBuilder::with_cache(cache);
                b.start_node(SyntaxKind((i % 7) as u16));
                b.token(SyntaxKind((i / 7 % 5) as u16), &format!("{:x}", i.wrapping_mul(0x9E37_79B9_7F4A_7C15)));
                if how == 1 {
                    b.token(SyntaxKind(1), "a");
                }
                b.finish_node();
                b.finish()
            };
            let parts = |g: &GreenNode| {
                let c = g.children().next().and_then(|c| c.into_token().map(|t| t as *const GreenTokenData as usize));
                (&**g as *const GreenNodeData as usize, c)
            };
            for i in 0..far {
                cx.case(|| format!("variant {how}, {i} elements in between"));
                let g = build(&mut cache, i);
                check!(cx, g.kind().0 == (i % 7) as u16 && g.children().len() == 1 + how as usize, "built {:?} as number {i}", El::read(&g));
                at.push(g);
                let near = (10..24).any(|k| i.abs_diff(1 << k) < 3 || (2 * i).abs_diff(1 << k) < 3);
                if near || i % 10_000 == 0 {
                    for x in &early {
                        let g = x.green_cached(&mut cache);
                        check!(cx, same_green(&g, x), "built {:?}, expected {x:?}", El::read(&g));
                        seen.node(cx, &g, x);
                    }
                    for j in [0, 1.min(i), i / 2, i] {
                        let again = build(&mut cache, j);
                        check_eq!(cx, parts(&again), parts(&at[j as usize]), "number {j} is not shared after {i}: {again:?}");
                    }
                }
                cx.step();
            }
            for i in 0..far {
                cx.case(|| format!("variant {how}, number {i} again at the end"));
                let again = build(&mut cache, i);
                check!(cx, parts(&again) == parts(&at[i as usize]), "number {i} is not shared after {far}: {again:?}");
                check!(cx, again.children().next().and_then(|c| c.into_token().map(|t| t.text() == format!("{:x}", i.wrapping_mul(0x9E37_79B9_7F4A_7C15)))) == Some(true), "number {i} became {again:?}");
                cx.step();
            }
            cx.nontrivial += far;
        }));
        // texts that differ in one byte, anywhere
        let mut lens: Vec<usize> = (1..=tier.pick(140, 300)).collect();
        lens.extend([255, 256, 257, 511, 512, 513, 1023, 1024, 1025]);
        if tier == Tier::Thorough {
            lens.extend([4095, 4096, 4097, 8191, 8192]);
        }
        let n = lens.len() as u64;
        v.push(family("far-difference", format!("tokens of each of {n} lengths, to {}: a text and those that differ from it in one byte, at each place, and those a byte longer or shorter, alone, in a node and as the last child, through one cache, twice", lens[lens.len() - 1]), n * 2, move |cx, i| {
            let len = lens[(i / 2) as usize];
            let base = ["a", "xyzw"][(i % 2) as usize].repeat(len)[..len].to_string();
            let mut texts = vec![base.clone(), base.clone() + "a", base[1..].to_string()];
            for p in 0..len {
                let mut b = base.clone();
                b.replace_range(p..p + 1, "Q");
                texts.push(b);
            }
            let get = |j: u64| {
                let tok = T(3, texts[j as usize / 2].clone());
                if j % 2 == 0 { N(1, vec![tok]) } else { N(2, vec![t(3, "a"), N(1, vec![tok.clone()]), tok]) }
            };
            history(cx, 2 * texts.len() as u64, &get, 0);
        }));
        let seeds = tier.pick(4, 24);
        v.push(family("equal-hashes", format!("{seeds} sets of tokens and nodes of up to three children, of four kinds, computed so that their hashes in the cache are all equal, 0, 1 or the largest, alone and in parents, in 4 orders, two rounds"), seeds * 4, move |cx, i| {
            collisions(cx, i / 4, (i % 4) as usize);
        }));
        v
    })
}
