//! C01: text and ranges tile exactly.
use mc::api::*;
use mc::engine::{Cx, Family, Tier, family};
use mc::model::*;
use mc::tree::*;
use mc::huge::{BUILDS, D, Green, MAX, MIB, build, doubled, e32, is_at, reach, shapes, token_text, totals};
use mc::{check, check_eq, guard};
use rowan::{GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, NodeCache, NodeOrToken, SyntaxKind};
use std::rc::Rc;

fn green_ok(cx: &mut Cx, g: &GreenNodeData, e: &El) -> String {
    let mut want = String::new();
    check_eq!(cx, g.kind().0, e.kind(), "kind of a green node");
    check_eq!(cx, g.children().len(), e.children().len(), "number of green children");
    let mut total = 0u32;
    for (c, m) in g.children().zip(e.children()) {
        cx.step();
        check_eq!(cx, c.kind().0, m.kind(), "kind of a green element");
        check_eq!(cx, u32::from(c.text_len()), m.len(), "text_len of a green element");
        total += u32::from(c.text_len());
        let owned = c.to_owned();
        check_eq!(cx, owned.kind().0, m.kind(), "kind of an owned green element");
        check_eq!(cx, u32::from(owned.text_len()), m.len(), "text_len of an owned green element");
        check_eq!(cx, owned.to_string(), m.text(), "display of an owned green element");
        match (c, m) {
            (NodeOrToken::Node(n), N(..)) => want.push_str(&green_ok(cx, n, m)),
            (NodeOrToken::Token(t), T(k, s)) => {
                check_eq!(cx, t.kind().0, *k, "kind of a green token");
                check_eq!(cx, t.text(), s, "text of a green token");
                check_eq!(cx, u32::from(t.text_len()), s.len() as u32, "text_len of a green token");
                check_eq!(cx, t.to_string(), *s, "display of a green token");
                want.push_str(s);
            }
            _ => cx.fail("node/token confusion"),
        }
    }
    check_eq!(cx, u32::from(g.text_len()), total, "text_len is the sum over children");
    check_eq!(cx, g.to_string(), want, "display of a green node");
    want
}

fn node_ok<A: Api>(cx: &mut Cx, f: &Flat, n: &A::N, id: usize) {
    cx.steps(4);
    let want = f.text_of(id);
    let m = &f.els[id];
    check_eq!(cx, r32(A::range(n)), (m.start, m.end), "text_range");
    check_eq!(cx, n.to_string(), want, "display of element {id}");
    let text = A::text(n);
    check_eq!(cx, u32::from(text.len()), want.len() as u32, "text length of element {id}");
    check_eq!(cx, text.to_string(), want, "text of element {id}");
    // children tile the node
    let mut at = m.start;
    for c in A::children_with_tokens(n) {
        let (s, e) = r32(A::e_range(&c));
        check_eq!(cx, s, at, "start of a child");
        at = e;
    }
    check_eq!(cx, at, m.end, "end of the last child");
    let g = A::green(n);
    check_eq!(cx, u32::from(g.text_len()), want.len() as u32, "green text_len of element {id}");
}

fn tree_ok<A: Api>(cx: &mut Cx, e: &El, f: &Flat, gm: Gm, mode: Mode) {
    cx.case(|| format!("{} {gm:?} {mode:?} {e:?}", A::NAME));
    cx.state(&(e, mode.mutable()));
    if f.els.iter().any(|x| x.start == x.end) && f.len() > 2 {
        cx.nontrivial += 1;
    }
    let root = make::<A>(e, gm, mode);
    check_eq!(cx, u32::from(A::range(&root).start()), 0, "a root starts at 0");
    same_tree::<A>(cx, &root, f, "fresh tree");
    // alone, then all alive
    if f.len() < 100 {
        for id in 0..f.len() {
            let Some(h) = mc::tree::reach::<A>(&root, f, id, id % HOWS) else { cx.fail("not reached") };
            denotes::<A>(cx, f, &h, id, "element reached alone");
            if let NodeOrToken::Node(n) = &h {
                node_ok::<A>(cx, f, n, id);
            }
        }
    }
    let hs = handles::<A>(&root);
    let full = f.els.iter().filter(|m| m.node).count() < 100;
    for (id, h) in hs.iter().enumerate() {
        cx.step();
        match h {
            NodeOrToken::Node(n) if full || id == 0 || id + 1 == f.len() => node_ok::<A>(cx, f, n, id),
            NodeOrToken::Node(n) => check_eq!(
                cx, r32(A::range(n)), (f.els[id].start, f.els[id].end), "range of element {id}"),
            NodeOrToken::Token(t) => {
                check_eq!(cx, A::t_text(t), f.text_of(id), "text of element {id}");
                if full {
                    check_eq!(cx, t.to_string(), f.text_of(id), "display of element {id}");
                }
            }
        }
    }
    // a subtree copy of every node is a tree of its own starting at 0
    if f.len() < 40 {
        for (id, h) in hs.iter().enumerate() {
            if let NodeOrToken::Node(n) = h {
                let sub = A::clone_subtree(n);
                let sf = Flat::new(&f.to_el(id));
                same_tree::<A>(cx, &sub, &sf, "subtree copy");
            }
        }
    }
}

fn all(cx: &mut Cx, e: &El, modes: &[Mode]) {
    let f = Flat::new(e);
    for gm in GMS {
        let g = green(e, gm);
        cx.case(|| format!("green {gm:?} {e:?}"));
        let text = green_ok(cx, &g, e);
        check_eq!(cx, text, f.text, "green text");
        drop(g);
        for &mode in modes {
            tree_ok::<Cur>(cx, e, &f, gm, mode);
            tree_ok::<Typ>(cx, e, &f, gm, mode);
        }
    }
}

fn token_ok(cx: &mut Cx, k: u16, s: &str) {
    let t = GreenToken::new(SyntaxKind(k), s);
    cx.steps(3);
    check_eq!(cx, t.text(), s, "token text");
    check_eq!(cx, t.kind().0, k, "token kind");
    check_eq!(cx, u32::from(t.text_len()), s.len() as u32, "token length");
    let t2 = t.clone();
    let n = GreenNode::new(SyntaxKind(k), [t.into(), GreenToken::new(SyntaxKind(k ^ 1), "|").into(), t2.into()]);
    check_eq!(cx, n.kind().0, k, "node kind");
    check_eq!(cx, u32::from(n.text_len()), 2 * s.len() as u32 + 1, "node length");
    for root in [Cur::new_root(n.clone()), Cur::new_root_mut(n)] {
        let hs = handles::<Cur>(&root);
        let f = Flat::new(&N(k, vec![T(k, s.into()), T(k ^ 1, "|".into()), T(k, s.into())]));
        check_eq!(cx, hs.len(), 4, "elements");
        for (id, h) in hs.iter().enumerate() {
            attrs::<Cur>(cx, &f, h, id, "three tokens");
            attrs::<Typ>(cx, &f, &Typ::from_raw(h.clone()), id, "three tokens, typed");
        }
    }
}

/// Trees about as long as an offset can count: ranges along paths, for every way to build them.
fn huge_ok<A: Api>(cx: &mut Cx, name: &str, d: &Rc<D>, mode: Mode) {
    cx.case(|| format!("{} {mode:?} {name}, {} bytes", A::NAME, d.len));
    let g = d.green();
    check_eq!(cx, u32::from(g.text_len()) as u64, d.len, "green length");
    let root = match mode {
        Mode::Imm => A::new_root(g),
        Mode::Mut => A::new_root_mut(g),
        _ => A::clone_for_update(&A::new_root(g)),
    };
    let paths = d.paths();
    for how in 0..2 {
        let mut keep = Vec::new();
        for p in &paths {
            let hs = reach::<A>(&root, d, p, how);
            for (i, h) in hs.iter().enumerate() {
                is_at::<A>(cx, d, &p[..i], h, "a huge tree");
            }
            // tiling, below each of them
            for h in &hs {
                let NodeOrToken::Node(n) = h else { continue };
                let (s, e) = e32(A::range(n));
                let mut at = s;
                for c in A::children_with_tokens(n) {
                    let (a, b) = e32(A::e_range(&c));
                    check_eq!(cx, a, at, "start of a child");
                    at = b;
                }
                check_eq!(cx, at, e, "end of the last child");
            }
            if how == 1 {
                keep.push(hs);
            }
        }
        // all alive at once
        for (hs, p) in keep.iter().zip(&paths) {
            for (i, h) in hs.iter().enumerate() {
                is_at::<A>(cx, d, &p[..i], h, "a huge tree, all handles alive");
            }
        }
    }
    if let Some(n) = A::first_child(&root) {
        check_eq!(cx, e32(A::range(&A::clone_subtree(&n))).0, 0, "subtree copy of a child");
    }
}

/// One byte more or less than fits.
fn limit(cx: &mut Cx, shape: usize, total: u64, how: usize) {
    let (name, d) = shapes(total).swap_remove(shape);
    cx.case(|| format!("{name}, {total} bytes, built in way {how}"));
    cx.state(&(shape, total, how));
    if d.kids().iter().any(|c| c.len > MAX) {
        return; // a child is too long already
    }
    let mut memo = Default::default();
    let parts: Vec<Green> = d.kids().iter().map(|c| c.green_el(&mut memo)).collect();
    let n = guard(|| build(7, &parts, how));
    cx.step();
    match &n {
        Some(n) => {
            check!(cx, total <= MAX, "a node of {total} bytes is accepted, expected a panic; its length is {:?}", n.text_len());
            check_eq!(cx, u32::from(n.text_len()) as u64, total, "length");
            check_eq!(cx, n.children().len(), parts.len(), "children");
            let mut at = 0;
            let root = Cur::new_root(n.clone());
            for (c, p) in Cur::children_with_tokens(&root).zip(d.kids()) {
                check_eq!(cx, e32(Cur::e_range(&c)), (at, at + p.len), "range of a child");
                at += p.len;
            }
        }
        None => check!(cx, total > MAX, "a node of {total} bytes is refused"),
    }
    // what it was to be made of is as before
    for (p, m) in parts.iter().zip(d.kids()) {
        check_eq!(cx, u32::from(p.text_len()) as u64, m.len, "length of a part");
    }
}

/// A builder that doubles: the last node is too long or just fits.
fn limit_built(cx: &mut Cx, times: u64, len: u64, cached: bool) {
    let total = times * len;
    cx.case(|| format!("builder with {} cache: {times} tokens of {len} bytes", if cached { "a" } else { "its own" }));
    cx.state(&(times, len, cached));
    let text = token_text(len);
    let mut cache = NodeCache::default();
    let n = guard(|| {
        let mut own;
        let mut b = if cached { GreenNodeBuilder::with_cache(&mut cache) } else { own = NodeCache::default(); GreenNodeBuilder::with_cache(&mut own) };
        doubled(&mut b, 5, &text, times as usize);
        b.finish()
    });
    cx.step();
    match n {
        Some(n) => {
            check!(cx, total <= MAX, "a node of {total} bytes is built, expected a panic; its length is {:?}", n.text_len());
            check_eq!(cx, u32::from(n.text_len()) as u64, total, "length");
        }
        None => check!(cx, total > MAX, "a node of {total} bytes is refused"),
    }
    // the cache is usable
    let mut b = GreenNodeBuilder::with_cache(&mut cache);
    doubled(&mut b, 5, "ab", 2);
    check_eq!(cx, b.finish().to_string(), "abab", "built with the cache afterwards");
}

fn main() {
    mc::engine::main("C01", |tier: Tier| -> Vec<Family> {
        let small = TreeSpace::new(1, 5, &[1, 300], &[(1, "a"), (2, ""), (2, "é")]);
        let mid = TreeSpace::new(6, 6, &[1], &[(1, "ab"), (2, ""), (2, "日")]);
        let big = TreeSpace::new(7, tier.pick(7, 8), &[1], &[(1, "a"), (2, "")]);
        let mut v = vec![
            family("small", small.describe(), small.count(), move |cx, i| all(cx, &small.get(i), &MODES)),
            family("mid", mid.describe(), mid.count(), move |cx, i| {
                all(cx, &mid.get(i), &[Mode::Imm, Mode::Mut])
            }),
            family("big", big.describe(), big.count(), move |cx, i| {
                all(cx, &big.get(i), &[Mode::Imm, Mode::Mut])
            }),
        ];
        let mut w: Vec<usize> = (6..=70).collect();
        w.extend([127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]);
        w.extend(tier.pick(vec![65535, 65536, 65537], vec![32767, 32768, 65535, 65536, 65537, 131073]));
        let d: Vec<usize> = (5..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]).collect();
        let scale = scale_trees(&w, &d);
        let what = format!("widths {w:?}, depths {d:?}");
        v.push(family("scale", what, scale.len() as u64, move |cx, i| {
            let e = &scale[i as usize];
            // a wide mutable tree with all handles alive is quadratic: only immutable beyond 1100
            let modes = [Mode::Imm, Mode::Mut];
            all(cx, e, if e.size() > 4000 { &modes[..1] } else { &modes })
        }));
        let fs = TreeSpace::new(1, tier.pick(3, 4), &[1], &[(1, "a"), (2, ""), (2, "é")]);
        let places: Vec<Far> = FAR.iter().chain(if tier == Tier::Thorough { FARTHER.iter() } else { [].iter() }).copied().collect();
        let np = places.len() as u64;
        v.push(family("far", format!("small trees in far places {places:?}; {}", fs.describe()), fs.count() * np, move |cx, i| {
            let e = places[(i % np) as usize].put(&fs.get(i / np)).0;
            all(cx, &e, &[Mode::Imm, Mode::Mut])
        }));
        let mut lens: Vec<usize> = (0..=tier.pick(600, 3000)).collect();
        lens.extend([65534, 65535, 65536, 65537, (1 << 20) - 1, (1 << 20) + 1, (1 << 24) + 3]);
        v.push(family("token-lengths", format!("token texts of 0..{} bytes and around 2^16, 2^20, 2^24", lens.len() - 7),
            lens.len() as u64, move |cx, i| {
                let n = lens[i as usize];
                cx.case(|| format!("token of {n} bytes"));
                cx.state(&("len", n));
                token_ok(cx, 7, &"abcdefg".repeat(n / 7 + 1)[..n]);
            }));
        v.push(family("kinds", "every raw kind 0..=65535, for nodes and tokens", 65536 / 64, |cx, i| {
            for k in 0..64u64 {
                let k = (i * 64 + k) as u16;
                cx.case(|| format!("kind {k}"));
                cx.state(&("kind", k));
                token_ok(cx, k, "ab");
            }
        }));
        let tot = totals();
        v.push(family("huge", format!("trees of shared parts with {tot:?} bytes of text (powers of two, 1 MiB tokens, 16 MiB tokens 256 deep): every element along the edges and below each child of the root"), (tot.len() * 5 * 3) as u64, move |cx, i| {
            let i = i as usize;
            let (name, d) = shapes(tot[i / 15]).swap_remove(i % 5);
            let mode = MODES[i / 5 % 3];
            cx.state(&(i / 15, i % 5, mode.mutable()));
            huge_ok::<Cur>(cx, name, &d, mode);
            huge_ok::<Typ>(cx, name, &d, mode);
        }));
        let lim = [MAX - 1, MAX, MAX + 1, MAX + 2, MAX + MIB, 2 * MAX + 1, 2 * MAX + 2, 3 * MAX];
        v.push(family("limit", format!("nodes with {lim:?} bytes of text, built of shared parts in {BUILDS} ways (constructor, edits, substitution, splices of mutable trees): refused exactly when an offset cannot count them"), (lim.len() * 5 * BUILDS) as u64, move |cx, i| {
            let i = i as usize;
            // inserting one by one is quadratic
            if !(i % 5 == 2 && (2..=3).contains(&(i / 5 % BUILDS))) && !(i % 5 == 2 && i / 5 % BUILDS >= 6 && lim[i / 5 / BUILDS] > MAX + MIB) {
                limit(cx, i % 5, lim[i / 5 / BUILDS], i / 5 % BUILDS);
            }
        }));
        let built: Vec<(u64, u64)> = vec![(4095, MIB), (4096, MIB), (4097, MIB), (1 << 16, 65535), (1 << 16, 65536), (65537, 65535), (65538, 65535), (255, 16843009), (256, 1 << 24)];
        v.push(family("limit-built", format!("nodes of (tokens, bytes in each) {built:?} made by a builder, whose cache is used again"), built.len() as u64 * 2, move |cx, i| {
            let (n, l) = built[i as usize / 2];
            limit_built(cx, n, l, i % 2 == 1);
        }));
        let step = tier.pick(7, 1);
        v.push(family("chars", format!("single-character tokens: every {step}th Unicode scalar value, plus all within 64 of a change of encoded length"),
            0x110000 / 1024, move |cx, i| {
                for c in (i * 1024..(i + 1) * 1024).filter_map(|c| char::from_u32(c as u32)) {
                    let near = [0x80u32, 0x800, 0xd800, 0xe000, 0x10000, 0x110000].iter().any(|&b| (c as u32).abs_diff(b) < 64);
                    if near || c as u32 % step == 0 {
                        cx.case(|| format!("char {c:?}"));
                        cx.state(&("char", c));
                        token_ok(cx, 9, c.encode_utf8(&mut [0; 4]));
                    }
                }
            }));
        v
    })
}

