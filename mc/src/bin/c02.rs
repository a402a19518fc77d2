//! C02: the builder yields exactly the tree its calls describe.
use mc::check;
use mc::engine::{Cx, Family, Tier, family, guard};
use mc::model::*;
use rowan::{Checkpoint, GreenNode, GreenNodeBuilder, NodeCache, SyntaxKind};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Tok(u16, &'static str),
    Start(u16),
    Finish,
    Cp(usize),
    StartAt(usize, u16),
}
use Op::*;

const OPS: [Op; 10] = [
    Tok(1, "a"),
    Tok(2, ""),
    Start(1),
    Start(2),
    Finish,
    Cp(0),
    Cp(1),
    StartAt(0, 1),
    StartAt(0, 2),
    StartAt(1, 2),
];

/// The tree described so far: open nodes, outermost (a pseudo node at the top level) first.
#[derive(Clone)]
struct Model {
    open: Vec<(u16, Vec<El>)>,
    /// Checkpoints: position in the list of all elements present, and whether elements around it
    /// have since been taken into a node (then it no longer denotes a place: not judged).
    cps: [Option<(usize, bool)>; 2],
}

#[derive(PartialEq)]
enum Step {
    Done,
    Refused,
    /// Not judged.
    Skip,
}

impl Model {
    fn new(outer: bool) -> Model {
        let mut open = vec![(0, vec![])];
        if outer {
            open.push((9, vec![]));
        }
        Model { open, cps: [None; 2] }
    }
    fn present(&self) -> usize {
        self.open.iter().map(|o| o.1.len()).sum()
    }
    fn step(&mut self, op: Op, min_open: usize) -> Step {
        match op {
            Tok(k, s) => self.open.last_mut().unwrap().1.push(t(k, s)),
            Start(k) => self.open.push((k, vec![])),
            Finish => {
                if self.open.len() == 1 {
                    return Step::Refused;
                }
                if self.open.len() <= min_open {
                    return Step::Skip;
                }
                let start = self.present() - self.open.last().unwrap().1.len();
                for c in self.cps.iter_mut().flatten() {
                    c.1 |= c.0 > start;
                }
                let (k, c) = self.open.pop().unwrap();
                self.open.last_mut().unwrap().1.push(N(k, c));
            }
            Cp(s) => {
                // keep one representative: slot 1 is used only after slot 0
                if s == 1 && self.cps[0].is_none() {
                    return Step::Skip;
                }
                self.cps[s] = Some((self.present(), false))
            }
            StartAt(s, k) => {
                let Some((p, stale)) = self.cps[s] else { return Step::Skip };
                let total = self.present();
                let inner = total - self.open.last().unwrap().1.len();
                if p > total || p < inner && self.open.len() > 1 {
                    return Step::Refused;
                }
                if stale {
                    return Step::Skip;
                }
                let rest = self.open.last_mut().unwrap().1.split_off(p - inner);
                self.open.push((k, rest));
            }
        }
        Step::Done
    }
    /// The finished tree, after closing everything.
    fn close(&self) -> Vec<El> {
        let mut m = self.open.clone();
        while m.len() > 1 {
            let (k, c) = m.pop().unwrap();
            m.last_mut().unwrap().1.push(N(k, c));
        }
        m.pop().unwrap().1
    }
}

struct Real<'c> {
    b: GreenNodeBuilder<'c>,
    cps: [Option<Checkpoint>; 2],
}

impl Real<'_> {
    /// Whether the call went through.
    fn step(&mut self, op: Op, may_panic: bool) -> bool {
        let mut go = || match op {
            Tok(k, s) => self.b.token(SyntaxKind(k), s),
            Start(k) => self.b.start_node(SyntaxKind(k)),
            Finish => self.b.finish_node(),
            Cp(s) => self.cps[s] = Some(self.b.checkpoint()),
            StartAt(s, k) => self.b.start_node_at(self.cps[s].unwrap(), SyntaxKind(k)),
        };
        if may_panic { guard(go).is_some() } else { go(); true }
    }
}

/// What is there already: the open nodes and their children, and how many of the last children of the
/// innermost one came after the first checkpoint was taken (if one was).
#[derive(Clone, Debug)]
struct Before {
    open: Vec<(u16, Vec<El>)>,
    cp: Option<usize>,
}

impl Before {
    fn new(outer: bool) -> Before {
        let mut open = vec![(0, vec![])];
        if outer {
            open.push((9, vec![]));
        }
        Before { open, cp: None }
    }
    fn build(&self, r: &mut Real) {
        for (i, (k, c)) in self.open.iter().enumerate() {
            if i > 0 {
                r.b.start_node(SyntaxKind(*k));
            }
            let last = i + 1 == self.open.len();
            for (j, x) in c.iter().enumerate() {
                if last && self.cp == Some(c.len() - j) {
                    r.cps[0] = Some(r.b.checkpoint());
                }
                emit_styled(x, &mut |_| 0, &mut r.b);
            }
            if last && self.cp == Some(0) {
                r.cps[0] = Some(r.b.checkpoint());
            }
        }
    }
    fn model(&self) -> Model {
        let mut m = Model { open: self.open.clone(), cps: [None; 2] };
        m.cps[0] = self.cp.map(|k| (m.present() - k, false));
        m
    }
    fn describe(&self) -> String {
        let short = |c: &[El]| if c.len() < 4 { format!("{c:?}") } else { format!("{} children", c.len()) };
        let (n, last) = (self.open.len(), self.open.last().unwrap());
        let text: u32 = self.open.iter().flat_map(|o| &o.1).map(|c| c.len()).sum();
        format!("{n} nodes open (with a pseudo one), {text} bytes of text, the innermost {} with {}, checkpoint taken before its last {:?} children", last.0, short(&last.1), self.cp)
    }
}

fn run(cx: &mut Cx, seq: &[(Op, bool)], before: &Before, want: &Model, cache: Option<&mut NodeCache>, how: &str) {
    let mut r = Real {
        b: match cache {
            Some(c) => GreenNodeBuilder::with_cache(c),
            None => GreenNodeBuilder::new(),
        },
        cps: [None; 2],
    };
    before.build(&mut r);
    for (i, &(op, refused)) in seq.iter().enumerate() {
        cx.step();
        let ok = r.step(op, refused);
        check!(cx, ok != refused, "{how}: step {i} {op:?} of {seq:?} was accepted, expected a panic");
    }
    for _ in 1..want.open.len() {
        r.b.finish_node();
    }
    let top = want.close();
    match &top[..] {
        [e @ N(..)] => {
            let g = r.b.finish();
            check!(cx, same_green(&g, e), "{how}: {seq:?}: built {:?}, expected {e:?}", El::read(&g));
            check!(
                cx,
                g.text_len() == e.len().into() && g.to_string() == e.text(),
                "{how}: {seq:?}: text of the built tree"
            );
        }
        other => {
            let n = other.len();
            let got = guard(move || r.b.finish());
            check!(cx, got.is_none(), "{how}: {seq:?}: finish was accepted with {n} elements built and gave {got:?}, expected a panic");
        }
    }
}

/// All sequences that extend `seq`, up to `depth` calls, with at most `refused` refused ones.
fn explore(
    cx: &mut Cx,
    seq: &mut Vec<(Op, bool)>,
    m: &Model,
    depth: usize,
    refused: usize,
    before: &Before,
    caches: &mut [NodeCache],
) {
    for op in OPS {
        let mut m2 = m.clone();
        let st = m2.step(op, if before.open.len() > 1 { 2 } else { 1 });
        if st == Step::Skip || st == Step::Refused && refused == 0 {
            continue;
        }
        // taking a checkpoint over and over is of no interest by itself
        if matches!(op, Cp(s) if matches!(seq.last(), Some((Cp(q), _)) if *q >= s)) {
            continue;
        }
        seq.push((op, st == Step::Refused));
        cx.case(|| format!("{}: {seq:?}", before.describe()));
        if matches!(op, StartAt(..)) || st == Step::Refused {
            cx.nontrivial += 1;
        }
        let at_end = seq.len() == depth || !matches!(op, Cp(_));
        if at_end {
            cx.state(&(m2.close(), m2.open.len(), m2.cps));
            run(cx, seq, before, &m2, None, "private cache");
            for (i, c) in caches.iter_mut().enumerate() {
                run(cx, seq, before, &m2, Some(c), if i == 0 { "shared cache" } else { "pre-filled cache" });
            }
        }
        if seq.len() < depth {
            let left = if st == Step::Refused { refused - 1 } else { refused };
            explore(cx, seq, &m2, depth, left, before, caches);
        }
        seq.pop();
    }
}

/// Ways to issue the calls for a tree: per node, `None` = start_node before its children,
/// `Some(k)` = checkpoint, `k` children, then start_node_at.
fn emit_styled(e: &El, style: &mut dyn FnMut(usize) -> usize, b: &mut GreenNodeBuilder<'_>) {
    match e {
        T(k, s) => b.token(SyntaxKind(*k), s),
        N(k, c) => {
            let how = style(c.len());
            let cp = b.checkpoint();
            if how == 0 {
                b.start_node(SyntaxKind(*k));
            }
            for (i, x) in c.iter().enumerate() {
                if how == i + 1 {
                    b.start_node_at(cp, SyntaxKind(*k));
                }
                emit_styled(x, style, b);
            }
            if how == c.len() + 1 {
                b.start_node_at(cp, SyntaxKind(*k));
            }
            b.finish_node();
        }
    }
}

fn styled(e: &El, mut code: u64, cache: Option<&mut NodeCache>) -> (GreenNode, u64) {
    let mut total = 1u64;
    let mut b = match cache {
        Some(c) => GreenNodeBuilder::with_cache(c),
        None => GreenNodeBuilder::new(),
    };
    emit_styled(
        e,
        &mut |n| {
            let k = n as u64 + 2;
            total = total.saturating_mul(k);
            let r = code % k;
            code /= k;
            r as usize
        },
        &mut b,
    );
    (b.finish(), total)
}

fn prefill(cache: &mut NodeCache) {
    let s = TreeSpace::new(1, 5, &[1, 2], &[(1, "a"), (2, "")]);
    for i in 0..s.count() {
        s.get(i).green_cached(cache);
    }
}

fn main() {
    mc::engine::main("C02", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        for (name, outer) in [("calls-in-a-root", true), ("calls-at-top-level", false)] {
            let depth = tier.pick(7, 8);
            let pre = 3;
            // units: all sequences of 3 ops as prefixes (shorter ones are checked from unit 0)
            let n = OPS.len() as u64;
            v.push(family(
                name,
                format!("all sequences of up to {depth} of the calls {OPS:?} with at most 2 refused ones, each with a private, a shared and a pre-filled cache that lives across the sequences"),
                n.pow(pre),
                move |cx, i| {
                    let mut filled = NodeCache::default();
                    prefill(&mut filled);
                    let mut caches = [NodeCache::default(), filled];
                    if i == 0 {
                        explore(cx, &mut vec![], &Model::new(outer), pre as usize, 2, &Before::new(outer), &mut caches);
                    }
                    let mut m = Model::new(outer);
                    let mut seq: Vec<(Op, bool)> = vec![];
                    let mut x = i;
                    let mut refused = 2usize;
                    for _ in 0..pre {
                        let op = OPS[(x % n) as usize];
                        x /= n;
                        let st = m.step(op, if outer { 2 } else { 1 });
                        let dup = matches!(op, Cp(s) if matches!(seq.last(), Some((Cp(q), _)) if *q >= s));
                        if st == Step::Skip || dup || st == Step::Refused && refused == 0 {
                            return;
                        }
                        if st == Step::Refused {
                            refused -= 1;
                        }
                        seq.push((op, st == Step::Refused));
                    }
                    explore(cx, &mut seq, &m, depth, refused, &Before::new(outer), &mut caches);
                },
            ));
        }
        // the same calls when much is there already
        let texts = ["a", "", "é", "xyz"];
        let many = |n: usize| -> Vec<El> { (0..n).map(|i| if i % 3 == 2 { N(24, vec![]) } else { t(22, texts[i % 4]) }).collect() };
        let levels = |d: usize, inner: Vec<El>| -> Vec<(u16, Vec<El>)> {
            let mut v = vec![(0, vec![])];
            v.extend((0..d).map(|i| (20 + i as u16 % 2, if i % 2 == 0 { vec![t(22, texts[i % 4])] } else { vec![] })));
            v.last_mut().unwrap().1 = inner;
            v
        };
        let big = tier == Tier::Thorough;
        let mut all: Vec<(Before, usize)> = Vec::new();
        for cp in [None, Some(0), Some(1), Some(2)] {
            for d in if big { vec![64, 130, 300, 1000] } else { vec![130, 300] } {
                all.push((Before { open: levels(d, many(3)), cp }, if big { 5 } else { 4 }));
            }
            for n in if big { vec![257, 300, 1100] } else { vec![300] } {
                let mut two = levels(1, many(n));
                all.push((Before { open: two.clone(), cp }, if big { 5 } else { 4 }));
                two.push((23, many(2)));
                all.push((Before { open: two, cp }, if big { 5 } else { 4 }));
                all.push((Before { open: levels(70, many(n)), cp }, if big { 5 } else { 4 }));
            }
            all.push((Before { open: levels(1, vec![t(1, &"b".repeat(70_001)), t(22, "é"), t(22, "")]), cp }, 4));
            let mut wide = levels(2, many(70_000));
            all.push((Before { open: wide.clone(), cp }, if big { 3 } else { 2 }));
            wide.push((23, many(2)));
            all.push((Before { open: wide, cp }, if big { 3 } else { 2 }));
        }
        for n in [300, 70_000] {
            // a checkpoint far back
            all.push((Before { open: levels(3, many(n)), cp: Some(n) }, if n == 300 { 4 } else { 2 }));
            all.push((Before { open: levels(3, many(n)), cp: Some(n - 1) }, if n == 300 { 4 } else { 2 }));
        }
        v.push(family("far", format!("all sequences of up to {} calls (2 or 3 beyond 70000 elements) when up to {} nodes are open, up to 70000 elements or 70000 bytes were built, a checkpoint taken before the last 0, 1, 2 or all children or not at all; {} such states", if big { 5 } else { 4 }, if big { 1000 } else { 300 }, all.len()), all.len() as u64 * OPS.len() as u64, move |cx, i| {
            let (b, depth) = &all[i as usize / OPS.len()];
            let first = OPS[i as usize % OPS.len()];
            let m = b.model();
            let mut caches = [NodeCache::default()];
            let mut m2 = m.clone();
            let st = m2.step(first, 2);
            if st == Step::Skip {
                return;
            }
            let refused = st == Step::Refused;
            cx.case(|| format!("{}: {first:?}", b.describe()));
            let mut seq = vec![(first, refused)];
            run(cx, &seq, b, &m2, None, "private cache");
            run(cx, &seq, b, &m2, Some(&mut caches[0]), "shared cache");
            explore(cx, &mut seq, &m2, *depth, 1 - refused as usize, b, &mut caches);
        }));
        // every tree in every style
        for (name, s) in [
            ("styles", TreeSpace::new(1, tier.pick(6, 7), &[1, 2], &[(1, "a"), (2, "")])),
            ("styles-shapes", TreeSpace::new(7, tier.pick(7, 8), &[1], &[(1, "a")])),
        ] {
            v.push(family(
                name,
                format!("every tree, every choice per node of starting it before, between or after its children through a checkpoint; {}", s.describe()),
                s.count(),
                move |cx, i| {
                    let e = s.get(i);
                    cx.state(&e);
                    let mut cache = NodeCache::default();
                    let (_, total) = styled(&e, 0, None);
                    for code in 0..total {
                        cx.case(|| format!("{e:?} style {code}"));
                        cx.steps(e.size() as u64);
                        cx.nontrivial += 1;
                        let (g, _) = styled(&e, code, None);
                        check!(cx, same_green(&g, &e), "style {code}: built {:?}, expected {e:?}", El::read(&g));
                        let (g, _) = styled(&e, code, Some(&mut cache));
                        check!(cx, same_green(&g, &e), "style {code}, shared cache: built {:?}, expected {e:?}", El::read(&g));
                    }
                },
            ));
        }
        // large trees, in the plain and the two extreme styles
        let w: Vec<usize> = (1..=70).chain([127, 128, 129, 255, 256, 257, 1023, 1025, 65535, 65536, 65537]).collect();
        let d: Vec<usize> = (1..=70).chain([127, 128, 129, 255, 256, 257, 511, 513]).collect();
        let scale = Arc::new(scale_trees(&w, &d));
        v.push(family(
            "scale",
            format!("widths {w:?}, depths {d:?}, styles: before, after, in the middle, alternating"),
            scale.len() as u64,
            move |cx, i| {
                let e = &scale[i as usize];
                cx.state(e);
                let mut cache = NodeCache::default();
                for how in 0..4usize {
                    cx.case(|| format!("{e:?} style {how}"));
                    cx.steps(e.size() as u64);
                    for shared in [false, true] {
                        let mut b = if shared { GreenNodeBuilder::with_cache(&mut cache) } else { GreenNodeBuilder::new() };
                        let mut k = 0;
                        emit_styled(
                            e,
                            &mut |n| {
                                k += 1;
                                match how {
                                    0 => 0,
                                    1 => n + 1,
                                    2 => n / 2 + 1,
                                    _ => (k % 2) * (n + 1),
                                }
                            },
                            &mut b,
                        );
                        let g = b.finish();
                        check!(cx, same_green(&g, e), "style {how} shared {shared}: differs from {e:?}");
                        check!(cx, g.to_string() == e.text(), "text, style {how} shared {shared}: {e:?}");
                    }
                }
            },
        ));
        v
    })
}
