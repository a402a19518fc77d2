//! C17: a syntax text behaves as the string it denotes.
use mc::api::*;
use mc::engine::{Cx, Family, Tier, family, guard};
use mc::model::*;
use mc::tree::*;
use mc::huge::{self, D};
use mc::{check, check_eq};
use std::rc::Rc;
use rowan::{NodeOrToken, SyntaxText, TextRange, TextSize};

const CHARS: [char; 7] = ['a', 'b', 'é', '|', 'z', '日', '\u{a9}'];

/// Everything a text can be asked; `s` is the string it denotes, `cuts` the offsets in it where
/// tokens meet.
fn is(cx: &mut Cx, t: &SyntaxText, s: &str, cuts: &[usize], all: bool, what: &dyn Fn() -> String) {
    cx.step();
    check_eq!(cx, u32::from(t.len()), s.len() as u32, "{}: len", what());
    check_eq!(cx, t.is_empty(), s.is_empty(), "{}: is_empty", what());
    check_eq!(cx, t.to_string(), s, "{}: to_string", what());
    let mut chunks: Vec<String> = Vec::new();
    t.for_each_chunk(|c| chunks.push(c.to_string()));
    // each token's share, in order (empty shares may or may not be passed)
    let mut want: Vec<&str> = Vec::new();
    let mut at = 0;
    for &c in cuts.iter().chain([&s.len()]) {
        if c > at {
            want.push(&s[at..c]);
            at = c;
        }
    }
    let got: Vec<&str> = chunks.iter().map(|s| s.as_str()).filter(|s| !s.is_empty()).collect();
    check_eq!(cx, got, want, "{}: chunks", what());
    if !all {
        return;
    }
    check_eq!(cx, format!("{t:?}"), format!("{s:?}"), "{}: Debug", what());
    check_eq!(cx, String::from(t.clone()), s, "{}: String::from", what());
    for c in CHARS {
        cx.step();
        check_eq!(cx, t.contains_char(c), s.contains(c), "{}: contains_char({c:?})", what());
        check_eq!(cx, t.find_char(c).map(|o| u32::from(o) as usize), s.find(c), "{}: find_char({c:?})", what());
    }
    for o in (0..s.len() + 3).chain([u32::MAX as usize]) {
        let want = if o >= s.len() {
            None
        } else if s.is_char_boundary(o) {
            s[o..].chars().next()
        } else {
            continue;
        };
        check_eq!(cx, t.char_at(TextSize::from(o as u32)), want, "{}: char_at({o})", what());
    }
    for stop in 0..chunks.len() {
        cx.step();
        let mut calls = 0;
        let r = t.try_for_each_chunk(|c| {
            calls += 1;
            if calls == stop + 1 { Err((stop, c.to_string())) } else { Ok(()) }
        });
        check_eq!(cx, r, Err((stop, chunks[stop].clone())), "{}: try_for_each_chunk stopped at chunk {stop}", what());
        check_eq!(cx, calls, stop + 1, "{}: calls when stopped at chunk {stop}", what());
        let r: Result<String, String> =
            t.try_fold_chunks(String::new(), |acc, c| {
                let n = acc.clone() + c;
                if acc.len() + c.len() > stop { Err(n) } else { Ok(n) }
            });
        let mut acc = String::new();
        let mut w = None;
        for c in &chunks {
            let long = acc.len() + c.len() > stop;
            acc.push_str(c);
            if long {
                w = Some(acc.clone());
                break;
            }
        }
        check_eq!(cx, r, w.map(Err).unwrap_or(Ok(acc)), "{}: try_fold_chunks with a limit of {stop} bytes", what());
    }
    let r: Result<u32, ()> = t.try_fold_chunks(0, |n, c| Ok(n + c.len() as u32));
    check_eq!(cx, r, Ok(s.len() as u32), "{}: try_fold_chunks", what());
    // strings equal to it, and all those close to it
    let mut near = vec![s.to_string(), format!("{s}a"), format!("a{s}"), format!("{s}é"), String::new(), "a".into(), s.to_uppercase()];
    for (i, _) in s.char_indices() {
        near.push(s[..i].to_string());
        near.push(s[i..].to_string());
        near.push(format!("{}b{}", &s[..i], &s[i..]));
        let mut rest = s[i..].chars();
        rest.next();
        near.push(format!("{}{}", &s[..i], rest.as_str()));
        near.push(format!("{}é{}", &s[..i], rest.as_str()));
    }
    for n in &near {
        cx.step();
        let n: &str = n;
        let want = n == s;
        check_eq!(cx, *t == *n, want, "{}: == str {n:?}", what());
        check_eq!(cx, *n == *t, want, "{}: str {n:?} ==", what());
        check_eq!(cx, *t == n, want, "{}: == &str {n:?}", what());
        check_eq!(cx, n == *t, want, "{}: &str {n:?} ==", what());
        check_eq!(cx, *t != *n, !want, "{}: != str {n:?}", what());
        check_eq!(cx, *n != *t, !want, "{}: str {n:?} !=", what());
        check_eq!(cx, *t != n, !want, "{}: != &str {n:?}", what());
        check_eq!(cx, n != *t, !want, "{}: &str {n:?} !=", what());
    }
}

/// The offsets at which tokens meet, in a slice of a text.
fn cut(cuts: &[usize], a: usize, b: usize) -> Vec<usize> {
    cuts.iter().filter(|&&c| c >= a && c <= b).map(|&c| c - a).collect()
}

fn try_slice(t: &SyntaxText, a: u32, b: u32, form: usize, len: u32) -> Option<Option<SyntaxText>> {
    let (x, y) = (TextSize::from(a), TextSize::from(b));
    Some(match form {
        0 => guard(|| t.slice(TextRange::new(x, y))),
        1 => guard(|| t.slice(x..y)),
        2 if b == len => guard(|| t.slice(x..)),
        3 if a == 0 => guard(|| t.slice(..y)),
        4 if a == 0 && b == len => guard(|| t.slice(..)),
        _ => return None,
    })
}

/// All slices of `t`, to a depth.
fn slices(cx: &mut Cx, t: &SyntaxText, s: &str, cuts: &[usize], depth: usize, all: bool, what: &dyn Fn() -> String) {
    is(cx, t, s, cuts, all, what);
    if depth == 0 {
        return;
    }
    let len = s.len() as u32;
    let mut ends: Vec<u32> = (0..=len + 2).collect();
    if depth > 1 || all {
        ends.extend([u32::MAX - 2, u32::MAX - 1, u32::MAX]);
    }
    for &a in &ends {
        for &b in &ends {
            for form in 0..5 {
                if form == 0 && a > b {
                    continue; // no such TextRange
                }
                // beyond the length, an open end stands for the length
                let Some(r) = try_slice(t, a, b, form, len) else { continue };
                let ok = a <= b && b <= len;
                cx.step();
                match r {
                    None => check!(cx, !ok, "{}: slice {a}..{b} (form {form}) of a text of length {len} panics", what()),
                    Some(x) => {
                        check!(cx, ok, "{}: slice {a}..{b} (form {form}) of a text of length {len} is accepted", what());
                        check_eq!(cx, u32::from(x.len()), b - a, "{}: length of slice {a}..{b}", what());
                        let (a, b) = (a as usize, b as usize);
                        if s.is_char_boundary(a) && s.is_char_boundary(b) {
                            let w = || format!("{} slice {a}..{b} (form {form})", what());
                            let deeper = form < 2;
                            slices(cx, &x, &s[a..b], &cut(cuts, a, b), if deeper { depth - 1 } else { 0 }, all && deeper, &w);
                        }
                    }
                }
            }
        }
    }
}

fn tree<A: Api>(cx: &mut Cx, e: &El, f: &Flat, gm: Gm, mode: Mode, depth: usize, all: bool) {
    let root = make::<A>(e, gm, mode);
    for id in f.nodes() {
        let Some(NodeOrToken::Node(n)) = reach::<A>(&root, f, id, id % HOWS) else { cx.fail("not reached") };
        let m = &f.els[id];
        let cuts: Vec<usize> =
            (id..m.last).filter(|&i| !f.els[i].node).map(|i| (f.els[i].end - m.start) as usize).collect();
        let t = A::text(&n);
        cx.case(|| format!("{} {gm:?} {mode:?} {e:?} text of element {id}", A::NAME));
        let w = || format!("{} {gm:?} {mode:?} text of element {id}", A::NAME);
        cx.outcome(&f.text_of(id));
        slices(cx, &t, f.text_of(id), &cuts, depth, all, &w);
        if cuts.len() > 1 {
            cx.nontrivial += 1;
        }
    }
}

/// Texts in and around a small tree in a far place.
fn far_text<A: Api>(cx: &mut Cx, e: &El, f: &Flat, base: usize, size: usize, gm: Gm, mode: Mode) {
    let root = make::<A>(e, gm, mode);
    let cuts = |id: usize| -> Vec<usize> {
        let m = &f.els[id];
        (id..m.last).filter(|&i| !f.els[i].node).map(|i| (f.els[i].end - m.start) as usize).collect()
    };
    let node = |cx: &mut Cx, id: usize| match reach::<A>(&root, f, id, id % HOWS) {
        Some(NodeOrToken::Node(n)) => n,
        _ => cx.fail("not reached"),
    };
    for id in (base..base + size).filter(|&i| f.els[i].node) {
        let n = node(cx, id);
        cx.case(|| format!("{} {gm:?} {mode:?} {e:?} text of element {id}", A::NAME));
        let w = || format!("{} {gm:?} {mode:?} text of element {id}", A::NAME);
        slices(cx, &A::text(&n), f.text_of(id), &cuts(id), 1, true, &w);
        cx.nontrivial += 1;
    }
    let host = f.els[base].parent.unwrap();
    for id in [host, 0] {
        let n = node(cx, id);
        let (text, s) = (A::text(&n), f.text_of(id));
        cx.case(|| format!("{} {gm:?} {mode:?} {e:?} text of element {id}", A::NAME));
        let w = || format!("{} {gm:?} {mode:?} text of element {id}", A::NAME);
        is(cx, &text, s, &cuts(id), s.len() < 300, &w);
        let (from, to) = ((f.els[base].start - f.els[id].start) as usize, (f.els[base].end - f.els[id].start) as usize);
        let mut at: Vec<usize> = (from.saturating_sub(3)..=(to + 3).min(s.len())).chain([0, 1, s.len() / 2, s.len()]).filter(|&o| s.is_char_boundary(o)).collect();
        at.sort();
        at.dedup();
        for c in ['z', '\u{a9}'] {
            check_eq!(cx, text.find_char(c).map(|o| u32::from(o) as usize), s.find(c), "{}: find_char({c:?})", w());
        }
        for &a in &at {
            cx.step();
            check_eq!(cx, text.char_at(TextSize::from(a as u32)), s[a..].chars().next(), "{}: char_at({a})", w());
            for &b in &at {
                if a > b {
                    continue;
                }
                cx.step();
                let t = text.slice(range(a as u32, b as u32));
                let x = &s[a..b];
                check_eq!(cx, u32::from(t.len()) as usize, x.len(), "{}: length of the slice {a}..{b}", w());
                check!(cx, t == *x, "{}: slice {a}..{b} is not the string it denotes", w());
                if b - a > 64 {
                    continue;
                }
                let u = text.slice(TextSize::from(a as u32)..).slice(..TextSize::from((b - a) as u32));
                let v = text.slice(..TextSize::from(b as u32)).slice(TextSize::from(a as u32)..);
                let all: Vec<usize> = cuts(id);
                let ww = || format!("{} slice {a}..{b}", w());
                is(cx, &t, x, &cut(&all, a, b), b - a <= 8, &ww);
                check!(cx, t == u && u == t && t == v && v == u, "{}: slices {a}..{b} obtained differently are not equal", w());
                check_eq!(cx, v.to_string(), x, "{}: slice {a}..{b} of the first {b} bytes", w());
            }
        }
    }
}

/// Texts of flat and nested trees, differently cut, from different positions of their trees.
fn texts_of(words: &[&str]) -> Vec<(SyntaxText, String, String)> {
    let mut out: Vec<(SyntaxText, String, String)> = Vec::new();
    let toks: Vec<El> = words.iter().map(|w| t(1, w)).collect();
    let n = words.len();
    let whole: String = words.concat();
    // all tokens under one node
    let flat = N(1, toks.clone());
    // every token but the first in a nested node; empty nodes between
    let mut nested = N(2, vec![]);
    for k in toks.iter().rev() {
        nested = N(2, vec![k.clone(), N(3, vec![]), nested]);
    }
    // inside of something else
    let inner = N(5, vec![t(4, "aé"), N(1, toks.clone()), t(4, "b")]);
    let mk = |e: &El| Cur::new_root(e.green());
    out.push((mk(&flat).text(), whole.clone(), format!("{flat:?}")));
    out.push((mk(&nested).text(), whole.clone(), format!("{nested:?}")));
    out.push((mk(&inner).first_child().unwrap().text(), whole.clone(), format!("node 1 of {inner:?}")));
    if n > 0 {
        // a slice of a longer text
        let big = mk(&inner).text();
        let a = "aé".len() as u32;
        let sl = big.slice(TextSize::from(a)..TextSize::from(a + whole.len() as u32));
        out.push((sl, whole.clone(), format!("slice of {inner:?}")));
    }
    out
}

fn node_of(root: &rowan::cursor::SyntaxNode, f: &Flat, id: usize) -> rowan::cursor::SyntaxNode {
    reach::<Cur>(root, f, id, 1).unwrap().into_node().unwrap()
}

/// Texts about as long as an offset can count.
fn huge_ok<A: Api>(cx: &mut Cx, name: &str, d: &Rc<D>, mode: Mode) {
    let root = match mode {
        Mode::Imm => A::new_root(d.green()),
        _ => A::new_root_mut(d.green()),
    };
    let mut starts: Vec<Vec<usize>> = vec![vec![]];
    for p in d.paths().iter().take(3) {
        starts.push(p[..1.min(p.len() - 1)].to_vec());
        starts.push(p[..p.len() / 2].to_vec());
    }
    starts.sort();
    starts.dedup();
    let offs = d.offsets();
    for start in &starts {
        let (base, x) = d.along(start).pop().unwrap();
        let h = huge::reach::<A>(&root, d, start, 0).pop().unwrap();
        let text = A::text(h.as_node().unwrap());
        cx.case(|| format!("{} {mode:?} {name}, {} bytes: text of {start:?}", A::NAME, d.len));
        cx.step();
        check_eq!(cx, u32::from(text.len()) as u64, x.len, "len");
        let mut list: Vec<u64> = offs.iter().filter(|&&o| o >= base && o <= base + x.len).map(|o| o - base).collect();
        let n = list.len();
        let mut j = 0;
        list.retain(|_| {
            j += 1;
            j < 5 || j + 5 > n || j % (1 + n / cx.tier.pick(24, 60)) == 0
        });
        for &o in &list {
            cx.case(|| format!("{} {mode:?} {name}, {} bytes: text of {start:?} at {o}", A::NAME, d.len));
            cx.steps(2);
            let want = (o < x.len).then(|| x.byte(o) as char);
            check_eq!(cx, text.char_at((o as u32).into()), want, "char_at");
            // slices around it
            for (a, b) in [(o.saturating_sub(3), o), (o, (o + 3).min(x.len)), (o.saturating_sub(2), (o + 2).min(x.len))] {
                let s = x.slice(a, b);
                let t = text.slice(range(a as u32, b as u32));
                check_eq!(cx, u32::from(t.len()) as u64, b - a, "len of the slice {a}..{b}");
                check_eq!(cx, t.to_string(), s, "slice {a}..{b}");
                check!(cx, t == *s, "slice {a}..{b}: ==");
                cx.nontrivial += 1;
            }
            // slices from it to the end and from the start to it, sliced again
            let t = text.slice(TextSize::from(o as u32)..);
            check_eq!(cx, u32::from(t.len()) as u64, x.len - o, "len of the slice {o}..");
            let k = (x.len - o).min(4);
            let end = x.len - o;
            let u = t.slice(TextSize::from((end - k) as u32)..);
            check_eq!(cx, u.to_string(), x.slice(x.len - k, x.len), "the last bytes of the slice {o}..");
            let u = t.slice(..TextSize::from(k as u32));
            check_eq!(cx, u.to_string(), x.slice(o, o + k), "the first bytes of the slice {o}..");
            let t = text.slice(..TextSize::from(o as u32));
            check_eq!(cx, u32::from(t.len()) as u64, o, "len of the slice ..{o}");
            check!(cx, guard(|| text.slice(..TextSize::from(o as u32)).slice(TextSize::from(o as u32)..).is_empty()) == Some(true), "an empty slice at the end");
            if o < huge::MAX {
                check!(cx, guard(|| t.slice(..TextSize::from(o as u32 + 1))).is_none(), "a slice beyond the end of the slice ..{o} is accepted");
            }
        }
        if x.len < huge::MAX {
            for b in [x.len + 1, huge::MAX] {
                check!(cx, guard(|| text.slice(range(0, b as u32))).is_none(), "a slice 0..{b} beyond the end is accepted");
                check!(cx, guard(|| text.slice(range(b as u32, b as u32))).is_none(), "a slice {b}..{b} beyond the end is accepted");
                check_eq!(cx, text.char_at((b as u32).into()), None, "char_at({b}) beyond the end");
            }
        }
    }
    // chunks: all of them add up
    let mut n = 0u64;
    A::text(&root).for_each_chunk(|c| n += c.len() as u64);
    check_eq!(cx, n, d.len, "the chunks add up");
    check_eq!(cx, A::text(&root).find_char('z'), None, "find_char");
}

fn main() {
    mc::engine::main("C17", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        let toks: &[(u16, &str)] = &[(1, "ab"), (2, ""), (3, "é")];
        for (name, s, modes, depth, all) in [
            ("small", TreeSpace::new(1, 4, &[1], toks), &MODES[..], 2usize, true),
            ("mid", TreeSpace::new(5, 5, &[1], toks), &MODES[..2], 2, true),
            ("big", TreeSpace::new(6, tier.pick(6, 7), &[1], &[(1, "aé"), (2, "")]), &MODES[..2], 1, true),
        ] {
            v.push(family(name, format!("text of every node: every operation, every slice range up to 2 beyond the end and at the limit of the type in all range forms, nested {depth} deep; {}", s.describe()), s.count(), move |cx, i| {
                let e = s.get(i);
                cx.state(&e);
                let f = Flat::new(&e);
                for &mode in modes {
                    tree::<Cur>(cx, &e, &f, Gm::Direct, mode, depth, all);
                    if depth == 1 || mode == Mode::Imm {
                        tree::<Typ>(cx, &e, &f, Gm::Built, mode, 1, all);
                    }
                }
            }));
        }
        {
            let s = TreeSpace::new(1, tier.pick(3, 4), &[1], &[(1, "ab"), (3, "é")]);
            v.push(family("nested", format!("slices nested 3 deep; {}", s.describe()), s.count(), move |cx, i| {
                let e = s.get(i);
                cx.state(&e);
                tree::<Cur>(cx, &e, &Flat::new(&e), Gm::Built, Mode::Imm, 3, false);
            }));
        }
        {
            // texts of nodes in far places, and of what is around them
            let big = tier == Tier::Thorough;
            let s = TreeSpace::new(1, tier.pick(3, 4), &[1], &[(1, "ab"), (2, ""), (3, "é")]);
            let places: Vec<Far> = FAR.iter().chain(if big { FARTHER.iter() } else { [].iter() }).copied().collect();
            let np = places.len() as u64;
            v.push(family("far", format!("texts of the nodes of small trees in far places {places:?}: every operation and every slice; the text of the whole tree: its length, characters and slices in and around the small tree, and slices of slices of it; {}", s.describe()), s.count() * np, move |cx, i| {
                let small = s.get(i / np);
                let (e, base) = places[(i % np) as usize].put(&small);
                cx.state(&e);
                let f = Flat::new(&e);
                let gm = GMS[(i % 2) as usize];
                for mode in [Mode::Imm, Mode::Mut] {
                    if i % 3 == 1 {
                        far_text::<Typ>(cx, &e, &f, base, small.size(), gm, mode);
                    } else {
                        far_text::<Cur>(cx, &e, &f, base, small.size(), gm, mode);
                    }
                }
            }));
        }
        {
            // all sequences of up to 3 (4) tokens out of these, in every pair
            let words: &[&str] = if tier == Tier::Quick { &["", "a", "b", "ab", "éa"] } else { &["", "a", "b", "ab", "ba", "é", "éa"] };
            let max = 4;
            let mut seqs: Vec<Vec<&str>> = vec![vec![]];
            let mut last: Vec<Vec<&str>> = vec![vec![]];
            for _ in 0..max {
                last = last.iter().flat_map(|s| words.iter().map(move |w| { let mut s = s.clone(); s.push(*w); s })).collect();
                seqs.extend(last.iter().cloned());
            }
            let n = seqs.len() as u64;
            v.push(family("equality", format!("equality of the texts of every pair of sequences of up to {max} tokens out of {words:?}, as a flat node, a nested one, an inner one and a slice of a longer text: {n} x {n} sequences"), n, move |cx, i| {
                let left = texts_of(&seqs[i as usize]);
                cx.state(&seqs[i as usize]);
                for (j, s2) in seqs.iter().enumerate() {
                    // against the forms that differ
                    let right = if j % 4 == 0 || seqs[i as usize].concat() == s2.concat() { texts_of(s2) } else {
                        let e = N(1, s2.iter().map(|w| t(1, w)).collect());
                        vec![(Cur::new_root(e.green()).text(), s2.concat(), format!("{e:?}"))]
                    };
                    for (a, x, p) in &left {
                        for (b, y, q) in &right {
                            cx.case(|| format!("text of {p} == text of {q}"));
                            cx.step();
                            check_eq!(cx, a == b, x == y, "text of {p} == text of {q}");
                            check_eq!(cx, b == a, x == y, "text of {q} == text of {p}");
                            check_eq!(cx, a != b, x != y, "text of {p} != text of {q}");
                            if x == y {
                                cx.nontrivial += 1;
                            }
                        }
                    }
                }
            }));
        }
        {
            // every pair of slices of two texts
            let s = TreeSpace::new(3, tier.pick(4, 5), &[1], &[(1, "ab"), (2, "a"), (3, "")]);
            let n = s.count();
            v.push(family("slice-equality", format!("equality of every slice of a text with every slice of the same and of every other; {}", s.describe()), n, move |cx, i| {
                let all = |e: &El| -> Vec<(SyntaxText, String)> {
                    let t = Cur::new_root(e.green()).text();
                    let s = e.text();
                    let mut v = Vec::new();
                    for a in 0..=s.len() {
                        for b in a..=s.len() {
                            v.push((t.slice(TextSize::from(a as u32)..TextSize::from(b as u32)), s[a..b].to_string()));
                        }
                    }
                    v
                };
                let e = s.get(i);
                cx.state(&e);
                let left = all(&e);
                for j in i..n {
                    let e2 = s.get(j);
                    cx.case(|| format!("slices of {e:?} and of {e2:?}"));
                    for (a, x) in &left {
                        for (b, y) in &all(&e2) {
                            cx.step();
                            check_eq!(cx, a == b, x == y, "slice {x:?} of {e:?} == slice {y:?} of {e2:?}");
                            check_eq!(cx, b == a, x == y, "slice {y:?} of {e2:?} == slice {x:?} of {e:?}");
                        }
                    }
                }
            }));
        }
        {
            // texts that share nodes or storage
            let s = TreeSpace::new(2, tier.pick(4, 5), &[1], &[(1, "ab"), (2, "a"), (3, "é"), (4, "")]);
            v.push(family("shared-equality", format!("equality of every two slices of the texts of any two nodes of one tree, of a second tree of the same green nodes and of a mutable one; {}", s.describe()), s.count(), move |cx, i| {
                let e = s.get(i);
                cx.state(&e);
                let f = Flat::new(&e);
                let g = e.green_built();
                let roots = [Cur::new_root(g.clone()), Cur::new_root(g.clone()), Cur::new_root_mut(g)];
                let mut all: Vec<(SyntaxText, &str)> = Vec::new();
                for (k, root) in roots.iter().enumerate() {
                    for id in f.nodes() {
                        let t = node_of(root, &f, id).text();
                        let s = f.text_of(id);
                        for a in 0..=s.len() {
                            for b in a..=s.len() {
                                if s.is_char_boundary(a) && s.is_char_boundary(b) && (k == 0 || b - a <= 2 || a == 0) {
                                    all.push((t.slice(TextSize::from(a as u32)..TextSize::from(b as u32)), &s[a..b]));
                                }
                            }
                        }
                    }
                }
                cx.case(|| format!("{e:?}: slices of texts of nodes of one tree, another with the same green nodes and a mutable one"));
                for (a, x) in &all {
                    for (b, y) in &all {
                        cx.step();
                        if (a == b) != (x == y) {
                            cx.fail(format!("slice {x:?} == slice {y:?}: got {}", a == b));
                        }
                    }
                }
                cx.nontrivial += 1;
            }));
        }
        let w: Vec<usize> = (5..=70).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1025]).chain(tier.pick(vec![], vec![65535, 65536, 65537])).collect();
        let d: Vec<usize> = (4..=70).chain([127, 128, 129, 255, 256, 257]).collect();
        let scale = scale_trees(&w, &d);
        v.push(family("scale", format!("large trees: slices around every token of up to 130, in steps beyond; equality with a differently cut text; widths {w:?}, depths {d:?}"), scale.len() as u64, move |cx, i| {
            let e = &scale[i as usize];
            cx.state(e);
            let f = Flat::new(e);
            let s = &f.text;
            let text = Cur::new_root(e.green_built()).text();
            cx.case(|| format!("text of {e:?}"));
            let ends: Vec<usize> = f.tokens().map(|i| f.els[i].end as usize).collect();
            is(cx, &text, s, &ends, false, &|| "whole".to_string());
            let step = 1 + ends.len() / 130;
            for (k, &c) in ends.iter().enumerate() {
                if k % step != 0 && k + 2 < ends.len() {
                    continue;
                }
                let lo = ends[k.saturating_sub(2)].min(c);
                let hi = ends[(k + 2).min(ends.len() - 1)];
                for (a, b) in [(lo, c), (lo, hi), (c, hi), (c, c), (0, c), (c, s.len())] {
                    let x = text.slice(TextSize::from(a as u32)..TextSize::from(b as u32));
                    if b - a < 40 {
                        is(cx, &x, &s[a..b], &cut(&ends, a, b), true, &|| format!("slice {a}..{b}"));
                    } else {
                        cx.step();
                        check!(cx, x == s[a..b], "slice {a}..{b} == str");
                        check!(cx, x != s[a..] || b == s.len(), "slice {a}..{b} != str");
                        for ch in CHARS {
                            check_eq!(cx, x.find_char(ch).map(|o| u32::from(o) as usize), s[a..b].find(ch), "find_char({ch:?}) in slice {a}..{b}");
                        }
                    }
                }
                check_eq!(cx, text.char_at(TextSize::from(c as u32)), s[c..].chars().next(), "char_at({c})");
            }
            // one character per token
            let other = N(1, s.chars().map(|c| t(1, c.encode_utf8(&mut [0; 4]))).collect());
            let o = Cur::new_root(other.green()).text();
            cx.steps(3);
            check!(cx, text == o && o == text, "differently cut texts are equal");
            if s.len() > 1 {
                let end = TextSize::from(s.char_indices().last().unwrap().0 as u32);
                let short = o.slice(..end);
                check!(cx, text != short && short != text, "a longer text is different");
                check!(cx, text.slice(..end) == short, "equal slices of differently cut texts");
            }
        }));
        let tot = huge::totals();
        v.push(family("huge", format!("trees of 1 MiB tokens, and of 16 MiB tokens 256 deep, with {tot:?} bytes of text: characters and slices at the ends of elements along the edges, of the whole text and of nodes along the edges"), tot.len() as u64 * 3 * 4, move |cx, i| {
            let i = i as usize;
            let (name, d) = huge::shapes(tot[i / 12]).swap_remove(2 + i % 3);
            let mode = MODES[i / 3 % 2];
            cx.state(&(name, d.len, mode.mutable()));
            if i / 6 % 2 == 0 { huge_ok::<Cur>(cx, name, &d, mode) } else { huge_ok::<Typ>(cx, name, &d, mode) }
        }));
        v
    })
}
