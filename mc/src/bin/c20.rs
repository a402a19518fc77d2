//! C20: displayed, debugged and serialized forms reflect the tree.
use mc::api::*;
use mc::engine::{Cx, Family, Tier, family, guard, small};
use mc::model::*;
use mc::tree::*;
use mc::world::*;
use mc::{check, check_eq};
use rowan::{NodeOrToken, SyntaxKind};
use serde::ser::{self, Serialize};
use std::fmt::Write as _;

// ---- what the forms must be

fn quoted(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

/// The serialized form of element `id`.
fn json(f: &Flat, id: usize, shift: u32, out: &mut String) {
    let m = &f.els[id];
    write!(out, "{{\"kind\":{},\"text_range\":[{},{}],", quoted(&format!("{:?}", Kind::of(m.kind))), m.start + shift, m.end + shift).unwrap();
    if m.node {
        out.push_str("\"children\":[");
        for (i, &c) in m.children.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            json(f, c, shift, out);
        }
        out.push_str("]}");
    } else {
        write!(out, "\"text\":{}}}", quoted(&f.text[m.start as usize..m.end as usize])).unwrap();
    }
}

fn debug_token(kind: u16, a: u32, text: &str) -> String {
    let b = a + text.len() as u32;
    let shown = if text.len() < 25 {
        text.to_string()
    } else {
        // the shortest prefix of whole characters that has at least 21 bytes
        let mut n = 0;
        for c in text.chars() {
            if n >= 21 {
                break;
            }
            n += c.len_utf8();
        }
        format!("{} ...", &text[..n])
    };
    format!("{:?}@{a}..{b} {shown:?}", Kind::of(kind))
}

fn debug(f: &Flat, id: usize, shift: u32) -> String {
    let m = &f.els[id];
    let (a, b) = (m.start + shift, m.end + shift);
    if m.node {
        format!("{:?}@{a}..{b}", Kind::of(m.kind))
    } else {
        debug_token(m.kind, a, &f.text[m.start as usize..m.end as usize])
    }
}

fn dump(f: &Flat, id: usize, shift: u32, level: usize, out: &mut String) {
    for _ in 0..level {
        out.push_str("  ");
    }
    out.push_str(&debug(f, id, shift));
    out.push('\n');
    for &c in &f.els[id].children {
        dump(f, c, shift, level + 1, out);
    }
}

// ---- a serializer that holds announced lengths against what comes

#[derive(Debug)]
struct Bad(String);
impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: std::fmt::Display>(msg: T) -> Self {
        Bad(msg.to_string())
    }
}

struct Strict {
    out: String,
    human: bool,
    /// Fails at this event.
    fail_at: usize,
    events: usize,
}

impl Strict {
    fn event(&mut self, s: &str) -> Result<(), Bad> {
        self.events += 1;
        if self.events > self.fail_at {
            return Err(Bad("full".into()));
        }
        self.out.push_str(s);
        Ok(())
    }
}

struct Compound<'a> {
    s: &'a mut Strict,
    len: Option<usize>,
    n: usize,
    close: char,
}

impl Compound<'_> {
    fn next(&mut self) -> Result<(), Bad> {
        self.n += 1;
        if self.n > 1 { self.s.event(",") } else { Ok(()) }
    }
    fn done(self) -> Result<(), Bad> {
        if self.len.is_some_and(|l| l != self.n) {
            return Err(Bad(format!("{} entries after announcing {:?}", self.n, self.len)));
        }
        self.s.event(&self.close.to_string())
    }
}

macro_rules! unexpected {
    ($($f:ident($($t:ty),*);)*) => { $(fn $f(self, $(_: $t),*) -> Result<(), Bad> { Err(Bad(format!("unexpected {}", stringify!($f)))) })* };
}

impl<'a> ser::Serializer for &'a mut Strict {
    type Ok = ();
    type Error = Bad;
    type SerializeSeq = Compound<'a>;
    type SerializeTuple = Compound<'a>;
    type SerializeTupleStruct = Compound<'a>;
    type SerializeTupleVariant = ser::Impossible<(), Bad>;
    type SerializeMap = Compound<'a>;
    type SerializeStruct = Compound<'a>;
    type SerializeStructVariant = ser::Impossible<(), Bad>;
    unexpected! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_f32(f32); serialize_f64(f64); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_u32(self, v: u32) -> Result<(), Bad> {
        self.event(&v.to_string())
    }
    fn serialize_u64(self, v: u64) -> Result<(), Bad> {
        self.event(&v.to_string())
    }
    fn serialize_char(self, v: char) -> Result<(), Bad> {
        self.event(&quoted(&v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<(), Bad> {
        self.event(&quoted(v))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Bad> {
        v.serialize(self)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Bad> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Bad> {
        Err(Bad("unexpected variant".into()))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Compound<'a>, Bad> {
        self.event("[")?;
        Ok(Compound { s: self, len, n: 0, close: ']' })
    }
    fn serialize_tuple(self, len: usize) -> Result<Compound<'a>, Bad> {
        self.serialize_seq(Some(len))
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<Compound<'a>, Bad> {
        self.serialize_seq(Some(len))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Bad> {
        Err(Bad("unexpected variant".into()))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Compound<'a>, Bad> {
        self.event("{")?;
        Ok(Compound { s: self, len, n: 0, close: '}' })
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<Compound<'a>, Bad> {
        self.serialize_map(Some(len))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Bad> {
        Err(Bad("unexpected variant".into()))
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}
macro_rules! elements {
    ($($tr:ident $f:ident),*) => { $(impl ser::$tr for Compound<'_> {
        type Ok = ();
        type Error = Bad;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
            self.next()?;
            v.serialize(&mut *self.s)
        }
        fn end(self) -> Result<(), Bad> {
            self.done()
        }
    })* };
}
elements!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field);
impl ser::SerializeMap for Compound<'_> {
    type Ok = ();
    type Error = Bad;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Bad> {
        self.next()?;
        k.serialize(&mut *self.s)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        self.s.event(":")?;
        v.serialize(&mut *self.s)
    }
    fn end(self) -> Result<(), Bad> {
        self.done()
    }
}
impl ser::SerializeStruct for Compound<'_> {
    type Ok = ();
    type Error = Bad;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Bad> {
        self.next()?;
        k.serialize(&mut *self.s)?;
        self.s.event(":")?;
        v.serialize(&mut *self.s)
    }
    fn end(self) -> Result<(), Bad> {
        self.done()
    }
}

fn strict(v: &dyn Ser, human: bool, fail_at: usize) -> (Result<(), Bad>, String, usize) {
    let mut s = Strict { out: String::new(), human, fail_at, events: 0 };
    let r = v.strict(&mut s);
    (r, s.out, s.events)
}

/// What of a serializable value is used here, object-safe.
trait Ser {
    fn strict(&self, s: &mut Strict) -> Result<(), Bad>;
    fn json(&self) -> Result<String, String>;
    fn write(&self, w: &mut Limited) -> Result<(), String>;
}
impl<T: Serialize> Ser for T {
    fn strict(&self, s: &mut Strict) -> Result<(), Bad> {
        self.serialize(s)
    }
    fn json(&self) -> Result<String, String> {
        serde_json::to_string(self).map_err(|e| e.to_string())
    }
    fn write(&self, w: &mut Limited) -> Result<(), String> {
        serde_json::to_writer(w, self).map_err(|e| e.to_string())
    }
}

/// An output that takes so many bytes and fails then.
struct Limited {
    left: usize,
    got: Vec<u8>,
}
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.got.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
impl std::io::Write for Limited {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.left);
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::other("full"));
        }
        self.left -= n;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn limit(n: usize) -> Limited {
    Limited { left: n, got: Vec::new() }
}

// ---- comparison

type Show<'a> = (&'static str, Box<dyn Fn(&mut Limited) -> std::fmt::Result + 'a>, String);

struct Want {
    text: String,
    debug: String,
    dump: String,
    json: String,
    untyped: String,
}

fn want(f: &Flat, id: usize, shift: u32) -> Want {
    let m = &f.els[id];
    let mut w = Want {
        text: f.text[m.start as usize..m.end as usize].to_string(),
        debug: debug(f, id, shift),
        dump: String::new(),
        json: String::new(),
        untyped: format!("SyntaxNode {{ kind: {:?}, text_range: {:?} }}", SyntaxKind(m.kind), range(m.start + shift, m.end + shift)),
    };
    dump(f, id, shift, 0, &mut w.dump);
    json(f, id, shift, &mut w.json);
    w
}

/// All forms of one element, in full and to outputs that fail after every number of bytes.
fn forms(cx: &mut Cx, h: &TElem, w: &Want, is_dump: bool, faults: bool, what: &dyn Fn() -> String) {
    let raw = Typ::to_raw(h.clone());
    let mut shows: Vec<Show> = vec![
        ("display of the element", Box::new(|o| write!(o, "{h}")), w.text.clone()),
        ("display of the untyped element", Box::new(|o| write!(o, "{raw}")), w.text.clone()),
    ];
    let ser: &dyn Ser = match h {
        NodeOrToken::Node(n) => {
            shows.push(("display", Box::new(move |o| write!(o, "{n}")), w.text.clone()));
            shows.push(("debug", Box::new(move |o| write!(o, "{n:?}")), w.debug.clone()));
            if is_dump {
                shows.push(("indented debug", Box::new(move |o| write!(o, "{n:#?}")), w.dump.clone()));
            }
            shows.push(("text", Box::new(move |o| write!(o, "{}", n.text())), w.text.clone()));
            n
        }
        NodeOrToken::Token(t) => {
            shows.push(("display", Box::new(move |o| write!(o, "{t}")), w.text.clone()));
            shows.push(("debug", Box::new(move |o| write!(o, "{t:?}")), w.debug.clone()));
            shows.push(("indented debug", Box::new(move |o| write!(o, "{t:#?}")), w.debug.clone()));
            t
        }
    };
    match &raw {
        NodeOrToken::Node(n) => {
            shows.push(("untyped display", Box::new(move |o| write!(o, "{n}")), w.text.clone()));
            shows.push(("untyped debug", Box::new(move |o| write!(o, "{n:?}")), w.untyped.clone()));
        }
        NodeOrToken::Token(t) => {
            shows.push(("untyped display", Box::new(move |o| write!(o, "{t}")), w.text.clone()));
        }
    }
    for (name, show, want) in &shows {
        cx.step();
        let mut o = limit(usize::MAX);
        match guard(|| show(&mut o)) {
            None => cx.fail(format!("{}: {name} panics", what())),
            Some(r) => check!(cx, r.is_ok(), "{}: {name} fails", what()),
        }
        let got = String::from_utf8_lossy(&o.got);
        check!(cx, got == *want, "{}: {name} is {got:?}, expected {want:?}", what());
        if faults {
            for n in 0..want.len() {
                cx.step();
                let mut o = limit(n);
                match guard(|| show(&mut o)) {
                    None => cx.fail(format!("{}: {name} to an output of {n} bytes panics", what())),
                    Some(r) => check!(cx, r.is_err(), "{}: {name} to an output of {n} bytes reports success", what()),
                }
                check!(cx, want.as_bytes().starts_with(&o.got), "{}: {name} to an output of {n} bytes wrote {:?}", what(), String::from_utf8_lossy(&o.got));
            }
        }
    }
    if !is_dump {
        return;
    }
    // serialized
    cx.steps(3);
    match guard(|| ser.json()) {
        Some(Ok(s)) => check!(cx, s == w.json, "{}: serialized as {s}, expected {}", what(), w.json),
        x => cx.fail(format!("{}: serializing gives {x:?}", what())),
    }
    let mut events = 0;
    for human in [true, false] {
        let (r, s, n) = strict(ser, human, usize::MAX);
        events = n;
        check!(cx, r.is_ok() && s == w.json, "{}: serialized with result {r:?} as {s}, expected {}", what(), w.json);
    }
    if faults {
        for k in 0..events {
            cx.step();
            let Some((r, s, _)) = guard(|| strict(ser, true, k)) else {
                cx.fail(format!("{}: panic when the serializer fails at step {k}", what()))
            };
            check!(cx, r.is_err(), "{}: success reported though the serializer failed at step {k}", what());
            check!(cx, w.json.starts_with(&s), "{}: wrote {s} before the failure at step {k}", what());
        }
        for n in 0..w.json.len() {
            cx.step();
            let mut o = limit(n);
            match guard(|| ser.write(&mut o)) {
                None => cx.fail(format!("{}: serializing to an output of {n} bytes panics", what())),
                Some(r) => check!(cx, r.is_err(), "{}: serializing to an output of {n} bytes reports success", what()),
            }
            check!(cx, w.json.as_bytes().starts_with(&o.got), "{}: serialized to {n} bytes as {:?}", what(), String::from_utf8_lossy(&o.got));
        }
    }
}

fn greens(cx: &mut Cx, g: &rowan::GreenNodeData, e: &El) {
    cx.steps(4);
    let text = e.text();
    let owned = g.to_owned();
    check!(cx, g.to_string() == text && owned.to_string() == text, "display of the green node of {e:?}: {g}");
    let want = format!("GreenNode {{ kind: {:?}, text_len: {:?}, n_children: {} }}", SyntaxKind(e.kind()), rowan::TextSize::of(text.as_str()), e.children().len());
    check!(cx, format!("{g:?}") == want && format!("{owned:?}") == want, "debug of the green node of {e:?}: {g:?}, expected {want}");
    for (c, m) in g.children().zip(e.children()) {
        check!(cx, c.to_string() == m.text(), "display of green child {c:?}");
        match c {
            NodeOrToken::Node(n) => greens(cx, n, m),
            NodeOrToken::Token(t) => {
                let text = m.text();
                let owned = t.to_owned();
                check!(cx, t.to_string() == text && owned.to_string() == text, "display of green token {m:?}: {t}");
                let want = format!("GreenToken {{ kind: {:?}, text: {text:?} }}", SyntaxKind(m.kind()));
                check!(cx, format!("{t:?}") == want && format!("{owned:?}") == want, "debug of green token {m:?}: {t:?}");
            }
        }
    }
}

fn tree(cx: &mut Cx, e: &El, gm: Gm, mode: Mode, faults: bool) {
    let f = Flat::new(e);
    for id in 0..f.len() {
        let w = want(&f, id, 0);
        cx.outcome(&w.json);
        // alone and with handles to everything alive
        for all in [false, true] {
            let root = make::<Typ>(e, gm, mode);
            let hs = if all { handles::<Typ>(&root) } else { vec![] };
            let Some(h) = reach::<Typ>(&root, &f, id, id % HOWS) else { cx.fail("not reached") };
            cx.case(|| format!("forms of element {id} of {gm:?} {mode:?} {e:?}"));
            forms(cx, &h, &w, true, faults && !all, &|| format!("element {id} of {gm:?} {mode:?} {e:?}"));
            if id == 0 {
                greens(cx, &root.green(), e);
            }
            drop(hs);
        }
    }
}

fn edited(cx: &mut Cx, e: &El) {
    let mut m0 = Model::default();
    m0.add(e);
    let n = m0.els.len();
    for order in [vec![0], (0..n).collect::<Vec<_>>(), (0..n).rev().collect()] {
        let mut m = m0.clone();
        order.iter().for_each(|&i| m.els[i].live = true);
        let ops = edits(&m, Edits { wide_ranges: false, pairs: false, fresh: 3, keep: true, handles: false, detach: true });
        for op in &ops {
            if let Op::Splice(n, _, b, _) = op {
                if *b > m.els[*n].children.len() {
                    continue;
                }
            }
            if !m.clone().apply(op) {
                continue;
            }
            let ops = [op.clone()];
            let trees = [e.clone()];
            let orders = [order.clone()];
            let h = History { trees: &trees, gm: Gm::Built, mode: Mode::Mut, order: &orders, how: 0, ops: &ops };
            cx.case(|| h.describe("forms after"));
            let (r, m) = h.run::<Typ>();
            for root in m.roots() {
                if m.live_near(root).is_none() {
                    continue;
                }
                let el = m.el(root);
                let f = Flat::new(&el);
                for (pos, id) in m.preorder(root).into_iter().enumerate() {
                    if let Some(x) = &r.h[id] {
                        let what = || format!("element {id} after {op:?} of {e:?}, handles {order:?}");
                        forms(cx, x, &want(&f, pos, 0), true, false, &what);
                    }
                }
            }
        }
    }
}

/// Every placement of 1- to 4-byte characters around the cut of a token's debug form.
fn texts(from: usize, to: usize) -> Vec<String> {
    let chars = ["a", "é", "日", "🦀"];
    let mut out = Vec::new();
    let mut stack: Vec<String> = vec!["x".repeat(from)];
    while let Some(s) = stack.pop() {
        for c in chars {
            let s = format!("{s}{c}");
            if s.len() <= to {
                if s.len() > from {
                    out.push(s.clone());
                }
                stack.push(s);
            }
        }
    }
    out
}

fn token_forms(cx: &mut Cx, text: &str, before: &str, mutable: bool) {
    let e = N(1, vec![t(2, before), t(3, text)]);
    let f = Flat::new(&e);
    let root = make::<Typ>(&e, Gm::Direct, if mutable { Mode::Mut } else { Mode::Imm });
    let h = root.last_child_or_token().expect("token");
    cx.case(|| format!("forms of the token {text:?} after {before:?}, mutable {mutable}"));
    cx.state(&text);
    if text.len() >= 25 && !(text.is_char_boundary(21) && text.is_char_boundary(24)) {
        cx.nontrivial += 1;
    }
    let w = want(&f, 2, 0);
    forms(cx, &h, &w, true, false, &|| format!("token {text:?} after {before:?}"));
    let all = want(&f, 0, 0);
    check!(cx, format!("{root:#?}") == all.dump, "dump of the node with the token {text:?}");
    if let NodeOrToken::Token(x) = &h {
        let g = format!("{:?}", x.green());
        check!(cx, g == format!("GreenToken {{ kind: SyntaxKind(3), text: {text:?} }}"), "green token {text:?}: {g}");
    }
}

fn huge_dump(d: &mc::huge::D, at: u64, level: usize, big: &str, out: &mut String) {
    let (a, b) = (at, at + d.len);
    for _ in 0..level {
        out.push_str("  ");
    }
    if d.is_node() {
        out.push_str(&format!("{:?}@{a}..{b}\n", Kind::of(d.kind)));
    } else {
        let shown = if d.len < 25 { big[..d.len as usize].to_string() } else { format!("{} ...", &big[..21]) };
        out.push_str(&format!("{:?}@{a}..{b} {shown:?}\n", Kind::of(d.kind)));
    }
    let mut at = at;
    for c in d.kids() {
        huge_dump(c, at, level + 1, big, out);
        at += c.len;
    }
}

fn main() {
    mc::engine::main("C20", |tier: Tier| -> Vec<Family> {
        let mut v = Vec::new();
        let toks: &[(u16, &str)] = &[(3, "é\""), (4, "")];
        let s = TreeSpace::new(1, tier.pick(4, 5), &[1, 2], toks);
        v.push(family("faults", format!("every form of every element, in full and to outputs failing after every number of bytes and serializers failing at every step, every kind of tree; {}", s.describe()), s.count(), move |cx, i| {
            let e = s.get(i);
            cx.state(&e);
            for gm in GMS {
                for mode in MODES {
                    tree(cx, &e, gm, mode, gm == Gm::Built);
                }
            }
        }));
        let (hi, kinds): (usize, &[u16]) = if small() { (5, &[1]) } else { (tier.pick(6, 7), &[1, 2]) };
        let s = TreeSpace::new(5, hi, kinds, toks);
        v.push(family("trees", format!("every form of every element of immutable and mutable trees; {}", s.describe()), s.count(), move |cx, i| {
            let e = s.get(i);
            cx.state(&e);
            for mode in [Mode::Imm, Mode::Mut] {
                tree(cx, &e, Gm::Built, mode, false);
            }
        }));
        let s = TreeSpace::new(1, tier.pick(4, 5), &[1], &[(3, "é"), (4, "")]);
        v.push(family("edited", format!("every form of every live handle after every edit of a mutable tree, with three sets of live handles; {}", s.describe()), s.count(), move |cx, i| {
            let e = s.get(i);
            cx.state(&e);
            edited(cx, &e);
        }));
        let mut all = texts(13, tier.pick(27, 29));
        for n in 0..=70 {
            for c in ["a", "é", "日", "🦀"] {
                all.push(c.repeat(n));
                all.push(format!("b{}", c.repeat(n)));
                all.push(format!("bc{}", c.repeat(n)));
                all.push(format!("bcd{}", c.repeat(n)));
            }
        }
        let per = 64;
        let all = std::sync::Arc::new(all);
        let a = all.clone();
        v.push(family("cut", format!("token texts: every sequence of 1- to 4-byte characters filling bytes 13 to {}, runs of up to 70 characters of one width after up to 3 bytes: {}", tier.pick(27, 29), all.len()), all.len().div_ceil(per) as u64, move |cx, i| {
            for s in a.iter().skip(i as usize * per).take(per) {
                for before in ["", "é"] {
                    for mutable in [false, true] {
                        token_forms(cx, s, before, mutable);
                    }
                }
            }
        }));
        // every character once, alone, at the cut and after it
        let per = 4096u32;
        let units = 0x11_0000u32.div_ceil(per);
        let step = if small() || tier == Tier::Quick { 8 } else { 1 };
        v.push(family("chars", format!("every {} character of Unicode as a token text alone, across the cut and in a serialized text", if step == 1 { "".to_string() } else { format!("character of the basic plane and every {step}th other") }), units.into(), move |cx, i| {
            let from = i as u32 * per;
            for c in (from..from + per).filter(|&c| c < 0x1_0000 || c % step == 0).filter_map(char::from_u32) {
                token_forms(cx, &c.to_string(), "", false);
                token_forms(cx, &format!("{}{c}{c}{c}{c}{c}", "x".repeat(20)), "", false);
            }
        }));
        let w: Vec<usize> = (5..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]).chain(tier.pick(vec![1024], vec![1024, 65535, 65536, 65537])).collect();
        let d: Vec<usize> = (4..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]).collect();
        let scale = scale_trees(&w, &d);
        v.push(family("scale", format!("all forms of the roots of large trees and the plain ones of every element (a selection beyond 300); widths {w:?}, depths {d:?}"), scale.len() as u64, move |cx, i| {
            let e = &scale[i as usize];
            cx.state(e);
            let f = Flat::new(e);
            for mode in [Mode::Imm, Mode::Mut] {
                let root = make::<Typ>(e, Gm::Built, mode);
                let hs = handles::<Typ>(&root);
                for id in 0..f.len() {
                    if id % (1 + f.len() / 300) != 0 && id + 3 < f.len() {
                        continue;
                    }
                    cx.case(|| format!("forms of element {id} of {mode:?} {e:?}"));
                    let w = want(&f, id, 0);
                    forms(cx, &hs[id], &w, id == 0 || f.els[id].last - id < 20, false, &|| format!("element {id} of {mode:?} {e:?}"));
                }
                greens(cx, &root.green(), e);
            }
        }));
        let fs = TreeSpace::new(1, tier.pick(3, 4), &[1], &[(3, "é\""), (4, "")]);
        let places: Vec<Far> = FAR.iter().chain(if tier == Tier::Thorough { FARTHER.iter() } else { [].iter() }).copied().collect();
        let np = places.len() as u64;
        v.push(family("far", format!("all forms of the elements of small trees in far places {places:?}, of the node around them and of the root; {}", fs.describe()), fs.count() * np, move |cx, i| {
            let small = fs.get(i / np);
            let (e, base) = places[(i % np) as usize].put(&small);
            cx.state(&e);
            let f = Flat::new(&e);
            for mode in [Mode::Imm, Mode::Mut] {
                let root = make::<Typ>(&e, GMS[(i % 2) as usize], mode);
                for id in (base..base + small.size()).chain([f.els[base].parent.unwrap(), 0]) {
                    cx.case(|| format!("forms of element {id} of {mode:?} {e:?}"));
                    let h = reach::<Typ>(&root, &f, id, id % HOWS).expect("reached");
                    forms(cx, &h, &want(&f, id, 0), true, false, &|| format!("element {id} of {mode:?} {e:?}"));
                }
                greens(cx, &root.green(), &e);
            }
        }));
        let tot = mc::huge::totals();
        v.push(family("huge", format!("trees of 1 MiB tokens, and of 16 MiB tokens 256 deep, with {tot:?} bytes of text: debug forms of the elements along the edges"), tot.len() as u64 * 3 * 2, move |cx, i| {
            let i = i as usize;
            let (name, d) = mc::huge::shapes(tot[i / 6]).swap_remove(2 + i % 3);
            let mutable = i / 3 % 2 == 1;
            cx.case(|| format!("{name}, {} bytes, {}", d.len, if mutable { "mutable" } else { "immutable" }));
            cx.state(&(name, d.len, mutable));
            let root = if mutable { TNode::new_root_mut(d.green()) } else { TNode::new_root(d.green()) };
            let big = mc::huge::token_text(32);
            for p in d.paths().iter().take(4) {
                for (k, h) in mc::huge::reach::<Typ>(&root, &d, p, 0).iter().enumerate() {
                    if k > 2 && k + 2 < p.len() && k != p.len() / 2 {
                        continue;
                    }
                    cx.steps(2);
                    let (at, x) = d.along(&p[..k]).pop().unwrap();
                    let mut want = String::new();
                    huge_dump(&x, at, 0, &big, &mut want);
                    let (one, all) = match h {
                        NodeOrToken::Node(n) => (format!("{n:?}"), format!("{n:#?}")),
                        NodeOrToken::Token(t) => (format!("{t:?}"), String::new()),
                    };
                    check_eq!(cx, one, want.lines().next().unwrap(), "debug form");
                    if h.as_node().is_some() {
                        check_eq!(cx, all, want, "indented debug form");
                    }
                    cx.nontrivial += 1;
                }
            }
        }));
        v
    })
}
