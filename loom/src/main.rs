//! C16: green trees shared between threads. Every interleaving of the atomic steps of small
//! multi-threaded programs over one shared tree, on rowan's own sources compiled over loom's
//! atomics (C11 memory model), with a race detector on the contents of every green element.

use std::alloc::Layout;
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

use lrowan::{GreenNode, GreenNodeBuilder, GreenToken, NodeOrToken, SyntaxKind, cursor};
use mc::engine::{Violation, hash_of};
use mc::model::{El, N, T, t};
use mc::{Cx, Family, Tier, alloc, family};

mod traits;

type Green = NodeOrToken<GreenNode, GreenToken>;

// ---------------------------------------------------------------------------------------------
// the contents of green elements, as loom sees them

struct Reg {
    /// Address of the green data.
    at: usize,
    /// Stands for the contents.
    cell: loom::cell::UnsafeCell<()>,
    block: Option<(*mut u8, Layout)>,
    frees: u32,
    el: String,
}

thread_local! {
    static REGS: RefCell<Vec<Reg>> = const { RefCell::new(Vec::new()) };
    static FAIL: RefCell<Option<String>> = const { RefCell::new(None) };
    static TRACE: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

fn flag(m: impl FnOnce() -> String) {
    FAIL.with(|f| {
        let mut f = f.borrow_mut();
        if f.is_none() {
            *f = Some(m())
        }
    })
}

fn on_free(p: *mut u8, l: Layout) -> bool {
    REGS.try_with(|r| {
        let Ok(mut r) = r.try_borrow_mut() else { return false };
        let (from, to) = (p as usize, p as usize + l.size());
        let Some(g) = r.iter_mut().find(|g| g.at >= from && g.at < to) else { return false };
        g.frees += 1;
        if g.frees > 1 {
            flag(|| format!("the block of {} is freed twice", g.el));
            return true;
        }
        // the contents go: this has to happen after every use
        let cell = &g.cell;
        if catch_unwind(AssertUnwindSafe(|| cell.with_mut(|_| ()))).is_err() {
            flag(|| format!("{} is freed while another thread may still be using it", g.el));
        }
        g.block = Some((p, l));
        unsafe { std::ptr::write_bytes(p, 0xD5, l.size()) };
        true
    })
    .unwrap_or(false)
}

type GRef<'a> = NodeOrToken<&'a lrowan::GreenNodeData, &'a lrowan::GreenTokenData>;

fn gref(g: &Green) -> GRef<'_> {
    match g {
        NodeOrToken::Node(n) => NodeOrToken::Node(n),
        NodeOrToken::Token(t) => NodeOrToken::Token(t),
    }
}

fn addr(g: GRef<'_>) -> usize {
    match g {
        NodeOrToken::Node(n) => n as *const _ as *const u8 as usize,
        NodeOrToken::Token(t) => t as *const _ as *const u8 as usize,
    }
}

/// Tells loom about every element of a tree that it does not know yet.
fn register(g: GRef<'_>, el: &El) {
    let at = addr(g);
    let known = REGS.with(|r| r.borrow().iter().any(|r| r.at == at));
    if !known {
        let cell = loom::cell::UnsafeCell::new(());
        let reg = Reg { at, cell, block: None, frees: 0, el: format!("{el:?}") };
        REGS.with(|r| {
            let mut r = r.borrow_mut();
            assert!(r.len() < r.capacity());
            r.push(reg)
        });
    }
    if let NodeOrToken::Node(n) = g {
        for (c, e) in n.children().zip(el.children()) {
            register(c, e);
        }
    }
}

/// Reads every element of a tree and compares it with what it has to be.
fn touch(g: GRef<'_>, el: &El, who: u8) {
    let at = addr(g);
    REGS.with(|r| {
        let r = r.borrow();
        let Some(reg) = r.iter().find(|r| r.at == at) else { return };
        if reg.frees > 0 {
            flag(|| format!("thread {who} uses {el:?}, which has been freed"));
            return;
        }
        if catch_unwind(AssertUnwindSafe(|| reg.cell.with(|_| ()))).is_err() {
            flag(|| format!("thread {who} uses {el:?} in a race with another thread"));
        }
    });
    if FAIL.with(|f| f.borrow().is_some()) {
        return;
    }
    let same = match (g, el) {
        (NodeOrToken::Token(g), T(k, s)) => g.kind().0 == *k && g.text() == s,
        (NodeOrToken::Node(g), N(k, c)) => {
            let ok = g.kind().0 == *k && u32::from(g.text_len()) == el.len() && g.children().len() == c.len();
            if ok {
                for (g, e) in g.children().zip(c) {
                    touch(g, e, who);
                }
            }
            ok
        }
        _ => false,
    };
    if !same {
        flag(|| format!("thread {who}: the contents differ from {el:?}"));
    }
}

// ---------------------------------------------------------------------------------------------
// programs

fn green(el: &El) -> Green {
    match el {
        T(k, s) => NodeOrToken::Token(GreenToken::new(SyntaxKind(*k), s)),
        N(k, c) => NodeOrToken::Node(GreenNode::new(SyntaxKind(*k), c.iter().map(green).collect::<Vec<_>>())),
    }
}
fn emit(el: &El, b: &mut GreenNodeBuilder<'_>) {
    match el {
        T(k, s) => b.token(SyntaxKind(*k), s),
        N(k, c) => {
            b.start_node(SyntaxKind(*k));
            c.iter().for_each(|e| emit(e, b));
            b.finish_node();
        }
    }
}
fn built(el: &El) -> Green {
    let mut b = GreenNodeBuilder::new();
    emit(el, &mut b);
    NodeOrToken::Node(b.finish())
}

/// Runs `f`; a panic is a failure, and the thread goes on (loom has to see its end).
fn calm<R>(who: u8, what: &str, f: impl FnOnce() -> R) -> Option<R> {
    let r = catch_unwind(AssertUnwindSafe(f));
    if r.is_err() {
        flag(|| format!("thread {who}: panic in {what}"));
    }
    r.ok()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
    /// Clone the top handle.
    Clone,
    /// Drop the top handle.
    Drop,
    /// Read everything below it.
    Read,
    /// Compare with a freshly built equal tree; hash and format both.
    Same,
    /// Replace the first child by a new token: the result replaces the handle.
    Replace,
    /// Insert a clone of the first child at the end: the result replaces the handle.
    Insert,
    /// Remove the first child: the result replaces the handle.
    Remove,
    /// Keep only an own handle to the first child.
    Child,
    /// A new node with the handle in it twice.
    Wrap,
    /// An immutable syntax tree over it: its first child is reached, its text read.
    Syntax,
    /// A mutable copy of a syntax tree over it: the first child is detached; the new green replaces the handle.
    Mutate,
    /// Exchange the handle with the one in a slot shared by all threads (behind a lock).
    Swap,
    /// Read it in the slot, under the lock.
    Peek,
}
const OPS: [Op; 13] = [
    Op::Clone, Op::Drop, Op::Read, Op::Same, Op::Replace, Op::Insert, Op::Remove, Op::Child, Op::Wrap,
    Op::Syntax, Op::Mutate, Op::Swap, Op::Peek,
];

type Stack = Vec<(Green, El)>;
type Slot = loom::sync::Mutex<Option<(Green, El)>>;

fn applicable(stack: &[El], op: Op) -> bool {
    let Some(top) = stack.last() else { return false };
    match op {
        Op::Replace | Op::Insert | Op::Remove | Op::Child | Op::Mutate => !top.children().is_empty(),
        Op::Syntax => top.is_node(),
        _ => true,
    }
}
/// The effect on what the handles denote. Swaps are taken to keep the tree (all hold the same one at first),
/// so programs with `Swap` are only run where it is the last or only operation that cares.
fn effect(stack: &mut Vec<El>, op: Op) {
    let top = stack.last().unwrap().clone();
    let n = stack.len() - 1;
    match op {
        Op::Clone => stack.push(top),
        Op::Drop => {
            stack.pop();
        }
        _ => {
            if let Some(e) = edited(&top, op) {
                stack[n] = e
            }
        }
    }
}
fn edited(top: &El, op: Op) -> Option<El> {
    let k = top.kind();
    let mut c = top.children().to_vec();
    match op {
        Op::Replace => c[0] = t(9, "new"),
        Op::Insert => c.push(c[0].clone()),
        Op::Remove | Op::Mutate => {
            c.remove(0);
        }
        Op::Child => return Some(c[0].clone()),
        Op::Wrap => return Some(N(8, vec![top.clone(), top.clone()])),
        _ => return None,
    }
    Some(N(k, c))
}

fn exec(stack: &mut Stack, slot: &Option<loom::sync::Arc<Slot>>, op: Op, who: u8) {
    let Some((g, el)) = stack.last() else { return };
    let els: Vec<El> = vec![el.clone()];
    if !applicable(&els, op) {
        return; // the slot held something else
    }
    let el = els.into_iter().next().unwrap();
    let nodata = |g: &Green| match g {
        NodeOrToken::Node(n) => &**n as *const lrowan::GreenNodeData,
        _ => unreachable!(),
    };
    let mut made: Option<Green> = None;
    match op {
        Op::Clone => {
            let c = calm(who, "clone", || g.clone());
            if let Some(c) = c {
                stack.push((c, el.clone()));
            }
        }
        Op::Drop => {
            let top = stack.pop();
            calm(who, "drop", || drop(top));
        }
        Op::Read => touch(gref(g), &el, who),
        Op::Same => {
            touch(gref(g), &el, who);
            let fresh = green(&el);
            calm(who, "comparing", || {
                let h = |g: &Green| {
                    let mut h = rustc_hash();
                    g.hash(&mut h);
                    h.finish()
                };
                if *g != fresh || fresh != *g || h(g) != h(&fresh) || g.to_string() != el.text() || format!("{g:?}") != format!("{fresh:?}") {
                    flag(|| format!("thread {who}: a fresh copy of {el:?} is not equal"));
                }
            });
            calm(who, "drop", || drop(fresh));
        }
        Op::Replace | Op::Insert | Op::Remove | Op::Child => {
            touch(gref(g), &el, who);
            let d = unsafe { &*nodata(g) };
            made = calm(who, "editing", || match op {
                Op::Replace => NodeOrToken::Node(d.replace_child(0, NodeOrToken::Token(GreenToken::new(SyntaxKind(9), "new")))),
                Op::Insert => {
                    let c = own(d.children().next().unwrap());
                    NodeOrToken::Node(d.insert_child(d.children().len(), c))
                }
                Op::Remove => NodeOrToken::Node(d.remove_child(0)),
                _ => own(d.children().next().unwrap()),
            });
        }
        Op::Wrap => {
            made = calm(who, "building", || {
                NodeOrToken::Node(GreenNode::new(SyntaxKind(8), [g.clone(), g.clone()]))
            });
        }
        Op::Syntax => {
            touch(gref(g), &el, who);
            let g = g.clone();
            calm(who, "reading a syntax tree", || {
                let root = cursor::SyntaxNode::new_root(g.into_node().unwrap());
                let first = root.first_child_or_token();
                let text = root.text().to_string();
                drop(root);
                if text != el.text() || first.map(|f| f.to_string()) != el.children().first().map(|c| c.text()) {
                    flag(|| format!("thread {who}: the syntax tree over {el:?} reads {text:?}"));
                }
            });
        }
        Op::Mutate => {
            touch(gref(g), &el, who);
            let g = g.clone();
            made = calm(who, "editing a syntax tree", || {
                let root = cursor::SyntaxNode::new_root(g.into_node().unwrap()).clone_for_update();
                let first = root.first_child_or_token().unwrap();
                first.detach();
                drop(first);
                NodeOrToken::Node(root.green().into_owned())
            });
        }
        Op::Swap => {
            let top = stack.pop();
            let mut s = slot.as_ref().unwrap().lock().unwrap();
            let got = std::mem::replace(&mut *s, top);
            drop(s);
            stack.extend(got);
        }
        Op::Peek => {
            let s = slot.as_ref().unwrap().lock().unwrap();
            if let Some((g, el)) = &*s {
                touch(gref(g), el, who);
            }
        }
    }
    if let Some(m) = made {
        let e = edited(&el, op).unwrap();
        register(gref(&m), &e);
        let old = std::mem::replace(stack.last_mut().unwrap(), (m, e));
        calm(who, "drop", || drop(old));
        let (g, el) = stack.last().unwrap();
        touch(gref(g), el, who);
    }
}

fn own(c: GRef<'_>) -> Green {
    match c {
        NodeOrToken::Node(n) => NodeOrToken::Node(n.to_owned()),
        NodeOrToken::Token(t) => NodeOrToken::Token(t.to_owned()),
    }
}

#[allow(deprecated)]
fn rustc_hash() -> impl Hasher {
    std::hash::SipHasher::new()
}

/// What the threads share at first, and how it is made.
fn scenes() -> Vec<(&'static str, El, bool)> {
    let (a, b) = (t(10, "a"), t(11, "bé"));
    vec![
        ("token", a.clone(), false),
        ("node of two tokens", N(1, vec![a.clone(), b.clone()]), false),
        ("interned node with a shared child node", N(0, vec![N(1, vec![a.clone()]), N(1, vec![a.clone()])]), true),
        ("node without children", N(2, vec![]), false),
    ]
}

#[derive(Clone)]
struct Program {
    scene: usize,
    /// Per thread: starts with the whole (false) or with its first child (true).
    start: Vec<bool>,
    ops: Vec<Vec<Op>>,
    /// The remaining handles are given back to the main thread, which reads and drops them.
    give: bool,
    bound: Option<usize>,
}

impl Program {
    fn slot(&self) -> bool {
        self.ops.iter().flatten().any(|o| matches!(o, Op::Swap | Op::Peek))
    }
    fn describe(&self) -> String {
        let (name, el, _) = &scenes()[self.scene];
        format!(
            "shared: {name} {el:?}; threads start with own handles to {:?}, then run {:?}; remaining handles are {}",
            self.start.iter().map(|c| if *c { "its first child" } else { "it" }).collect::<Vec<_>>(),
            self.ops,
            if self.give { "given back to the main thread" } else { "dropped by their thread" }
        )
    }
}

struct Seen {
    schedules: AtomicU64,
    fail: Mutex<Option<String>>,
    traces: Mutex<(HashSet<u64>, HashSet<u64>)>,
}

fn mark(x: u8) {
    TRACE.with(|t| {
        let mut t = t.borrow_mut();
        if t.len() < t.capacity() {
            t.push(x)
        }
    })
}

fn execution(p: &Program, seen: &Seen) {
    let (_, el, interned) = &scenes()[p.scene];
    REGS.with(|r| *r.borrow_mut() = Vec::with_capacity(128));
    TRACE.with(|t| *t.borrow_mut() = Vec::with_capacity(128));
    FAIL.with(|f| *f.borrow_mut() = None);
    let root = if *interned { built(el) } else { green(el) };
    register(gref(&root), el);
    alloc::ON_FREE.with(|h| h.set(Some(on_free)));
    let slot = p.slot().then(|| loom::sync::Arc::new(loom::sync::Mutex::new(Some((root.clone(), el.clone())))));
    let mut stacks: Vec<Stack> = Vec::new();
    for &child in &p.start {
        let s = match (&root, child) {
            (NodeOrToken::Node(n), true) => (own(n.children().next().unwrap()), el.children()[0].clone()),
            _ => (root.clone(), el.clone()),
        };
        let mut v = Vec::with_capacity(8);
        v.push(s);
        stacks.push(v);
    }
    drop(root);
    let mut joins = Vec::new();
    for (i, mut stack) in stacks.into_iter().enumerate() {
        let ops = p.ops[i].clone();
        let give = p.give;
        let slot = slot.clone();
        let who = i as u8 + 1;
        let th = loom::thread::Builder::new().stack_size(0x8000);
        joins.push(
            th.spawn(move || {
                for op in ops {
                    exec(&mut stack, &slot, op, who);
                    mark(who);
                }
                if !give {
                    while let Some((g, el)) = stack.pop() {
                        touch(gref(&g), &el, who);
                        calm(who, "drop", || drop(g));
                    }
                }
                mark(who | 8);
                calm(who, "drop of the slot", || drop(slot));
                stack
            })
            .unwrap(),
        );
    }
    calm(0, "drop of the slot", || drop(slot));
    for j in joins {
        let stack = j.join().unwrap();
        for (g, el) in stack {
            touch(gref(&g), &el, 0);
            calm(0, "drop", || drop(g));
        }
    }
    alloc::ON_FREE.with(|h| h.set(None));
    let regs = REGS.with(|r| std::mem::take(&mut *r.borrow_mut()));
    for r in &regs {
        match r.block {
            None => flag(|| format!("the block of {} is never freed", r.el)),
            Some((p, l)) => unsafe { std::alloc::dealloc(p, l) },
        }
    }
    drop(regs);
    let trace = TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()));
    seen.schedules.fetch_add(1, Relaxed);
    {
        let mut s = seen.traces.lock().unwrap();
        s.0.insert(hash_of(&trace));
        s.1.insert(hash_of(&trace.iter().rev().find(|x| **x & 8 != 0)));
    }
    if let Some(m) = FAIL.with(|f| f.borrow_mut().take()) {
        *seen.fail.lock().unwrap() = Some(m.clone());
        std::panic::panic_any(Violation(m))
    }
}

fn explore(cx: &mut Cx, p: Program) {
    cx.case(|| p.describe());
    let seen = Arc::new(Seen { schedules: AtomicU64::new(0), fail: Mutex::new(None), traces: Default::default() });
    let mut b = loom::model::Builder::new();
    b.max_threads = 4;
    b.max_branches = 20_000;
    b.preemption_bound = p.bound;
    b.checkpoint_interval = 1000;
    b.max_permutations = None;
    b.checkpoint_file = None;
    b.max_duration = Some(cx.time_left());
    b.location = false;
    b.log = false;
    let beat = cx.beater();
    let (s, q) = (seen.clone(), p.clone());
    let r = catch_unwind(AssertUnwindSafe(|| {
        b.check(move || {
            beat();
            execution(&q, &s)
        })
    }));
    alloc::ON_FREE.with(|h| h.set(None));
    let n = seen.schedules.load(Relaxed);
    if let Some(m) = seen.fail.lock().unwrap().take() {
        cx.fail(format!("{m} (schedule {n})"))
    }
    if let Err(e) = r {
        std::panic::resume_unwind(e)
    }
    if cx.time_left().is_zero() {
        cx.truncated();
    }
    cx.more_cases(n - 1);
    cx.steps(n * p.ops.iter().map(|o| o.len() as u64 + 1).sum::<u64>());
    if n > 1 {
        cx.nontrivial += n;
    }
    let seen = seen.traces.lock().unwrap();
    for t in &seen.0 {
        cx.state(&(p.scene, &p.start, &p.ops, p.give, *t));
    }
    for t in &seen.1 {
        cx.outcome(&(p.scene, &p.ops, *t));
    }
}

/// All op sequences of a length a thread can run, from a start.
fn sequences(el: &El, len: usize, ops: &[Op]) -> Vec<Vec<Op>> {
    let mut out: Vec<(Vec<Op>, Vec<El>)> = vec![(vec![], vec![el.clone()])];
    for _ in 0..len {
        let mut next = Vec::new();
        for (s, st) in out {
            for &op in ops {
                if applicable(&st, op) {
                    let mut s2 = s.clone();
                    let mut st2 = st.clone();
                    s2.push(op);
                    effect(&mut st2, op);
                    next.push((s2, st2));
                }
            }
        }
        out = next;
    }
    out.into_iter().map(|x| x.0).collect()
}

fn programs(threads: usize, lens: &[&[usize]], ops: &[Op], bound: Option<usize>, scene_set: &[usize]) -> Vec<Program> {
    let mut out = Vec::new();
    for &scene in scene_set {
        let el = &scenes()[scene].1;
        let starts: &[bool] = if el.children().is_empty() { &[false] } else { &[false, true] };
        for l in lens {
            // every thread: start x sequence; unordered where the lengths are equal
            let per: Vec<Vec<(bool, Vec<Op>)>> = l
                .iter()
                .map(|&n| {
                    starts
                        .iter()
                        .flat_map(|&s| {
                            let e = if s { &el.children()[0] } else { el };
                            sequences(e, n, ops).into_iter().map(move |q| (s, q))
                        })
                        .collect()
                })
                .collect();
            let mut idx = vec![0usize; threads];
            'all: loop {
                let sorted = (1..threads).all(|i| l[i] != l[i - 1] || idx[i - 1] <= idx[i]);
                if sorted {
                    for give in [false, true] {
                        out.push(Program {
                            scene,
                            start: (0..threads).map(|i| per[i][idx[i]].0).collect(),
                            ops: (0..threads).map(|i| per[i][idx[i]].1.clone()).collect(),
                            give,
                            bound,
                        });
                    }
                }
                let mut i = 0;
                loop {
                    idx[i] += 1;
                    if idx[i] < per[i].len() {
                        break;
                    }
                    idx[i] = 0;
                    i += 1;
                    if i == threads {
                        break 'all;
                    }
                }
            }
        }
    }
    out
}

fn fam(name: &'static str, what: String, ps: Vec<Program>) -> Family {
    let n = ps.len() as u64;
    family(name, format!("{what} = {n} programs"), n, move |cx, i| explore(cx, ps[i as usize].clone()))
}

fn main() {
    mc::engine::main("C16", |tier: Tier| {
        let all = format!("{OPS:?}");
        let core = [Op::Clone, Op::Drop, Op::Read];
        let some = [Op::Clone, Op::Drop, Op::Read, Op::Replace, Op::Child, Op::Mutate, Op::Swap];
        let few = [Op::Clone, Op::Drop, Op::Read, Op::Replace, Op::Child];
        let bounded = |b: usize| format!("every interleaving with up to {b} preemptions");
        let q = tier == Tier::Quick;
        let mut v = vec![traits::family_of()];
        v.push(fam(
            "all-interleavings",
            format!("two threads, 0-2 operations each out of {core:?}, over a token and a node without children; every interleaving"),
            programs(2, &[&[0, 0], &[1, 0], &[1, 1], &[2, 1], &[2, 2]], &core, None, &[0, 3]),
        ));
        let b = tier.pick(4, 5);
        v.push(fam(
            "pairs",
            format!("two threads, 0-1 operations each out of {all}, over 4 shared trees, handles dropped or given back; {}", bounded(b)),
            programs(2, &[&[0, 0], &[1, 0], &[1, 1]], &OPS, Some(b), &[0, 1, 2, 3]),
        ));
        let b = 3;
        v.push(fam(
            "two-and-one",
            format!("two threads, 2 and 1 operations out of {}, over 3 shared trees; {}", if q { format!("{some:?}") } else { all.clone() }, bounded(b)),
            programs(2, &[&[2, 1]], if q { &some } else { &OPS }, Some(b), &[0, 1, 2]),
        ));
        let b = 2;
        v.push(fam(
            "three-threads",
            format!("three threads, one operation each out of {}, over 2 shared trees; {}", if q { format!("{few:?}") } else { format!("{some:?}") }, bounded(b)),
            programs(3, if q { &[&[1, 1, 1]] } else { &[&[0, 0, 0], &[1, 0, 0], &[1, 1, 0], &[1, 1, 1]] }, if q { &few } else { &some }, Some(b), &[0, 1]),
        ));
        if !q {
            v.push(fam(
                "two-and-two",
                format!("two threads, 2 operations each out of {some:?}, over 3 shared trees; {}", bounded(2)),
                programs(2, &[&[2, 2]], &some, Some(2), &[0, 1, 2]),
            ));
            v.push(fam(
                "three-and-one",
                format!("two threads, 3 and 1 operations out of {some:?}, over 2 shared trees; {}", bounded(2)),
                programs(2, &[&[3, 1]], &some, Some(2), &[0, 1]),
            ));
        }
        v
    })
}
