//! Every provided method of an iterator, from every point of its run: `nth`, `count`, `fold` and the like can be
//! implemented by hand, and have to agree with `next`.
use crate::engine::Cx;
use crate::{check, check_eq};
use std::ops::ControlFlow;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Meth {
    Hint,
    Count,
    Last,
    Fold,
    ForEach,
    Collect,
    Reduce,
    Max,
    Nth(usize, usize),
    TryFold(usize),
    Find(usize),
    Position(usize),
    Skip(usize),
    SkipNth(usize, usize),
    Step(usize),
    Take(usize),
}
use Meth::*;

pub struct Got<X> {
    pub items: Vec<X>,
    pub nums: Vec<usize>,
}

impl<X> Got<X> {
    pub fn map<Y>(self, f: impl FnMut(X) -> Y) -> Got<Y> {
        Got { items: self.items.into_iter().map(f).collect(), nums: self.nums }
    }
}

/// Steps `k` times, then applies the method. What is left afterwards is taken by `next`, at most `cap` of it.
pub fn probe<I: Iterator>(mut it: I, k: usize, m: Meth, cap: usize) -> Got<I::Item> {
    for _ in 0..k {
        it.next();
    }
    apply(it, m, cap)
}

pub fn apply<I: Iterator>(mut it: I, m: Meth, cap: usize) -> Got<I::Item> {
    let mut items = Vec::new();
    let mut nums = Vec::new();
    fn rest<I: Iterator>(it: &mut I, items: &mut Vec<I::Item>, cap: usize) {
        while items.len() < cap {
            match it.next() {
                Some(x) => items.push(x),
                None => break,
            }
        }
    }
    match m {
        Hint => {
            let (lo, hi) = it.size_hint();
            nums = vec![lo, hi.unwrap_or(usize::MAX)];
        }
        Count => nums.push(it.count()),
        Last => items.extend(it.last()),
        Fold => {
            items = it.fold(items, |mut v, x| {
                v.push(x);
                v
            })
        }
        ForEach => it.for_each(|x| items.push(x)),
        Collect => items = it.collect(),
        Reduce => {
            let mut n = 0;
            items.extend(it.reduce(|a, b| {
                n += 1;
                drop(a);
                b
            }));
            nums.push(n);
        }
        Max => {
            let mut n = 0;
            items.extend(it.max_by_key(|_| {
                n += 1;
                n
            }));
            nums.push(n);
        }
        Nth(i, j) => {
            for x in [i, j] {
                let a = it.nth(x);
                nums.push(a.is_some() as usize);
                items.extend(a);
            }
            rest(&mut it, &mut items, cap);
        }
        TryFold(j) => {
            let mut n = 0;
            let r = it.try_fold((), |(), x| {
                items.push(x);
                n += 1;
                if n > j { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
            });
            nums.push(r.is_break() as usize);
            rest(&mut it, &mut items, cap);
        }
        Find(j) => {
            let mut n = 0;
            let x = it.find(|_| {
                n += 1;
                n > j
            });
            nums.extend([n, x.is_some() as usize]);
            items.extend(x);
            rest(&mut it, &mut items, cap);
        }
        Position(j) => {
            let mut n = 0;
            let x = it.position(|_| {
                n += 1;
                n > j
            });
            nums.push(x.unwrap_or(usize::MAX));
            rest(&mut it, &mut items, cap);
        }
        Skip(j) => items = it.skip(j).take(cap).collect(),
        SkipNth(i, j) => {
            let mut s = it.skip(i);
            let x = s.nth(j);
            nums.push(x.is_some() as usize);
            items.extend(x);
            rest(&mut s, &mut items, cap);
        }
        Step(j) => items = it.step_by(j).take(cap).collect(),
        Take(j) => {
            items = it.by_ref().take(j).collect();
            nums.push(items.len());
            rest(&mut it, &mut items, cap);
        }
    }
    Got { items, nums }
}

/// What the method owes on `n` remaining elements: which of them, and the numbers.
fn owed(m: Meth, n: usize) -> (Vec<usize>, Vec<usize>) {
    let all = || (0..n).collect::<Vec<_>>();
    let b = |x: bool| x as usize;
    match m {
        Hint => (vec![], vec![]),
        Count => (vec![], vec![n]),
        Last => ((n > 0).then(|| n - 1).into_iter().collect(), vec![]),
        Fold | ForEach | Collect => (all(), vec![]),
        Reduce => ((n > 0).then(|| n - 1).into_iter().collect(), vec![n.saturating_sub(1)]),
        Max => ((n > 0).then(|| n - 1).into_iter().collect(), vec![n]),
        Nth(i, j) => {
            let mut v = Vec::new();
            let mut at = 0;
            let mut nums = Vec::new();
            for x in [i, j] {
                nums.push(b(at + x < n));
                if at + x < n {
                    v.push(at + x);
                }
                at = (at + x + 1).min(n);
            }
            v.extend(at..n);
            (v, nums)
        }
        TryFold(j) => (all(), vec![b(j < n)]),
        Find(j) => ((j.min(n)..n).collect(), vec![(j + 1).min(n), b(j < n)]),
        Position(j) => (((j + 1).min(n)..n).collect(), vec![if j < n { j } else { usize::MAX }]),
        Skip(j) => ((j.min(n)..n).collect(), vec![]),
        SkipNth(i, j) => (((i + j).min(n)..n).collect(), vec![b(i + j < n)]),
        Step(j) => ((0..n).step_by(j).collect(), vec![]),
        Take(j) => (all(), vec![j.min(n)]),
    }
}

/// All methods with all arguments that matter on `n` remaining elements.
pub fn methods(n: usize) -> Vec<Meth> {
    let mut v = vec![Hint, Count, Last, Fold, ForEach, Collect, Reduce, Max, Step(2), Step(3)];
    for i in 0..=n + 1 {
        v.extend([TryFold(i), Find(i), Position(i), Skip(i), Take(i), SkipNth(1, i), SkipNth(i, 0), Nth(i, 0)]);
        if i > 0 && i <= n {
            v.push(Nth(0, i));
            v.push(Nth(1, i));
        }
    }
    v
}

/// `run` makes the iterator, brings it to where `n` elements remain, and applies; `is` checks that an item is the given one of those.
pub fn probes<X>(cx: &mut Cx, what: &dyn Fn() -> String, n: usize, mut run: impl FnMut(Meth) -> Got<X>, mut is: impl FnMut(&mut Cx, &X, usize, &str)) {
    for m in methods(n) {
        cx.step();
        let got = run(m);
        if m == Hint {
            let (lo, hi) = (got.nums[0], got.nums[1]);
            check!(cx, lo <= n && n <= hi, "{}: size_hint {lo}..{hi} with {n} elements left", what());
            continue;
        }
        let (items, nums) = owed(m, n);
        check_eq!(cx, got.nums, nums, "{}: {m:?} with {n} elements left", what());
        check_eq!(cx, got.items.len(), items.len(), "{}: number of items of {m:?} with {n} elements left", what());
        for (x, i) in got.items.iter().zip(items) {
            is(cx, x, i, "an item of a provided method");
        }
    }
}
