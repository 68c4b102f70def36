//! The systems under exploration: one per container, each the real container side by side with a
//! plain reference model.

pub mod borrow;
pub mod deque;
pub mod fault;
pub mod hash;
pub mod hashes;
pub mod list;
pub mod oom;
#[cfg(feature = "hooks")]
pub mod pool;
pub mod requests;
pub mod shared;
pub mod threads;
pub mod string;
pub mod tree;
pub mod unlawful;
pub mod vector;
pub mod vmap;

use crate::rt::{catch, op_start, Caught};
use crate::tok::{Elem, It, PENDING};

/// Compares an element handed out by the container with the model's, and drops it.
pub fn handed<E: Elem>(what: &str, got: Option<E>, want: Option<It>) {
    match (&got, want) {
        (None, None) => {}
        (Some(g), Some(mut w)) => {
            let ok = if w.ser == PENDING { g.adopt(&mut w) } else { g.is(&w) };
            check!(ok, Semantic, "{what} returned another element than expected (expected value {})", w.val);
        }
        (None, Some(w)) => bad!(Semantic, "{what} returned None, expected the element with value {}", w.val),
        (Some(_), None) => bad!(Semantic, "{what} returned an element, expected None"),
    }
    drop(got);
}

/// Compares an element lent by the container with the model's.
pub fn lent<E: Elem>(what: &str, got: Option<&E>, want: Option<&mut It>) {
    match (got, want) {
        (None, None) => {}
        (Some(g), Some(w)) => {
            let ok = if w.ser == PENDING { g.adopt(w) && g.is(w) } else { g.is(w) };
            check!(ok, Semantic, "{what} shows another element than expected (expected value {})", w.val);
        }
        (None, Some(w)) => bad!(Semantic, "{what} shows nothing, expected the element with value {}", w.val),
        (Some(_), None) => bad!(Semantic, "{what} shows an element, expected nothing"),
    }
}

/// Runs one operation that must return normally.
pub fn must<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    op_start();
    match catch(f) {
        Caught::Ok(r) => Some(r),
        Caught::Panicked(m) => {
            bad!(Panic, "{what} panicked: {m}");
            None
        }
        Caught::Refused(s, a) => {
            bad!(Alloc, "{what} asked the allocator for {s} bytes aligned {a}");
            None
        }
        Caught::Injected => {
            bad!(Panic, "{what}: panicked");
            None
        }
    }
}

/// The `i`-th pointer-sized word of a value's memory.
pub unsafe fn word<T>(t: &T, i: usize) -> usize {
    ((t as *const T as *const u8).add(i * 8) as *const usize).read_unaligned()
}

/// Where to try the calls an iterator need not implement itself: everywhere in short sequences.
fn spots(n: usize) -> Vec<usize> {
    let mut v = if n <= 6 { (0..=n).collect() } else { vec![0, 1, n / 2, n - 1, n] };
    if n > 100 {
        v = vec![0, n / 2, n - 1];
    }
    v
}

/// Every call that an iterator inherits agrees with `next`: `want` are the identities it yields.
pub fn inherited<I: Iterator>(what: &str, want: &[usize], mk: &mut dyn FnMut() -> I, id: &dyn Fn(I::Item) -> usize) {
    let n = want.len();
    if mk().take(n + 1).map(id).collect::<Vec<_>>() != want {
        bad!(Iter, "{what} does not yield the content in order");
        return;
    }
    for p in spots(n) {
        let rest = &want[p..];
        let left = rest.len();
        let mut at = || {
            let mut it = mk();
            for _ in 0..p {
                it.next();
            }
            it
        };
        let (lo, hi) = at().size_hint();
        check!(lo <= left && hi.is_none_or(|h| h >= left), Iter, "{what}: after {p} of {n}, size_hint is {:?}", (lo, hi));
        let mut js = spots(left);
        js.push(left + 1);
        for j in js {
            let mut it = at();
            let got = it.nth(j).map(id);
            check!(got.as_ref() == rest.get(j), Iter, "{what}: after {p} of {n}, nth({j}) yields another element");
            let got = it.next().map(id);
            check!(got.as_ref() == rest.get(j + 1), Iter, "{what}: after {p} of {n} and nth({j}), next yields another element");
            if j < left {
                check!(at().position(|x| id(x) == rest[j]) == Some(j), Iter, "{what}: after {p} of {n}, position is not {j}");
            }
        }
        check!(at().count() == left, Iter, "{what}: after {p} of {n}, count is {}", at().count());
        check!(at().last().map(id).as_ref() == rest.last(), Iter, "{what}: after {p} of {n}, last yields another element");
        let mut seen = Vec::new();
        at().for_each(|x| seen.push(id(x)));
        check!(seen == rest, Iter, "{what}: after {p} of {n}, for_each sees {} elements", seen.len());
        let seen = at().fold(Vec::new(), |mut v, x| {
            v.push(id(x));
            v
        });
        check!(seen == rest, Iter, "{what}: after {p} of {n}, fold sees {} elements", seen.len());
        check!(at().map(id).collect::<Vec<_>>() == rest, Iter, "{what}: after {p} of {n}, collect differs");
    }
}

/// The same for the calls that run from the back.
pub fn inherited_back<I: DoubleEndedIterator>(what: &str, want: &[usize], mk: &mut dyn FnMut() -> I, id: &dyn Fn(I::Item) -> usize) {
    let n = want.len();
    if mk().rev().take(n + 1).map(id).collect::<Vec<_>>() != want.iter().rev().copied().collect::<Vec<_>>() {
        bad!(Iter, "{what} does not yield the content in reverse order from the back");
        return;
    }
    for p in spots(n) {
        for q in spots(n - p) {
            let rest = &want[p..n - q];
            let back: Vec<usize> = rest.iter().rev().copied().collect();
            let left = rest.len();
            let mut at = || {
                let mut it = mk();
                for _ in 0..p {
                    it.next();
                }
                for _ in 0..q {
                    it.next_back();
                }
                it
            };
            let (lo, hi) = at().size_hint();
            check!(lo <= left && hi.is_none_or(|h| h >= left), Iter, "{what}: after {p} from the front and {q} from the back of {n}, size_hint is {:?}", (lo, hi));
            let mut js = spots(left);
            js.push(left + 1);
            for j in js {
                let mut it = at();
                let got = it.nth_back(j).map(id);
                check!(got.as_ref() == back.get(j), Iter, "{what}: after {p} from the front and {q} from the back of {n}, nth_back({j}) yields another element");
                let (f, b) = if j < left { (rest.first().filter(|_| j + 1 < left), back.get(j + 1)) } else { (None, None) };
                let got = if j % 2 == 0 { it.next().map(id).as_ref() == f } else { it.next_back().map(id).as_ref() == b };
                check!(got, Iter, "{what}: after {p} from the front and {q} from the back of {n} and nth_back({j}), the next element is another one");
                let mut it = at();
                let got = it.nth(j).map(id);
                check!(got.as_ref() == rest.get(j), Iter, "{what}: after {p} from the front and {q} from the back of {n}, nth({j}) yields another element");
                let want = if j + 1 < left { rest.last() } else { None };
                check!(it.next_back().map(id).as_ref() == want, Iter, "{what}: after {p} from the front and {q} from the back of {n} and nth({j}), next_back yields another element");
            }
            let seen = at().rfold(Vec::new(), |mut v, x| {
                v.push(id(x));
                v
            });
            check!(seen == back, Iter, "{what}: after {p} from the front and {q} from the back of {n}, rfold sees {} elements", seen.len());
            let seen = at().fold(Vec::new(), |mut v, x| {
                v.push(id(x));
                v
            });
            check!(seen == rest, Iter, "{what}: after {p} from the front and {q} from the back of {n}, fold sees {} elements", seen.len());
            check!(at().count() == left, Iter, "{what}: after {p} from the front and {q} from the back of {n}, count is {}", at().count());
            check!(at().last().map(id).as_ref() == rest.last(), Iter, "{what}: after {p} from the front and {q} from the back of {n}, last yields another element");
            if let Some(l) = back.last() {
                check!(at().rfind(|_| false).is_none() && at().rposition_of(*l, id), Iter, "{what}: after {p} from the front and {q} from the back of {n}, rfind differs");
            }
        }
    }
}

trait RPos: DoubleEndedIterator + Sized {
    fn rposition_of(mut self, l: usize, id: &dyn Fn(Self::Item) -> usize) -> bool {
        // the first element is found last
        let mut found = false;
        while let Some(x) = self.next_back() {
            found = id(x) == l;
        }
        found
    }
}
impl<I: DoubleEndedIterator> RPos for I {}

/// The calls an owning iterator inherits, by number; each says what it must yield, and the rest
/// stays in or is dropped by it.
pub const OWN_CALLS: u32 = 14;
pub fn show_own(c: u32) -> &'static str {
    ["nth(0)", "nth(1)", "nth(2)", "nth(9)", "nth_back(0)", "nth_back(1)", "nth_back(2)", "nth_back(9)", "count()", "last()", "fold", "rfold", "collect", "nth(1), nth_back(1)"][c as usize % 14]
}
pub fn own_call<E: Elem, I: DoubleEndedIterator<Item = E>>(mut it: I, items: &mut std::collections::VecDeque<It>, c: u32, drop_it: impl FnOnce(I)) {
    let one = |got: Option<E>, want: Option<It>| match (got, want) {
        (None, None) => {}
        (Some(g), Some(w)) => check!(g.is(&w), Iter, "{} of into_iter yields another element than the one with value {}", show_own(c), w.val),
        (g, w) => bad!(Iter, "{} of into_iter yields {}, expected {}", show_own(c), if g.is_some() { "an element" } else { "None" }, if w.is_some() { "an element" } else { "None" }),
    };
    let mut nth = |it: &mut I, j: usize, back: bool, items: &mut std::collections::VecDeque<It>| {
        let got = if back { it.nth_back(j) } else { it.nth(j) };
        let mut want = None;
        for k in 0..=j {
            want = if back { items.pop_back() } else { items.pop_front() };
            if let (true, Some(w)) = (E::TRACKED && k < j, want) {
                check!(!crate::rt::cx().regs[w.ser as usize].live, Iter, "{} of into_iter forgets an element it skips", show_own(c));
            }
        }
        one(got, want);
    };
    let js = [0, 1, 2, 9];
    match c % OWN_CALLS {
        j @ 0..=3 => nth(&mut it, js[j as usize], false, items),
        j @ 4..=7 => nth(&mut it, js[j as usize - 4], true, items),
        8 => {
            let n = it.count();
            check!(n == items.len(), Iter, "count of into_iter is {n} instead of {}", items.len());
            items.clear();
            return;
        }
        9 => {
            let l = it.last();
            let w = items.pop_back();
            one(l, w);
            items.clear();
            return;
        }
        10 | 11 | 12 => {
            let got = match c % OWN_CALLS {
                10 => it.fold(Vec::new(), |mut v, x| {
                    v.push(x);
                    v
                }),
                11 => {
                    let mut v = it.rfold(Vec::new(), |mut v, x| {
                        v.push(x);
                        v
                    });
                    v.reverse();
                    v
                }
                _ => it.collect(),
            };
            check!(got.len() == items.len() && got.iter().zip(items.iter()).all(|(g, w)| g.is(w)), Iter, "{} of into_iter yields {} elements, not the {} in order", show_own(c), got.len(), items.len());
            items.clear();
            return;
        }
        _ => {
            nth(&mut it, 1, false, items);
            nth(&mut it, 1, true, items);
        }
    }
    let (f, b) = (it.next(), items.pop_front());
    one(f, b);
    drop_it(it);
}
