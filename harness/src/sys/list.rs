//! `List` and `FixedList`.

use super::{handed, lent, must};
use crate::alloc::{tracked, TestAlloc};
use crate::explore::{op, Op, System};
use crate::rt::{cx, op_start};
use crate::tok::*;
use eastl_rs::fixed_list::FixedList;
use eastl_rs::list::List;
use moveit::New;
use std::collections::VecDeque;
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;

#[repr(C)]
pub struct RBase {
    next: *const RBase,
    prev: *const RBase,
}
#[repr(C)]
pub struct RLNode<T> {
    base: RBase,
    val: T,
}
/// A list as C++ sees it.
#[repr(C)]
struct RList {
    node: RBase,
    size: u32,
}

/// What a list under test can do.
pub trait Lst<E: Elem, A: TestAlloc>: Sized + 'static {
    const KIND: &'static str;
    /// inline nodes
    const N: usize;
    unsafe fn build(at: &mut MaybeUninit<Self>, with_default: bool, id: u32);
    fn push_back(&mut self, e: E);
    fn push_front(&mut self, e: E);
    fn pop_back(&mut self) -> Option<E>;
    fn pop_front(&mut self) -> Option<E>;
    fn front(&self) -> Option<&E>;
    fn back(&self) -> Option<&E>;
    fn front_mut(&mut self) -> Option<&mut E>;
    fn back_mut(&mut self) -> Option<&mut E>;
    fn clear(&mut self);
    fn lens(&self) -> Vec<usize>;
    fn empties(&self) -> Vec<bool>;
    fn iter(&self) -> impl Iterator<Item = &E> + '_;
    fn iter_mut(&mut self) -> impl Iterator<Item = &mut E> + '_;
    fn debug(&self) -> String;
    /// false: there is no such operation
    fn extend(&mut self, v: Vec<E>) -> bool;
    fn extend_ref(&mut self, v: &[E]) -> bool;
    const EXTEND: bool;
}

macro_rules! lst_common {
    () => {
        fn push_back(&mut self, e: E) {
            (**self).push_back(e)
        }
        fn push_front(&mut self, e: E) {
            (**self).push_front(e)
        }
        fn pop_back(&mut self) -> Option<E> {
            (**self).pop_back()
        }
        fn pop_front(&mut self) -> Option<E> {
            (**self).pop_front()
        }
        fn front(&self) -> Option<&E> {
            (**self).front()
        }
        fn back(&self) -> Option<&E> {
            (**self).back()
        }
        fn front_mut(&mut self) -> Option<&mut E> {
            (**self).front_mut()
        }
        fn back_mut(&mut self) -> Option<&mut E> {
            (**self).back_mut()
        }
        fn clear(&mut self) {
            (**self).clear()
        }
        fn iter(&self) -> impl Iterator<Item = &E> + '_ {
            (**self).iter()
        }
        fn iter_mut(&mut self) -> impl Iterator<Item = &mut E> + '_ {
            (**self).iter_mut()
        }
    };
}

/// a `List` behind one dereference, like a `FixedList`
#[repr(transparent)]
pub struct Plain<E: Elem, A: TestAlloc>(List<E, A>);
impl<E: Elem, A: TestAlloc> std::ops::Deref for Plain<E, A> {
    type Target = List<E, A>;
    fn deref(&self) -> &List<E, A> {
        &self.0
    }
}
impl<E: Elem, A: TestAlloc> std::ops::DerefMut for Plain<E, A> {
    fn deref_mut(&mut self) -> &mut List<E, A> {
        &mut self.0
    }
}

impl<E: Elem, A: TestAlloc> Lst<E, A> for Plain<E, A> {
    const KIND: &'static str = "List";
    const N: usize = 0;
    const EXTEND: bool = true;
    unsafe fn build(at: &mut MaybeUninit<Self>, with_default: bool, id: u32) {
        let p = Pin::new_unchecked(&mut *(at as *mut MaybeUninit<Self> as *mut MaybeUninit<List<E, A>>));
        if with_default {
            New::new(List::<E, A>::new(), p);
        } else {
            New::new(List::<E, A>::new_in(A::make(id)), p);
        }
    }
    lst_common!();
    fn lens(&self) -> Vec<usize> {
        vec![self.0.len() as usize, self.0.size()]
    }
    fn empties(&self) -> Vec<bool> {
        vec![self.0.is_empty(), self.0.empty()]
    }
    fn debug(&self) -> String {
        format!("{:?}", self.0)
    }
    fn extend(&mut self, v: Vec<E>) -> bool {
        let mut slots: Vec<Option<E>> = v.into_iter().map(Some).collect();
        tracked(A::GLOBAL, || Extend::extend(&mut self.0, slots.iter_mut().map(|s| s.take().unwrap())));
        true
    }
    fn extend_ref(&mut self, v: &[E]) -> bool {
        extend_copies(&mut self.0, v)
    }
}

/// `Extend<&T>` exists for `Copy` elements only.
fn extend_copies<E: Elem, A: TestAlloc>(l: &mut List<E, A>, v: &[E]) -> bool {
    use std::any::Any;
    fn go<P: Elem + Copy, A: TestAlloc>(l: &mut dyn Any, v: &dyn Any) -> bool {
        match (l.downcast_mut::<List<P, A>>(), v.downcast_ref::<Vec<P>>()) {
            (Some(l), Some(v)) => {
                tracked(A::GLOBAL, || Extend::extend(l, v.iter()));
                true
            }
            _ => false,
        }
    }
    if E::TRACKED {
        return false;
    }
    let copies: Vec<E> = v.to_vec();
    go::<P1, A>(l, &copies) || go::<P4, A>(l, &copies) || go::<P16, A>(l, &copies)
}

impl<E: Elem, A: TestAlloc, const N: usize> Lst<E, A> for FixedList<E, N, A> {
    const KIND: &'static str = "FixedList";
    const N: usize = N;
    const EXTEND: bool = false;
    unsafe fn build(at: &mut MaybeUninit<Self>, with_default: bool, id: u32) {
        let p = Pin::new_unchecked(at);
        if with_default {
            New::new(Self::new_with_default_overflow_allocator(), p);
        } else {
            New::new(Self::new_in(A::make(id)), p);
        }
    }
    lst_common!();
    fn lens(&self) -> Vec<usize> {
        vec![self.len() as usize, self.size()]
    }
    fn empties(&self) -> Vec<bool> {
        vec![self.is_empty(), (**self).empty()]
    }
    fn debug(&self) -> String {
        format!("{self:?}")
    }
    fn extend(&mut self, _: Vec<E>) -> bool {
        false
    }
    fn extend_ref(&mut self, _: &[E]) -> bool {
        false
    }
}

#[cfg(feature = "nightly")]
mod conformant {
    use super::*;
    use eastl_rs::fixed_list::conformant::FixedList as CFixedList;
    macro_rules! conformant {
        ($(($e:ty, $n:expr, $a:ty)),*) => {$(
            impl Lst<$e, $a> for CFixedList<$e, $n, $a> {
                const KIND: &'static str = "conformant FixedList";
                const N: usize = $n;
                const EXTEND: bool = false;
                unsafe fn build(at: &mut MaybeUninit<Self>, with_default: bool, id: u32) {
                    let p = Pin::new_unchecked(at);
                    if with_default {
                        New::new(Self::new_with_default_overflow_allocator(), p);
                    } else {
                        New::new(Self::new_in(<$a as TestAlloc>::make(id)), p);
                    }
                }
                fn push_back(&mut self, e: $e) { CFixedList::push_back(self, e) }
                fn push_front(&mut self, e: $e) { CFixedList::push_front(self, e) }
                fn pop_back(&mut self) -> Option<$e> { CFixedList::pop_back(self) }
                fn pop_front(&mut self) -> Option<$e> { CFixedList::pop_front(self) }
                fn front(&self) -> Option<&$e> { CFixedList::front(self) }
                fn back(&self) -> Option<&$e> { CFixedList::back(self) }
                fn front_mut(&mut self) -> Option<&mut $e> { CFixedList::front_mut(self) }
                fn back_mut(&mut self) -> Option<&mut $e> { CFixedList::back_mut(self) }
                fn clear(&mut self) { CFixedList::clear(self) }
                fn iter(&self) -> impl Iterator<Item = &$e> + '_ { CFixedList::iter(self) }
                fn iter_mut(&mut self) -> impl Iterator<Item = &mut $e> + '_ { CFixedList::iter_mut(self) }
                fn lens(&self) -> Vec<usize> { vec![self.len() as usize, self.size()] }
                fn empties(&self) -> Vec<bool> { vec![self.is_empty()] }
                fn debug(&self) -> String { format!("{self:?}") }
                fn extend(&mut self, _: Vec<$e>) -> bool { false }
                fn extend_ref(&mut self, _: &[$e]) -> bool { false }
            }
        )*};
    }
    use crate::alloc::TrackAlloc as T;
    use eastl_rs::DefaultAllocator as D;
    conformant!((T8, 1, T), (T8, 2, T), (T8, 3, T), (T8, 4, T), (T4, 3, T), (A16, 3, T), (A64, 3, T), (P1, 3, T), (T24, 3, T), (T8, 3, D), (A64, 2, D), (T8, 8, T), (A16, 33, T), (P1, 100, T), (T4, 1000, T));
}
#[cfg(feature = "nightly")]
pub use eastl_rs::fixed_list::conformant::FixedList as CFixedList;

pub const PUSH_B: u32 = 1;
pub const PUSH_F: u32 = 2;
pub const POP_B: u32 = 3;
pub const POP_F: u32 = 4;
pub const EXTEND: u32 = 5;
pub const EXTEND_REF: u32 = 6;
pub const CLEAR: u32 = 7;
pub const WRITE: u32 = 8;
pub const WRITE_ALL: u32 = 9;
pub const FILL: u32 = 10;
pub const SLIDE: u32 = 11;
pub const DRAIN: u32 = 12;

pub struct ListSys<E: Elem, A: TestAlloc, L: Lst<E, A>> {
    at: Box<MaybeUninit<L>>,
    items: VecDeque<(It, usize)>,
    /// how many of them are inside
    inline: usize,
    max: usize,
    next: u32,
    owner: u32,
    _p: std::marker::PhantomData<(E, A)>,
}

impl<E: Elem, A: TestAlloc, L: Lst<E, A>> ListSys<E, A, L> {
    pub fn new(max: usize) -> Box<dyn System> {
        let mut at = Box::new(MaybeUninit::uninit());
        let with_default = max % 2 == 0;
        // whatever was in the memory before must not matter
        unsafe {
            std::ptr::write_bytes(at.as_mut_ptr() as *mut u8, 0xEE, size_of::<L>());
            L::build(&mut at, with_default, 6);
        }
        let owner = if A::GLOBAL { 0xD0 } else if with_default { 0 } else { 6 };
        Box::new(ListSys { at, items: VecDeque::new(), inline: 0, max, next: 0, owner, _p: Default::default() })
    }
    pub fn name() -> String {
        format!("{}{} of {}, {}", L::KIND, if L::N > 0 { format!(" with {} inline nodes", L::N) } else { String::new() }, E::NAME, A::NAME)
    }
    fn l(&mut self) -> &mut L {
        unsafe { self.at.assume_init_mut() }
    }
    fn fresh(&mut self) -> (E, It) {
        self.next += 1;
        E::mk(self.next)
    }
    fn inside(&self, p: usize) -> bool {
        let b = self.at.as_ptr() as usize;
        p >= b && p < b + size_of::<L>()
    }
    fn inline_used(&self) -> usize {
        self.inline
    }

    fn push(&mut self, back: bool) {
        let inline = self.inline_used();
        let (e, it) = self.fresh();
        op_start();
        let g = A::GLOBAL;
        let l = unsafe { self.at.assume_init_mut() };
        if back {
            must("push_back", || tracked(g, || l.push_back(e)));
        } else {
            must("push_front", || tracked(g, || l.push_front(e)));
        }
        let c = cx();
        let node = (size_of::<RLNode<E>>(), align_of::<RLNode<E>>());
        if inline < L::N {
            check!(c.allocs.is_empty(), Pool, "went to the overflow allocator ({:?}) with {inline} of {} inline nodes used", c.allocs, L::N);
        } else {
            check!(c.allocs == vec![node], Pool, "with all {} inline nodes used, a push requests {:?} instead of one node {node:?}", L::N, c.allocs);
        }
        check!(c.frees.is_empty(), Alloc, "a push released {:?}", c.frees);
        let at = unsafe { if back { (*(self.at.as_ptr() as *const RList)).node.prev } else { (*(self.at.as_ptr() as *const RList)).node.next } } as usize;
        if back {
            self.items.push_back((it, at));
        } else {
            self.items.push_front((it, at));
        }
        self.inline += self.inside(at) as usize;
        check!(self.inside(at) == (inline < L::N), Pool, "the new node is {} with {inline} of {} inline nodes used before", if self.inside(at) { "inline" } else { "not inline" }, L::N);
    }

    fn pop(&mut self, back: bool) {
        op_start();
        let g = A::GLOBAL;
        let l = unsafe { self.at.assume_init_mut() };
        let (got, want) = if back {
            (must("pop_back", || tracked(g, || l.pop_back())), self.items.pop_back())
        } else {
            (must("pop_front", || tracked(g, || l.pop_front())), self.items.pop_front())
        };
        handed(if back { "pop_back" } else { "pop_front" }, got.flatten(), want.map(|w| w.0));
        if want.is_some_and(|w| self.inside(w.1)) {
            self.inline -= 1;
        }
        let c = cx();
        let node = (size_of::<RLNode<E>>(), align_of::<RLNode<E>>());
        let frees = match want {
            Some((_, at)) if !self.inside(at) => vec![node],
            _ => vec![],
        };
        check!(c.frees == frees, Pool, "removing {} node released {:?} instead of {frees:?}", if frees.is_empty() { "an inline (or no)" } else { "an overflow" }, c.frees);
        check!(c.allocs.is_empty(), Alloc, "a pop requested {:?}", c.allocs);
    }

    fn full(&mut self) {
        let n = self.items.len();
        let max_steps = n + 2;
        let owner = self.owner;
        let mut items: Vec<It> = self.items.iter().map(|i| i.0).collect();
        let addrs: Vec<usize> = self.items.iter().map(|i| i.1).collect();
        let inside: Vec<bool> = addrs.iter().map(|&a| self.inside(a)).collect();
        let (lo, hi) = (self.at.as_ptr() as usize, self.at.as_ptr() as usize + size_of::<L>());
        let l = self.l();
        check!(l.lens().iter().all(|&x| x == n), Semantic, "len and size are {:?} instead of {n}", l.lens());
        check!(l.empties().iter().all(|&x| x == (n == 0)), Semantic, "is_empty/empty are {:?} with {n} elements", l.empties());
        lent("front", l.front(), items.clone().first_mut());
        lent("back", l.back(), items.clone().last_mut());
        lent("front_mut", l.front_mut().map(|e| &*e), items.clone().first_mut());
        lent("back_mut", l.back_mut().map(|e| &*e), items.clone().last_mut());
        // iteration
        {
            let mut it = l.iter();
            for k in 0..=n {
                check!(it.size_hint() == (n - k, Some(n - k)), Iter, "size_hint is {:?} with {} elements left", it.size_hint(), n - k);
                match it.next() {
                    Some(e) => {
                        if k == n {
                            bad!(Iter, "iteration goes on after {n} elements");
                            break;
                        }
                        check!(e.is(&items[k]), Iter, "iteration yields another element at {k}");
                        check!(e as *const E as usize == addrs[k] + std::mem::offset_of!(RLNode<E>, val), Layout, "the element at {k} is not in its node");
                    }
                    None => {
                        check!(k == n, Iter, "iteration ends after {k} of {n} elements");
                        break;
                    }
                }
            }
            check!(it.next().is_none(), Iter, "iteration goes on after its end");
            check!(it.size_hint() == (0, Some(0)), Iter, "size_hint after the end is {:?}", it.size_hint());
        }
        {
            let mut it = l.iter_mut();
            for k in 0..=n {
                check!(it.size_hint() == (n - k, Some(n - k)), Iter, "size_hint of iter_mut is {:?} with {} elements left", it.size_hint(), n - k);
                match it.next() {
                    Some(e) if k < n => check!(e.is(&items[k]), Iter, "iter_mut yields another element at {k}"),
                    Some(_) => {
                        bad!(Iter, "iter_mut goes on after {n} elements");
                        break;
                    }
                    None => {
                        check!(k == n, Iter, "iter_mut ends after {k} of {n} elements");
                        break;
                    }
                }
            }
            check!(it.next().is_none(), Iter, "iter_mut goes on after its end");
        }
        if n <= 8 || n > 100 {
            let vals: Vec<usize> = addrs.iter().map(|a| a + std::mem::offset_of!(RLNode<E>, val)).collect();
            super::inherited("iter()", &vals, &mut || l.iter(), &|e| e as *const E as usize);
            let l = &mut *l as *mut _;
            super::inherited("iter_mut()", &vals, &mut || L::iter_mut(unsafe { &mut *l }), &|e| e as *mut E as usize);
        }
        if n <= 8 {
            let want = format!("{:?}", items.iter().map(|i| (i.val as u64 % E::VALS) as u32).collect::<Vec<_>>());
            let got = l.debug();
            check!(got == want, Semantic, "Debug prints {got} instead of {want}");
        }
        // the links
        unsafe {
            let r = &*(lo as *const RList);
            let s = lo as *const RBase;
            check!(r.size as usize == n, Layout, "the size in memory is {} instead of {n}", r.size);
            let mut p = r.node.next;
            let mut fwd = vec![];
            while p != s && fwd.len() < max_steps {
                let a = p as usize;
                if !(a >= lo && a + size_of::<RLNode<E>>() <= hi) && cx().live_block_at(a).is_none() {
                    bad!(Layout, "after {} nodes forward, a link leads to something that is no node", fwd.len());
                    return;
                }
                fwd.push(a);
                p = (*p).next;
            }
            check!(fwd == addrs, Layout, "walking forward visits {} nodes, others than the {n} nodes in order", fwd.len());
            let known: std::collections::HashSet<usize> = addrs.iter().copied().collect();
            let visited: std::collections::HashSet<usize> = fwd.iter().copied().collect();
            let mut in_buffer: Vec<usize> = addrs.iter().copied().filter(|a| *a >= lo && *a < hi).collect();
            in_buffer.sort();
            for w in in_buffer.windows(2) {
                check!(w[1] - w[0] >= size_of::<RLNode<E>>(), Pool, "two live elements share a node");
            }
            let mut p = r.node.prev;
            let mut bwd = vec![];
            while p != s && bwd.len() < max_steps {
                let a = p as usize;
                if !known.contains(&a) {
                    bad!(Layout, "after {} nodes backward, a link leads to something that is no node", bwd.len());
                    return;
                }
                bwd.push(a);
                p = (*p).prev;
            }
            bwd.reverse();
            check!(bwd == addrs, Layout, "walking backward does not visit the same {n} nodes in the opposite order");
            for k in 0..n {
                if !visited.contains(&addrs[k]) {
                    continue;
                }
                let node = &*(addrs[k] as *const RLNode<E>);
                check!(node.val.is(&items[k]), Layout, "the node at {k} holds another element");
                check!(addrs[k] % align_of::<RLNode<E>>() == 0, Pool, "a node is at an address that is not aligned to {}", align_of::<RLNode<E>>());
                if inside[k] {
                    check!(addrs[k] >= lo + size_of::<RList>() && addrs[k] + size_of::<RLNode<E>>() <= hi, Pool, "an inline node lies outside the buffer");
                } else if let Some(b) = cx().live_block_at(addrs[k]) {
                    check!(
                        b.size == size_of::<RLNode<E>>() && b.align == align_of::<RLNode<E>>() && b.owner == owner,
                        Alloc,
                        "a node is a block of {} bytes aligned {}",
                        b.size,
                        b.align
                    );
                }
            }
            let outside = inside.iter().filter(|i| !**i).count();
            check!(cx().live_blocks == outside, Pool, "{} nodes from the allocator for {outside} elements outside of the buffer", cx().live_blocks);
        }
        items.clear();
    }
}

impl<E: Elem, A: TestAlloc, L: Lst<E, A>> System for ListSys<E, A, L> {
    fn ops(&self, lvl: u8, out: &mut Vec<Op>) {
        let n = self.items.len();
        if n < self.max {
            out.push(op(PUSH_B, 0, 0));
            out.push(op(PUSH_F, 0, 0));
        }
        out.push(op(POP_B, 0, 0));
        out.push(op(POP_F, 0, 0));
        if lvl == 1 {
            return;
        }
        out.push(op(CLEAR, 0, 0));
        out.push(op(WRITE, 0, 0));
        out.push(op(WRITE, 1, 0));
        out.push(op(WRITE_ALL, 0, 0));
        if lvl == 3 {
            for w in 0..3 {
                out.push(op(FILL, 100, w));
                out.push(op(DRAIN, n as u32 / 2, w));
                out.push(op(DRAIN, n as u32 + 1, w));
            }
            out.push(op(SLIDE, n as u32 + 3, 0));
        }
        if L::EXTEND {
            for k in if lvl == 3 { [1, 100, 1000] } else { [0, 1, 3] } {
                if n + k <= self.max {
                    out.push(op(EXTEND, k as u32, 0));
                    out.push(op(EXTEND_REF, k as u32, 0));
                }
            }
        }
    }

    fn step(&mut self, o: Op, full: bool) {
        let g = A::GLOBAL;
        op_start();
        match o.c {
            PUSH_B => self.push(true),
            PUSH_F => self.push(false),
            POP_B => self.pop(true),
            POP_F => self.pop(false),
            EXTEND | EXTEND_REF => {
                let (v, its): (Vec<E>, Vec<It>) = (0..o.a).map(|_| self.fresh()).unzip();
                let done = if o.c == EXTEND {
                    must("extend", || self.l().extend(v))
                } else {
                    must("extend (references)", || self.l().extend_ref(&v))
                };
                if done == Some(true) {
                    // the nodes are found from the back
                    let mut at = vec![];
                    unsafe {
                        let mut p = (*(self.at.as_ptr() as *const RList)).node.prev;
                        for _ in 0..o.a {
                            at.push(p as usize);
                            if !self.inside(p as usize) && cx().live_block_at(p as usize).is_none() {
                                bad!(Layout, "extend leaves a broken link");
                                return;
                            }
                            p = (*p).prev;
                        }
                    }
                    at.reverse();
                    self.inline += at.iter().filter(|a| self.inside(**a)).count();
                    self.items.extend(its.into_iter().zip(at));
                }
            }
            CLEAR => {
                must("clear", || tracked(g, || self.l().clear()));
                let out = self.items.iter().filter(|i| !self.inside(i.1)).count();
                check!(cx().frees.len() == out, Pool, "clear released {} nodes, {out} were outside of the buffer", cx().frees.len());
                self.items.clear();
                self.inline = 0;
            }
            WRITE => {
                let (e, it) = self.fresh();
                let slot = if o.a == 0 { self.l().front_mut() } else { self.l().back_mut() };
                let old = slot.map(|s| std::mem::replace(s, e));
                let want = if o.a == 0 { self.items.front_mut() } else { self.items.back_mut() };
                let want = want.map(|w| std::mem::replace(&mut w.0, it));
                handed("front_mut/back_mut", old, want);
            }
            WRITE_ALL => {
                let n = self.items.len();
                let news: Vec<(E, It)> = (0..n).map(|_| self.fresh()).collect();
                let mut olds = vec![];
                let mut its = vec![];
                {
                    let mut news = news.into_iter();
                    let l = unsafe { self.at.assume_init_mut() };
                    for s in l.iter_mut() {
                        let Some((e, it)) = news.next() else { break };
                        olds.push(std::mem::replace(s, e));
                        its.push(it);
                    }
                }
                for (k, (old, it)) in olds.into_iter().zip(its).enumerate() {
                    let want = std::mem::replace(&mut self.items[k].0, it);
                    handed("iter_mut", Some(old), Some(want));
                }
            }
            FILL => {
                for k in 0..o.a {
                    self.push(o.b == 0 || (o.b == 2 && k % 2 == 0));
                }
            }
            DRAIN => {
                for k in 0..o.a {
                    self.pop(o.b == 0 || (o.b == 2 && k % 2 == 0));
                }
            }
            SLIDE => {
                for _ in 0..o.a {
                    self.push(true);
                    self.pop(false);
                }
            }
            _ => {}
        }
        if full {
            self.full();
        }
    }

    fn key(&self, out: &mut Vec<u8>) {
        let base = self.at.as_ptr() as usize;
        out.extend((self.items.len() as u32).to_le_bytes());
        if L::N == 0 {
            return;
        }
        for (_, a) in &self.items {
            out.extend(if self.inside(*a) { (*a - base) as u32 } else { u32::MAX }.to_le_bytes());
        }
        // the pool: free nodes in order, and where fresh memory starts
        unsafe {
            let pool = (base + size_of::<RList>()) as *const usize;
            let mut p = *pool;
            let mut k = 0;
            while p != 0 && k <= L::N && self.inside(p) {
                out.extend(((p - base) as u32).to_le_bytes());
                p = *(p as *const usize);
                k += 1;
            }
            out.extend((*pool.add(1)).wrapping_sub(base).to_le_bytes());
        }
    }

    fn end(mut self: Box<Self>) {
        tracked(A::GLOBAL, || unsafe { self.at.assume_init_drop() });
    }

    fn show(&self, o: Op) -> String {
        match o.c {
            PUSH_B => "push_back".into(),
            PUSH_F => "push_front".into(),
            POP_B => "pop_back".into(),
            POP_F => "pop_front".into(),
            EXTEND => format!("extend by {}", o.a),
            EXTEND_REF => format!("extend by references to {}", o.a),
            CLEAR => "clear".into(),
            WRITE => format!("write through {}", if o.a == 0 { "front_mut" } else { "back_mut" }),
            WRITE_ALL => "replace every element through iter_mut".into(),
            FILL => format!("push x{} ({})", o.a, ["back", "front", "alternating"][o.b as usize % 3]),
            DRAIN => format!("pop x{} ({})", o.a, ["back", "front", "alternating"][o.b as usize % 3]),
            SLIDE => format!("push_back and pop_front x{}", o.a),
            _ => "-".into(),
        }
    }
}
