//! `Deque` and `Queue`.

use super::{handed, own_call, lent, must, word};
use crate::alloc::{tracked, TestAlloc};
use crate::explore::{op, Op, System};
use crate::rt::{cx, op_start};
use crate::tok::*;
use eastl_rs::deque::iter::{CompatIter, Iter, IterMut};
use eastl_rs::{Deque, Queue};
use std::collections::VecDeque;
use std::mem::{align_of, size_of};

pub const PUSH_B: u32 = 1;
pub const PUSH_F: u32 = 2;
pub const POP_B: u32 = 3;
pub const POP_F: u32 = 4;
pub const REMOVE: u32 = 5;
pub const WRITE_FRONT: u32 = 6;
pub const WRITE_BACK: u32 = 7;
pub const WRITE: u32 = 8;
pub const FILL_B: u32 = 9;
pub const FILL_F: u32 = 10;
pub const DRAIN_B: u32 = 11;
pub const DRAIN_F: u32 = 12;
pub const REBUILD: u32 = 13;
pub const INTO_ITER: u32 = 14;
/// some calls of next, then one of the calls the iterator inherits
pub const INTO_CALL: u32 = 40;
pub const INTO_INNER: u32 = 15;
/// push one and pop one, many times
pub const SLIDE: u32 = 16;
/// the same towards the front
pub const SLIDE_R: u32 = 17;
/// the storage of the (empty, new) deque is replaced by one that C++ might have made
pub const ADOPT: u32 = 18;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// pushes and pops at either end only
    Ends,
    /// also removals at every index
    Remove,
    /// the iterators from every state, every interleaving
    Iterate,
    /// small alphabet, for histories that are not merged
    Few,
    /// everything at selected places, from chosen long histories
    Large,
    /// the first operation gives it a representation that C++ could have made
    Adopt,
}

#[derive(Clone, Copy)]
pub struct Lim {
    pub len: usize,
    pub ptrs: usize,
    pub mode: Mode,
}

/// EASTL's `DEQUE_DEFAULT_SUBARRAY_SIZE`.
pub fn subarray<E>() -> usize {
    match size_of::<E>() {
        0..=4 => 64,
        5..=8 => 32,
        9..=16 => 16,
        17..=32 => 8,
        _ => 4,
    }
}

pub fn show_op(o: Op) -> String {
    match o.c {
        PUSH_B => "push_back".into(),
        PUSH_F => "push_front".into(),
        POP_B => "pop_back".into(),
        POP_F => "pop_front".into(),
        REMOVE => format!("remove {}", o.a as i32 as i64),
        WRITE_FRONT => "write through front_mut".into(),
        WRITE_BACK => "write through back_mut".into(),
        WRITE => format!("write element {} through iter_mut ({})", o.a, if o.b == 0 { "forward" } else { "backward" }),
        FILL_B => format!("push_back x{}", o.a),
        FILL_F => format!("push_front x{}", o.a),
        DRAIN_B => format!("pop_back x{}", o.a),
        DRAIN_F => format!("pop_front x{}", o.a),
        REBUILD => format!("replace by from_iter of {}", o.a),
        INTO_CALL => format!("into_iter, {} calls of next, {}", o.a, super::show_own(o.b)),
        INTO_ITER => format!("into_iter, {} calls {:b} (0 front, 1 back), rest dropped", o.a, o.b),
        INTO_INNER => "into_inner, read the deque, start again".into(),
        SLIDE => format!("(push, pop) x{}", o.a),
        SLIDE_R => format!("(push_front, pop_back) x{}", o.a),
        ADOPT => format!("as C++ may hand it over: {} map slots, from element {} of slot {} to element {} of slot {}", o.a & 0xFF, o.b & 0xFFFF, o.a >> 8 & 0xFF, o.b >> 16, o.a >> 16),
        0 => "-".into(),
        _ => format!("{o:?}"),
    }
}

fn key_of<E, T>(d: &T, out: &mut Vec<u8>) {
    unsafe {
        let arr = word(d, 0);
        let n = word(d, 1) as u32;
        out.extend(n.to_le_bytes());
        for base in [2usize, 6] {
            let (cur, beg, end, ca) = (word(d, base), word(d, base + 1), word(d, base + 2), word(d, base + 3));
            out.extend((ca.wrapping_sub(arr) as u32).to_le_bytes());
            out.extend((cur.wrapping_sub(beg) as u32).to_le_bytes());
            out.extend((end.wrapping_sub(beg) as u32).to_le_bytes());
        }
        let _ = size_of::<E>();
    }
}

/// The elements between two compatibility iterators, by EASTL's own rule.
unsafe fn eastl_walk<E: Elem>(b: [usize; 4], e: [usize; 4], limit: usize) -> Vec<*const E> {
    let mut v = Vec::new();
    let [mut cur, _, mut end, mut arr] = b;
    let sub = subarray::<E>();
    while cur != e[0] && v.len() <= limit {
        v.push(cur as *const E);
        cur += size_of::<E>();
        if cur == end {
            arr += 8;
            let beg = *(arr as *const usize);
            end = beg + sub * size_of::<E>();
            cur = beg;
        }
    }
    v
}

/// The same, from the end towards the front.
unsafe fn eastl_walk_back<E: Elem>(b: [usize; 4], e: [usize; 4], limit: usize) -> Vec<*const E> {
    let mut v = Vec::new();
    let [mut cur, mut beg, _, mut arr] = e;
    let sub = subarray::<E>();
    while cur != b[0] && v.len() <= limit {
        if cur == beg {
            arr -= 8;
            beg = *(arr as *const usize);
            cur = beg + sub * size_of::<E>();
        }
        cur -= size_of::<E>();
        v.push(cur as *const E);
    }
    v.reverse();
    v
}

/// A pair of compatibility iterators describes exactly `rest`, and each obeys EASTL's invariant.
unsafe fn compat_pair<E: Elem>(what: &str, b: [usize; 4], e: [usize; 4], rest: &[It]) -> bool {
    for (name, it) in [("first", b), ("second", e)] {
        let beg = *(it[3] as *const usize);
        let end = beg.wrapping_add(subarray::<E>() * size_of::<E>());
        if it[1] != beg || it[2] != end || it[0] < beg || it[0] >= end {
            bad!(Compat, "{what}: the {name} iterator is not one EASTL could have made: current at {} of its subarray, begin {}, end {} bytes from where its map slot says", it[0].wrapping_sub(beg) as isize, it[1].wrapping_sub(beg) as isize, it[2].wrapping_sub(end) as isize);
            return false;
        }
    }
    let v = eastl_walk::<E>(b, e, rest.len() + 1);
    check!(same_ptrs(&v, rest), Compat, "{what} describes {} elements, not the {} that are left", v.len(), rest.len());
    if v.len() != rest.len() {
        return false;
    }
    let w = eastl_walk_back::<E>(b, e, rest.len() + 1);
    check!(w == v, Compat, "{what} describes other elements backward than forward");
    w == v
}

unsafe fn four<T>(t: &T) -> [usize; 4] {
    [word(t, 0), word(t, 1), word(t, 2), word(t, 3)]
}

fn same_ptrs<E: Elem>(v: &[*const E], want: &[It]) -> bool {
    v.len() == want.len() && v.iter().zip(want).all(|(p, w)| unsafe { (**p).is(w) })
}

/// The raw memory of a deque, decoded as EASTL would.
fn layout<E: Elem, T>(d: &T, want: &[It], global: bool) {
    let sub = subarray::<E>();
    let sz = size_of::<E>();
    unsafe {
        let (arr, n) = (word(d, 0), word(d, 1) as u32 as usize);
        let b = [word(d, 2), word(d, 3), word(d, 4), word(d, 5)];
        let e = [word(d, 6), word(d, 7), word(d, 8), word(d, 9)];
        let c = cx();
        match c.live_block_at(arr) {
            Some(blk) => {
                check!(blk.size == n * 8, Layout, "the map is a block of {} bytes for {n} pointers", blk.size);
                check!((blk.owner == 0xD0) == global, Alloc, "the map comes from the wrong allocator");
            }
            None => {
                bad!(Layout, "the map is not a live block");
                return;
            }
        }
        for (name, it) in [("begin", b), ("end", e)] {
            if it[3] < arr || it[3] >= arr + 8 * n || (it[3] - arr) % 8 != 0 {
                bad!(Layout, "the {name} iterator's map slot lies outside of the map");
                return;
            }
            let beg = *(it[3] as *const usize);
            check!(it[1] == beg, Layout, "the {name} iterator's subarray is not the one in its map slot");
            check!(it[2] == beg.wrapping_add(sub * sz), Layout, "the {name} iterator's subarray has {} bytes, EASTL's has {sub} elements of {sz}", it[2].wrapping_sub(beg));
            check!(it[0] >= it[1] && it[0] < it[2] && (it[0] - it[1]) % sz == 0, Layout, "the {name} iterator does not point into its subarray");
        }
        if b[3] > e[3] {
            bad!(Layout, "begin lies behind end in the map");
            return;
        }
        let mut slot = b[3];
        while slot <= e[3] {
            let s = *(slot as *const usize);
            match c.live_block_at(s) {
                Some(blk) => check!(blk.size == sub * sz && blk.align == align_of::<E>(), Layout, "a subarray is a block of {} bytes aligned {}", blk.size, blk.align),
                None => {
                    bad!(Layout, "a map slot between begin and end does not point to a live subarray");
                    return;
                }
            }
            slot += 8;
        }
        let v = eastl_walk::<E>(b, e, want.len() + 1);
        check!(same_ptrs(&v, want), Layout, "walking the memory as EASTL does gives {} elements that are not the content", v.len());
    }
}

/// Every way of iterating that does not change the content. `mk` and `mk_mut` make iterators.
fn iterate<'a, E: Elem>(mk: &dyn Fn() -> Iter<'a, E>, mk_mut: &mut dyn FnMut() -> IterMut<'a, E>, want: &[It], deep: bool) {
    let n = want.len();
    let run = |calls: &mut dyn Iterator<Item = bool>, it: &mut dyn FnMut(bool) -> Option<*const E>, what: &str| {
        let (mut lo, mut hi) = (0, n);
        let mut extra = 0;
        for back in calls {
            let got = it(back);
            let w = if lo < hi {
                Some(if back {
                    hi -= 1;
                    &want[hi]
                } else {
                    lo += 1;
                    &want[lo - 1]
                })
            } else {
                extra += 1;
                None
            };
            match (got, w) {
                (None, None) => {}
                (Some(p), Some(w)) => check!(unsafe { (*p).is(w) }, Iter, "{what} yields another element than the one with value {}", w.val),
                (g, _) => {
                    bad!(Iter, "{what} yields {} with {} of {n} left", if g.is_some() { "an element" } else { "None" }, hi - lo);
                    return;
                }
            }
            if extra > 3 {
                break;
            }
        }
    };
    let pats: Vec<Vec<bool>> = {
        let mut p = vec![vec![false; n + 2], vec![true; n + 2], (0..n + 3).map(|i| i % 2 == 0).collect(), (0..n + 3).map(|i| i % 3 != 1).collect()];
        if deep && n <= 7 {
            p = (0..1u32 << (n + 2)).map(|b| (0..n + 2).map(|i| b >> i & 1 == 1).collect()).collect();
        } else if deep {
            for k in 0..=n {
                p.push((0..n + 2).map(|i| i >= k).collect());
                p.push((0..n + 2).map(|i| i < k).collect());
            }
        }
        p
    };
    for p in &pats {
        let mut it = mk();
        run(&mut p.iter().copied(), &mut |b| if b { it.next_back() } else { it.next() }.map(|e| e as *const E), "iter()");
        let mut it = mk_mut();
        run(&mut p.iter().copied(), &mut |b| if b { it.next_back() } else { it.next() }.map(|e| e as *const E), "iter_mut()");
    }
    if n <= 6 || deep {
        let addrs: Vec<usize> = mk().take(n + 1).map(|e| e as *const E as usize).collect();
        super::inherited("iter()", &addrs, &mut || mk(), &|e| e as *const E as usize);
        super::inherited_back("iter()", &addrs, &mut || mk(), &|e| e as *const E as usize);
        super::inherited("iter_mut()", &addrs, &mut || mk_mut(), &|e| e as *mut E as usize);
        super::inherited_back("iter_mut()", &addrs, &mut || mk_mut(), &|e| e as *mut E as usize);
    }
    // partly consumed iterators across the language boundary
    let ks: Vec<usize> = if deep && n <= 20 { (0..=n).collect() } else { let mut v = vec![0, 1, n / 2, n.saturating_sub(1), n]; v.retain(|k| *k <= n); v.dedup(); v };
    for &k in &ks {
        for &j in &ks {
            if k + j > n || (n > 200 && (k > 1 || j > 1) && k + j != n / 2) {
                continue;
            }
            let rest = &want[k..n - j];
            let mut it = mk();
            for _ in 0..k {
                it.next();
            }
            for _ in 0..j {
                it.next_back();
            }
            let (b, e) = it.into_compat();
            unsafe {
                if compat_pair::<E>(&format!("after {k} calls from the front and {j} from the back of {n}, into_compat"), four(&b), four(&e), rest) {
                    let mut got = Vec::new();
                    for x in Iter::from_compat(b, e) {
                        got.push(x as *const E);
                        if got.len() > n + 1 {
                            break;
                        }
                    }
                    check!(same_ptrs(&got, rest), Compat, "from_compat(into_compat()) yields {} elements, not the {} that are left", got.len(), rest.len());
                }
            }
            for variant in 0..4 {
                let mut it = mk_mut();
                for _ in 0..k {
                    it.next();
                }
                for _ in 0..j {
                    it.next_back();
                }
                unsafe {
                    if variant == 0 {
                        let (b, e) = it.into_compat();
                        compat_pair::<E>(&format!("after {k} calls from the front and {j} from the back of {n}, IterMut::into_compat"), four(&b), four(&e), rest);
                    } else if variant > 1 {
                        let (b, e) = it.into_compat_mut();
                        let (b, e): (CompatIter<E>, CompatIter<E>) = if variant == 2 { (b.into(), e.into()) } else { ((&b).into(), (&e).into()) };
                        if compat_pair::<E>(&format!("after {k} calls from the front and {j} from the back of {n}, into_compat_mut made shared"), four(&b), four(&e), rest) {
                            let mut got: Vec<*const E> = Iter::from_compat(b, e).map(|x| x as *const E).take(n + 1).collect();
                            got.truncate(n + 1);
                            check!(same_ptrs(&got, rest), Compat, "Iter::from_compat of pairs made shared yields {} elements, not the {} that are left", got.len(), rest.len());
                        }
                    } else {
                        let (b, e) = it.into_compat_mut();
                        if compat_pair::<E>(&format!("after {k} calls from the front and {j} from the back of {n}, into_compat_mut"), four(&b), four(&e), rest) {
                            let mut got = Vec::new();
                            let mut it = IterMut::from_compat(b, e);
                            while let Some(x) = it.next_back() {
                                got.push(x as *const E);
                                if got.len() > n + 1 {
                                    break;
                                }
                            }
                            got.reverse();
                            check!(same_ptrs(&got, rest), Compat, "IterMut::from_compat yields {} elements backward, not the {} that are left", got.len(), rest.len());
                        }
                    }
                }
            }
        }
    }
}

pub fn into_calls(n: usize, out: &mut Vec<Op>) {
    for k in if n <= 4 { (0..=n).collect() } else { vec![0, 1, n / 2, n - 1] } {
        for c in 0..super::OWN_CALLS {
            out.push(op(INTO_CALL, k as u32, c));
        }
    }
}

/// Consumes an owning iterator by a pattern; the rest is dropped with it.
fn own<E: Elem, I: DoubleEndedIterator<Item = E>>(mut it: I, items: &mut VecDeque<It>, o: Op, global: bool) {
    for k in 0..o.a {
        let back = o.c == INTO_ITER && o.b >> (k % 32) & 1 == 1;
        let got = tracked(global, || if back { it.next_back() } else { it.next() });
        let want = if back { items.pop_back() } else { items.pop_front() };
        match (got, want) {
            (None, None) => {}
            (Some(g), Some(w)) => check!(g.is(&w), Iter, "into_iter yields another element than the one with value {}", w.val),
            (g, w) => bad!(Iter, "into_iter yields {}, expected {}", if g.is_some() { "an element" } else { "None" }, if w.is_some() { "an element" } else { "None" }),
        }
    }
    if o.c == INTO_CALL {
        own_call(it, items, o.b, |it| tracked(global, || drop(it)));
        items.clear();
        return;
    }
    let drops = cx().drops;
    must("dropping the iterator", || tracked(global, || drop(it)));
    if E::TRACKED {
        check!(cx().drops - drops == items.len() as u64, Iter, "dropping the owning iterator dropped {} elements instead of {}", cx().drops - drops, items.len());
    }
    items.clear();
}

/// The interesting indices of a sequence of `n`, one past the end included.
pub fn places(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n / 3, n / 2, (n / 2).saturating_sub(1), n.saturating_sub(2), n.saturating_sub(1), n];
    v.retain(|i| *i <= n);
    v.sort();
    v.dedup();
    v
}

/// The representations: map size, first and last slot in use, place of the first element and of the
/// end. EASTL's maps have at least 8 slots, and any number above from a constructor with a size.
fn shapes<E>(lim: &Lim, out: &mut Vec<Op>) {
    let sub = subarray::<E>();
    let offs: Vec<usize> = if sub <= 4 { (0..sub).collect() } else { vec![0, 1, sub / 2, sub - 2, sub - 1] };
    for n in [8, 9, 11, 18] {
        if n > lim.ptrs {
            continue;
        }
        let slots: Vec<usize> = if n <= 9 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
        for &s in &slots {
            for &t in slots.iter().filter(|t| **t >= s) {
                for &bo in &offs {
                    for &eo in &offs {
                        if (s == t && eo < bo) || (t - s) * sub + eo - bo.min((t - s) * sub + eo) > lim.len {
                            continue;
                        }
                        out.push(op(ADOPT, (n | s << 8 | t << 16) as u32, (bo | eo << 16) as u32));
                    }
                }
            }
        }
    }
}

/// Gives a new deque or queue the representation `o`; what it had is released as C++ would.
unsafe fn adopt<E: Elem, T, A: TestAlloc>(d: &mut T, o: Op, id: u32, items: &mut VecDeque<It>, fresh: &mut dyn FnMut() -> (E, It)) {
    let sub = subarray::<E>();
    let mut a = A::make(id);
    let w = d as *mut T as *mut usize;
    tracked(A::GLOBAL, || {
        a.deallocate(*w.add(3) as *mut E, sub);
        a.deallocate(*w as *mut *mut E, *w.add(1) as u32 as usize);
    });
    let (n, s, t) = ((o.a & 0xFF) as usize, (o.a >> 8 & 0xFF) as usize, (o.a >> 16) as usize);
    let (bo, eo) = ((o.b & 0xFFFF) as usize, (o.b >> 16) as usize);
    let map = tracked(A::GLOBAL, || a.allocate::<*mut E>(n));
    for i in 0..n {
        // C++ leaves the slots that are not in use as they are
        map.add(i).write((0xBAD0_0000_0000_0000 + i * 8) as *mut E);
    }
    for i in s..=t {
        let p = tracked(A::GLOBAL, || a.allocate::<E>(sub));
        map.add(i).write(p);
        for j in if i == s { bo } else { 0 }..if i == t { eo } else { sub } {
            let (e, it) = fresh();
            p.add(j).write(e);
            items.push_back(it);
        }
    }
    w.write(map as usize);
    (w.add(1) as *mut u32).write(n as u32);
    for (k, slot, o) in [(2, s, bo), (6, t, eo)] {
        let beg = *map.add(slot) as usize;
        w.add(k).write(beg + o * size_of::<E>());
        w.add(k + 1).write(beg);
        w.add(k + 2).write(beg + sub * size_of::<E>());
        w.add(k + 3).write(map.add(slot) as usize);
    }
}

pub struct DeqSys<E: Elem, A: TestAlloc> {
    d: Deque<'static, E, A>,
    items: VecDeque<It>,
    next: u32,
    lim: Lim,
    /// nothing was done to it yet
    new: bool,
}

impl<E: Elem, A: TestAlloc> DeqSys<E, A> {
    pub fn new(lim: Lim) -> Box<dyn System> {
        let d: Deque<'static, E, A> = tracked(A::GLOBAL, || if lim.len % 2 == 0 { Deque::default() } else { unsafe { Deque::new_in(A::make(3)) } });
        Box::new(DeqSys { d, items: VecDeque::new(), next: 1, lim, new: true })
    }
    fn fresh(&mut self) -> (E, It) {
        self.next += 1;
        E::mk(self.next - 1)
    }
    fn push(&mut self, back: bool) {
        let (e, it) = self.fresh();
        let d = &mut self.d;
        if back {
            must("push_back", || tracked(A::GLOBAL, || d.push_back(e)));
            self.items.push_back(it);
        } else {
            must("push_front", || tracked(A::GLOBAL, || d.push_front(e)));
            self.items.push_front(it);
        }
    }
    fn pop(&mut self, back: bool) {
        let d = &mut self.d;
        if back {
            let g = must("pop_back", || tracked(A::GLOBAL, || d.pop_back()));
            handed("pop_back", g.flatten(), self.items.pop_back());
        } else {
            let g = must("pop_front", || tracked(A::GLOBAL, || d.pop_front()));
            handed("pop_front", g.flatten(), self.items.pop_front());
        }
    }
}

impl<E: Elem, A: TestAlloc> System for DeqSys<E, A> {
    fn ops(&self, _lvl: u8, out: &mut Vec<Op>) {
        if self.lim.mode == Mode::Adopt && self.new {
            return shapes::<E>(&self.lim, out);
        }
        let n = self.items.len();
        let ptrs = unsafe { word(&self.d, 1) as u32 as usize };
        // in a map that has reached its limit, pushes stop where they would enlarge it
        let full = ptrs >= self.lim.ptrs;
        let (b, e, a) = unsafe { (word(&self.d, 5), word(&self.d, 9), word(&self.d, 0)) };
        let used = (e.wrapping_sub(b) / 8) + 1;
        let room = n < self.lim.len && !(full && used >= ptrs);
        let _ = a;
        if room {
            out.push(op(PUSH_B, 0, 0));
            out.push(op(PUSH_F, 0, 0));
        }
        out.push(op(POP_B, 0, 0));
        out.push(op(POP_F, 0, 0));
        match self.lim.mode {
            Mode::Ends => {
                for i in [0, n / 2, n.wrapping_sub(1), n] {
                    if i <= n {
                        out.push(op(REMOVE, i as u32, 0));
                    }
                }
                out.push(op(WRITE_FRONT, 0, 0));
                out.push(op(WRITE_BACK, 0, 0));
            }
            Mode::Remove => {
                for i in 0..n + 2 {
                    out.push(op(REMOVE, i as u32, 0));
                }
                out.push(op(REMOVE, u32::MAX, 0));
                for i in 0..n {
                    out.push(op(WRITE, i as u32, i as u32 % 2));
                }
                out.push(op(WRITE_FRONT, 0, 0));
                out.push(op(WRITE_BACK, 0, 0));
                for k in [0, 1, 3, 4, 5, 9] {
                    if k <= self.lim.len {
                        out.push(op(REBUILD, k as u32, 0));
                    }
                }
            }
            Mode::Iterate => {
                let pats: Vec<(usize, u32)> = if n <= 6 {
                    (0..n + 2).flat_map(|k| (0..1u32 << k).map(move |p| (k, p))).collect()
                } else {
                    [0, 1, n / 2, n, n + 1].into_iter().flat_map(|k| [0, u32::MAX, 0x5555_5555, 0x3333_3333].map(|p| (k, p))).collect()
                };
                for (k, p) in pats {
                    out.push(op(INTO_ITER, k as u32, p));
                }
                into_calls(n, out);
                for i in 0..n {
                    out.push(op(WRITE, i as u32, 0));
                    out.push(op(WRITE, i as u32, 1));
                }
            }
            Mode::Few => {
                if n > 2 {
                    out.push(op(REMOVE, (n / 2 - 1) as u32, 0));
                    out.push(op(REMOVE, (n / 2 + 1) as u32, 0));
                }
            }
            Mode::Adopt => {
                let sub = subarray::<E>();
                for i in places(n) {
                    out.push(op(REMOVE, i as u32, 0));
                }
                out.push(op(WRITE_FRONT, 0, 0));
                out.push(op(WRITE_BACK, 0, 0));
                for i in [0, n / 2, n.wrapping_sub(1)] {
                    if i < n {
                        out.push(op(WRITE, i as u32, i as u32 % 2));
                    }
                }
                for k in [sub + 1, 9 * sub] {
                    out.push(op(FILL_B, k as u32, 0));
                    out.push(op(FILL_F, k as u32, 0));
                }
                for k in [sub.min(n), n] {
                    out.push(op(DRAIN_B, k as u32, 0));
                    out.push(op(DRAIN_F, k as u32, 0));
                }
                out.push(op(SLIDE, 9 * sub as u32, 0));
                out.push(op(SLIDE_R, 9 * sub as u32, 0));
                for (k, p) in [(0, 0), (1, 1), (n / 2, 0x5555_5555), (n + 1, 0), (n + 1, u32::MAX)] {
                    out.push(op(INTO_ITER, k as u32, p));
                }
            }
            Mode::Large => {
                let sub = subarray::<E>();
                for i in places(n) {
                    out.push(op(REMOVE, i as u32, 0));
                    if i < n {
                        out.push(op(WRITE, i as u32, i as u32 % 2));
                    }
                }
                for k in [sub - 1, sub, sub + 1, 3 * sub + 1, 9 * sub] {
                    out.push(op(FILL_B, k as u32, 0));
                    out.push(op(FILL_F, k as u32, 0));
                }
                for k in [sub.min(n), n / 2, n] {
                    out.push(op(DRAIN_B, k as u32, 0));
                    out.push(op(DRAIN_F, k as u32, 0));
                }
                for k in [sub, 5 * sub + 1] {
                    out.push(op(SLIDE, k as u32, 0));
                    out.push(op(SLIDE_R, k as u32, 0));
                }
                out.push(op(REBUILD, n as u32, 0));
                for k in [0, n / 2, n + 2] {
                    for p in [0, u32::MAX, 0x5555_5555, 0x0F0F_00FF] {
                        out.push(op(INTO_ITER, k as u32, p));
                    }
                }
            }
        }
    }

    fn step(&mut self, o: Op, full: bool) {
        op_start();
        let g = A::GLOBAL;
        self.new = false;
        match o.c {
            ADOPT => {
                let (id, mut next) = (if self.lim.len % 2 == 0 { 0 } else { 3 }, self.next);
                unsafe {
                    adopt::<E, _, A>(&mut self.d, o, id, &mut self.items, &mut || {
                        next += 1;
                        E::mk(next - 1)
                    })
                };
                self.next = next;
            }
            PUSH_B | PUSH_F => self.push(o.c == PUSH_B),
            POP_B | POP_F => self.pop(o.c == POP_B),
            FILL_B | FILL_F => (0..o.a).for_each(|_| self.push(o.c == FILL_B)),
            DRAIN_B | DRAIN_F => (0..o.a).for_each(|_| self.pop(o.c == DRAIN_B)),
            SLIDE => (0..o.a).for_each(|_| {
                self.push(true);
                self.pop(false)
            }),
            SLIDE_R => (0..o.a).for_each(|_| {
                self.push(false);
                self.pop(true)
            }),
            REMOVE => {
                let i = o.a as i32 as isize as usize;
                let d = &mut self.d;
                let got = must("remove", || tracked(g, || d.remove(i)));
                let want = if i < self.items.len() { self.items.remove(i) } else { None };
                handed("remove", got.flatten(), want);
            }
            WRITE_FRONT | WRITE_BACK => {
                let (e, it) = self.fresh();
                let (slot, m) = if o.c == WRITE_FRONT { (self.d.front_mut(), self.items.front_mut()) } else { (self.d.back_mut(), self.items.back_mut()) };
                match (slot, m) {
                    (Some(s), Some(m)) => {
                        let old = std::mem::replace(s, e);
                        handed("front_mut/back_mut", Some(old), Some(std::mem::replace(m, it)));
                    }
                    (None, None) => {}
                    (s, _) => bad!(Semantic, "front_mut/back_mut is {} with {} elements", if s.is_some() { "Some" } else { "None" }, self.items.len()),
                }
            }
            WRITE => {
                let n = self.items.len();
                let (e, it) = self.fresh();
                let i = o.a as usize;
                let slot = if o.b == 0 { self.d.iter_mut().nth(i) } else { self.d.iter_mut().rev().nth(n - 1 - i) };
                match slot {
                    Some(s) => {
                        let old = std::mem::replace(s, e);
                        handed("iter_mut", Some(old), Some(std::mem::replace(&mut self.items[i], it)));
                    }
                    None => bad!(Iter, "iter_mut ends before element {i} of {n}"),
                }
            }
            REBUILD => {
                let (src, its): (Vec<E>, Vec<It>) = (0..o.a).map(|_| self.fresh()).unzip();
                let mut src: Vec<Option<E>> = src.into_iter().map(Some).collect();
                let d = must("from_iter", || tracked(g, || src.iter_mut().map(|e| e.take().unwrap()).collect::<Deque<'static, E, A>>()));
                if let Some(d) = d {
                    let old = std::mem::replace(&mut self.d, d);
                    tracked(g, || drop(old));
                    self.items = its.into();
                }
            }
            INTO_ITER | INTO_CALL => {
                let d = std::mem::replace(&mut self.d, tracked(g, Deque::new));
                own(d.into_iter(), &mut self.items, o, g);
            }
            _ => {}
        }
        if full {
            let n = self.items.len();
            let items = self.items.make_contiguous();
            let d = &mut self.d;
            check!(d.len() == n, Semantic, "len is {} instead of {n}", d.len());
            check!(d.is_empty() == (n == 0), Semantic, "is_empty is {} with {n} elements", d.is_empty());
            lent("front", d.front(), items.first_mut());
            lent("back", d.back(), items.last_mut());
            lent("front_mut", d.front_mut().map(|e| &*e), items.first_mut());
            lent("back_mut", d.back_mut().map(|e| &*e), items.last_mut());
            let mut ok = true;
            let mut k = 0;
            for e in d.iter() {
                ok &= items.get(k).is_some_and(|w| e.is(w));
                k += 1;
                if k > n {
                    break;
                }
            }
            check!(ok && k == n, Semantic, "the content is not the expected {n} elements");
            if n <= 8 {
                let want = format!("[ {} ]", items.iter().map(|i| ((i.val as u64 % E::VALS) as u32).to_string()).collect::<Vec<_>>().join(", "));
                check!(format!("{d:?}") == want, Semantic, "Debug prints {d:?} instead of {want}");
            }
            layout::<E, _>(d, items, g);
            let dp: *mut Deque<'static, E, A> = d;
            iterate(&|| unsafe { (*dp).iter() }, &mut || unsafe { (*dp).iter_mut() }, items, self.lim.mode == Mode::Iterate);
        }
    }

    fn key(&self, out: &mut Vec<u8>) {
        key_of::<E, _>(&self.d, out);
        out.push((self.lim.mode == Mode::Adopt && self.new) as u8);
    }

    fn end(self: Box<Self>) {
        let d = self.d;
        tracked(A::GLOBAL, || drop(d));
    }

    fn show(&self, o: Op) -> String {
        show_op(o)
    }
}

pub struct QueueSys<E: Elem, A: TestAlloc> {
    q: Queue<'static, E, A>,
    items: VecDeque<It>,
    next: u32,
    lim: Lim,
    /// nothing was done to it yet
    new: bool,
}

impl<E: Elem, A: TestAlloc> QueueSys<E, A> {
    pub fn new(lim: Lim) -> Box<dyn System> {
        let q: Queue<'static, E, A> = tracked(A::GLOBAL, || if lim.len % 2 == 0 { Queue::default() } else { unsafe { Queue::new_in(A::make(3)) } });
        Box::new(QueueSys { q, items: VecDeque::new(), next: 1, lim, new: true })
    }
    fn fresh(&mut self) -> (E, It) {
        self.next += 1;
        E::mk(self.next - 1)
    }
    fn push(&mut self) {
        let (e, it) = self.fresh();
        let q = &mut self.q;
        must("push", || tracked(A::GLOBAL, || q.push(e)));
        self.items.push_back(it);
    }
    fn pop(&mut self) {
        let q = &mut self.q;
        let g = must("pop", || tracked(A::GLOBAL, || q.pop()));
        handed("pop", g.flatten(), self.items.pop_front());
    }
}

impl<E: Elem, A: TestAlloc> System for QueueSys<E, A> {
    fn ops(&self, _lvl: u8, out: &mut Vec<Op>) {
        if self.lim.mode == Mode::Adopt && self.new {
            return shapes::<E>(&self.lim, out);
        }
        let n = self.items.len();
        if n < self.lim.len {
            out.push(op(PUSH_B, 0, 0));
        }
        out.push(op(POP_F, 0, 0));
        #[allow(clippy::single_match)]
        match self.lim.mode {
            Mode::Few => {
                if n + 5 <= self.lim.len {
                    out.push(op(FILL_B, 5, 0));
                }
                if n >= 3 {
                    out.push(op(DRAIN_F, 3, 0));
                }
            }
            _ => {
                if self.lim.mode == Mode::Large {
                    let sub = subarray::<E>();
                    for k in [sub, 3 * sub + 1, 9 * sub] {
                        out.push(op(FILL_B, k as u32, 0));
                    }
                    for k in [sub.min(n), n / 2, n] {
                        out.push(op(DRAIN_F, k as u32, 0));
                    }
                    for k in [sub, 20 * sub + 1] {
                        out.push(op(SLIDE, k as u32, 0));
                    }
                    out.push(op(REBUILD, n as u32, 0));
                }
                for i in [0, n / 2, n.wrapping_sub(1)] {
                    if i < n {
                        out.push(op(WRITE, i as u32, 0));
                        out.push(op(WRITE, i as u32, 1));
                    }
                }
                out.push(op(INTO_INNER, 0, 0));
                for k in [0, 1, 4, 7] {
                    if k <= self.lim.len {
                        out.push(op(REBUILD, k as u32, 0));
                    }
                }
                for (k, p) in [(0, 0), (1, 0), (1, 1), (n, 0), (n + 1, 0), (n + 1, u32::MAX), (n + 1, 0x5555_5555)] {
                    out.push(op(INTO_ITER, k as u32, p));
                }
                into_calls(n, out);
            }
        }
    }

    fn step(&mut self, o: Op, full: bool) {
        op_start();
        let g = A::GLOBAL;
        self.new = false;
        match o.c {
            ADOPT => {
                let (id, mut next) = (if self.lim.len % 2 == 0 { 0 } else { 3 }, self.next);
                unsafe {
                    adopt::<E, _, A>(&mut self.q, o, id, &mut self.items, &mut || {
                        next += 1;
                        E::mk(next - 1)
                    })
                };
                self.next = next;
            }
            PUSH_B => self.push(),
            POP_F => self.pop(),
            FILL_B => (0..o.a).for_each(|_| self.push()),
            DRAIN_F => (0..o.a).for_each(|_| self.pop()),
            SLIDE => (0..o.a).for_each(|_| {
                self.push();
                self.pop()
            }),
            WRITE => {
                let n = self.items.len();
                let (e, it) = self.fresh();
                let i = o.a as usize;
                let slot = if o.b == 0 { self.q.iter_mut().nth(i) } else { self.q.iter_mut().rev().nth(n - 1 - i) };
                match slot {
                    Some(s) => {
                        let old = std::mem::replace(s, e);
                        handed("iter_mut", Some(old), Some(std::mem::replace(&mut self.items[i], it)));
                    }
                    None => bad!(Semantic, "iter_mut ends before element {i} of {n}"),
                }
            }
            REBUILD => {
                let (src, its): (Vec<E>, Vec<It>) = (0..o.a).map(|_| self.fresh()).unzip();
                let mut src: Vec<Option<E>> = src.into_iter().map(Some).collect();
                let q = must("from_iter", || tracked(g, || src.iter_mut().map(|e| e.take().unwrap()).collect::<Queue<'static, E, A>>()));
                if let Some(q) = q {
                    let old = std::mem::replace(&mut self.q, q);
                    tracked(g, || drop(old));
                    self.items = its.into();
                }
            }
            INTO_ITER | INTO_CALL => {
                let q = std::mem::replace(&mut self.q, tracked(g, Queue::default));
                own(q.into_iter(), &mut self.items, o, g);
            }
            INTO_INNER => {
                let q = std::mem::replace(&mut self.q, tracked(g, Queue::default));
                let d = q.into_inner();
                check!(d.len() == self.items.len() && d.iter().zip(self.items.iter()).all(|(e, w)| e.is(w)), Semantic, "into_inner gives another content");
                own(d.into_iter(), &mut self.items, op(0, 2, 0), g);
            }
            _ => {}
        }
        if full {
            let n = self.items.len();
            let items = self.items.make_contiguous();
            let q = &mut self.q;
            check!(q.len() == n, Semantic, "len is {} instead of {n}", q.len());
            check!(q.is_empty() == (n == 0), Semantic, "is_empty is {} with {n} elements", q.is_empty());
            lent("top", q.top(), items.first_mut());
            let mut ok = true;
            let mut k = 0;
            for e in q.iter() {
                ok &= items.get(k).is_some_and(|w| e.is(w));
                k += 1;
                if k > n {
                    break;
                }
            }
            check!(ok && k == n, Semantic, "the content is not the expected {n} elements");
            if n <= 8 {
                let want = format!("[ {} ]", items.iter().map(|i| ((i.val as u64 % E::VALS) as u32).to_string()).collect::<Vec<_>>().join(", "));
                check!(format!("{q:?}") == want, Semantic, "Debug prints {q:?} instead of {want}");
            }
            layout::<E, _>(q, items, g);
            let qp: *mut Queue<'static, E, A> = q;
            iterate(&|| unsafe { (*qp).iter() }, &mut || unsafe { (*qp).iter_mut() }, items, false);
        }
    }

    fn key(&self, out: &mut Vec<u8>) {
        key_of::<E, _>(&self.q, out);
        out.push((self.lim.mode == Mode::Adopt && self.new) as u8);
    }

    fn end(self: Box<Self>) {
        let q = self.q;
        tracked(A::GLOBAL, || drop(q));
    }

    fn show(&self, o: Op) -> String {
        show_op(o)
    }
}
