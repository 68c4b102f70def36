//! `DefaultAllocator`, and requests that nothing can serve.

use super::must;
use crate::alloc::{tracked, TestAlloc, TrackAlloc};
use crate::explore::{op, Op, System};
use crate::rt::{catch, cx, op_start, reset_keep_violations, Caught};
use crate::tok::*;
use eastl_rs::{Allocator, DefaultAllocator, String, Vector, VectorMap};
use std::mem::{align_of, size_of};

fn layouts(size: usize, align: usize) -> bool {
    align.is_power_of_two() && size <= isize::MAX as usize - (align - 1)
}

fn raw(a: &mut DefaultAllocator, n: usize, align: usize) -> Caught<usize> {
    op_start();
    catch(|| tracked(true, || a.allocate_raw_aligned(n, align) as usize))
}

fn served(what: &str, got: Caught<usize>, size: usize, align: usize) -> Option<usize> {
    let c = cx();
    c.tracking_global = 0;
    match got {
        Caught::Ok(p) => {
            check!(c.allocs == [(size, align)], Alloc, "{what} asks the process for {:?} instead of {size} bytes aligned {align}", c.allocs);
            check!(p != 0 && p % align == 0, Alloc, "{what} returns an address not aligned to {align}");
            let b = c.live_block_at(p);
            check!(b.is_some_and(|b| b.size == size && b.align == align), Alloc, "{what} returns something else than the block it got");
            b.map(|b| b.ptr)
        }
        Caught::Panicked(m) => {
            bad!(Alloc, "{what} panics: {m}");
            None
        }
        _ => {
            bad!(Alloc, "{what} fails with requests {:?}", c.allocs);
            None
        }
    }
}

/// Sizes `lo..hi` with every power-of-two alignment up to 64 KiB.
pub fn sizes(lo: u64, hi: u64) -> u64 {
    let mut n = 0;
    for size in lo..hi {
        let size = size as usize;
        reset_keep_violations();
        let mut a = if size % 2 == 0 { DefaultAllocator::default() } else { DefaultAllocator::new() };
        for shift in 0..=16 {
            let align = 1usize << shift;
            n += 1;
            if size == 0 {
                let r = raw(&mut a, 0, align);
                check!(matches!(r, Caught::Panicked(_)), Alloc, "a request of zero bytes aligned {align} is not refused");
                check!(cx().allocs.is_empty(), Alloc, "a request of zero bytes reaches the process");
                cx().tracking_global = 0;
                continue;
            }
            let r = raw(&mut a, size, align);
            if let Some(p) = served("allocate_raw_aligned", r, size, align) {
                release("deallocate_raw_aligned", size, align, || unsafe { a.deallocate_raw_aligned(p as *mut (), size, align) });
            }
        }
        if size > 0 {
            op_start();
            let r = catch(|| tracked(true, || a.allocate_raw(size) as usize));
            if let Some(p) = served("allocate_raw", r, size, size_of::<usize>()) {
                release("deallocate_raw", size, size_of::<usize>(), || unsafe { a.deallocate_raw(p as *mut (), size) });
            }
            n += 1;
        }
        cx().check_end();
        if cx().violations.len() > 4 {
            break;
        }
    }
    n
}

/// Raw requests of every boundary size up to 16 MiB, with alignments up to 4 MiB.
pub fn large_sizes(lo: u64, hi: u64) -> u64 {
    let mut n = 0;
    let all: Vec<usize> = boundary().into_iter().filter(|s| *s >= 4096).collect();
    for i in lo..hi {
        let size = all[i as usize % all.len()];
        let shift = (i as usize / all.len()) as u32;
        let align = 1usize << shift;
        if size > 1 << 24 || (size > 1 << 20 && shift % 5 != 0) {
            if !layouts(size, align) {
                // cannot even be described
                reset_keep_violations();
                let mut a = DefaultAllocator::default();
                let r = raw(&mut a, size, align);
                check!(matches!(r, Caught::Panicked(_)), Request, "a request of {size} bytes aligned {align} is not refused by a panic");
                check!(cx().allocs.is_empty(), Request, "a request of {size} bytes aligned {align} reaches the process as {:?}", cx().allocs);
                cx().tracking_global = 0;
                n += 1;
            }
            continue;
        }
        reset_keep_violations();
        let mut a = DefaultAllocator::default();
        let r = raw(&mut a, size, align);
        if let Some(p) = served("allocate_raw_aligned", r, size, align) {
            release("deallocate_raw_aligned", size, align, || unsafe { a.deallocate_raw_aligned(p as *mut (), size, align) });
        }
        cx().check_end();
        n += 1;
        if cx().violations.len() > 4 {
            break;
        }
    }
    n
}
pub fn large_cases() -> u64 {
    boundary().into_iter().filter(|s| *s >= 4096).count() as u64 * 23
}

fn release(what: &str, size: usize, align: usize, f: impl FnOnce()) {
    op_start();
    must(what, || tracked(true, f));
    check!(cx().frees == [(size, align)], Alloc, "{what} releases {:?} instead of {size} bytes aligned {align}", cx().frees);
    check!(cx().allocs.is_empty(), Alloc, "{what} makes a request");
}

fn boundary() -> Vec<usize> {
    let mut v: Vec<u128> = vec![];
    for s in 0..=64u32 {
        for d in -3i128..=3 {
            v.push(((1i128 << s) + d) as u128);
        }
    }
    for k in [3u128, 5, 6, 7, 9, 12, 24, 40, 48] {
        for d in 0..3 {
            v.push((1u128 << 64) / k + d);
            v.push((1u128 << 64) / k - d);
            v.push((1u128 << 63) / k + d);
            v.push((1u128 << 63) / k - d);
            v.push((1u128 << 64) * (k - 1) / k + d);
        }
    }
    let mut v: Vec<usize> = v.into_iter().filter(|&x| x <= usize::MAX as u128).map(|x| x as usize).collect();
    v.sort_unstable();
    v.dedup();
    v
}

/// What may happen to a request of `size` bytes (in 128 bits) that the process cannot serve.
fn refused(what: &str, got: &Caught<()>, size: u128, align: usize) {
    let c = cx();
    match got {
        Caught::Panicked(_) => {
            check!(c.allocs.iter().all(|&a| (a.0 as u128, a.1) == (size, align)), Request, "{what} of {size} bytes asks for {:?} before it panics", c.allocs);
            check!(
                !layouts(size.min(usize::MAX as u128) as usize, align) || size > c.max_request as u128,
                Request,
                "{what} of {size} bytes panics although it could be served"
            );
        }
        Caught::Refused(s, a) => check!((*s as u128, *a) == (size, align), Request, "{what} asks for {s} bytes aligned {a} instead of {size} aligned {align}"),
        Caught::Ok(()) => check!(
            size <= c.max_request as u128 && c.allocs == [(size as usize, align)],
            Request,
            "{what} that needs {size} bytes is served with {:?}",
            c.allocs
        ),
        Caught::Injected => {}
    }
}

/// Typed requests of every boundary count for elements of this size.
pub fn typed<T>() -> u64 {
    let mut n = 0;
    for count in boundary() {
        reset_keep_violations();
        cx().max_request = 1 << 20;
        let (size, align) = (count as u128 * size_of::<T>() as u128, align_of::<T>());
        if size == 0 {
            continue;
        }
        n += 1;
        op_start();
        let mut a = TrackAlloc::new(1);
        let p = std::cell::Cell::new(0usize);
        let r = catch(|| p.set(a.allocate::<T>(count) as usize));
        refused("a typed request", &r, size, align);
        if matches!(r, Caught::Ok(())) && cx().live_block_at(p.get()).is_some() {
            op_start();
            unsafe { a.deallocate::<T>(p.get() as *mut T, count) };
            check!(cx().frees == [(size as usize, align)], Alloc, "a typed release of {count} elements releases {:?}", cx().frees);
        }
        drop(a);
        // what the default allocator cannot even describe it refuses with a panic
        if size > isize::MAX as u128 {
            let mut d = DefaultAllocator::default();
            op_start();
            let r = catch(|| tracked(true, || p.set(d.allocate::<T>(count) as usize)));
            cx().tracking_global = 0;
            let fine = match r {
                Caught::Ok(()) => p.get() == 0,
                _ => true,
            };
            check!(fine, Request, "the default allocator serves {count} elements of {} bytes with {:?}", size_of::<T>(), cx().allocs);
            check!(cx().allocs.is_empty(), Request, "a request of {size} bytes reaches the process as {:?}", cx().allocs);
        } else if size <= cx().max_request as u128 && size < 1 << 20 {
            let mut d = DefaultAllocator::default();
            op_start();
            let r = catch(|| tracked(true, || d.allocate::<T>(count) as usize));
            if let Some(p) = served("a typed request", r, size as usize, align) {
                release("a typed release", size as usize, align, || unsafe { d.deallocate::<T>(p as *mut T, count) });
            }
            n += 1;
        }
        cx().check_end();
    }
    n
}

pub fn typed_all(_: u64, _: u64) -> u64 {
    typed::<P1>() + typed::<P2>() + typed::<P3>() + typed::<P4>() + typed::<P8>() + typed::<P16>() + typed::<T12>() + typed::<T24>() + typed::<T40>() + typed::<A16>() + typed::<A64>()
}

pub const ALLOC: u32 = 1;
pub const FREE: u32 = 2;
const SHAPES: [(usize, usize); 6] = [(1, 1), (1, 4096), (24, 8), (24, 64), (4096, 16), (65537, 1)];

/// Histories of requests and releases of the default allocator: blocks are disjoint and keep their
/// content.
pub struct DefSys {
    a: DefaultAllocator,
    live: Vec<(usize, usize, u8)>,
    max: usize,
    count: u8,
}
impl DefSys {
    pub fn new(max: usize) -> Box<dyn System> {
        Box::new(DefSys { a: DefaultAllocator::new(), live: vec![], max, count: 0 })
    }
}
impl System for DefSys {
    fn ops(&self, _: u8, out: &mut Vec<Op>) {
        if self.live.len() < self.max {
            for i in 0..SHAPES.len() {
                out.push(op(ALLOC, i as u32, 0));
            }
        }
        for i in 0..self.live.len() {
            out.push(op(FREE, i as u32, 0));
        }
    }
    fn step(&mut self, o: Op, full: bool) {
        match o.c {
            ALLOC => {
                let (s, al) = SHAPES[o.a as usize];
                let r = raw(&mut self.a, s, al);
                if let Some(p) = served("allocate_raw_aligned", r, s, al) {
                    self.count = self.count.wrapping_add(1);
                    unsafe { std::ptr::write_bytes(p as *mut u8, self.count, s) };
                    self.live.push((p, o.a as usize, self.count));
                }
            }
            FREE => {
                let (p, i, _) = self.live.remove(o.a as usize);
                let (s, al) = SHAPES[i];
                let a = &mut self.a;
                release("deallocate_raw_aligned", s, al, || unsafe { a.deallocate_raw_aligned(p as *mut (), s, al) });
            }
            _ => {}
        }
        if full {
            for &(p, i, c) in &self.live {
                let b = unsafe { std::slice::from_raw_parts(p as *const u8, SHAPES[i].0) };
                check!(b.iter().all(|&x| x == c), Alloc, "a block in use was overwritten");
            }
        }
    }
    fn key(&self, out: &mut Vec<u8>) {
        out.extend(self.live.iter().map(|l| l.1 as u8));
    }
    fn end(mut self: Box<Self>) {
        for (p, i, _) in std::mem::take(&mut self.live) {
            let (s, al) = SHAPES[i];
            let a = &mut self.a;
            release("deallocate_raw_aligned", s, al, || unsafe { a.deallocate_raw_aligned(p as *mut (), s, al) });
        }
    }
    fn show(&self, o: Op) -> std::string::String {
        match o.c {
            ALLOC => format!("allocate {} bytes aligned {}", SHAPES[o.a as usize].0, SHAPES[o.a as usize].1),
            FREE => format!("release block {}", o.a),
            _ => format!("{o:?}"),
        }
    }
}

/// `with_capacity` and `reserve` of vectors with every boundary count, at every small length and
/// capacity.
fn vector<E: Elem, A: TestAlloc>() -> u64 {
    let mut n = 0;
    let s = size_of::<E>() as u128;
    let al = align_of::<E>();
    for count in boundary() {
        // a fresh vector
        reset_keep_violations();
        if A::GLOBAL && (count as u128 * s <= isize::MAX as u128) && count as u128 * s > (1 << 20) {
            // the process would end
        } else if count as u128 * s < (1 << 24) || count as u128 * s > cx().max_request as u128 {
            op_start();
            n += 1;
            let r = catch(|| {
                let v = tracked(A::GLOBAL, || Vector::<E, A>::with_capacity(count));
                check!(v.capacity() == count && v.len() == 0, Request, "with_capacity({count}) has capacity {}", v.capacity());
                if s > 0 && cx().allocs.first().is_some_and(|a| (a.0 as u128) < count as u128 * s) {
                    // storage smaller than the capacity says: don't touch it
                }
                tracked(A::GLOBAL, || drop(v));
            });
            cx().tracking_global = 0;
            if count > 0 {
                refused("with_capacity", &r, count as u128 * s, al);
            }
        }
        for len in 0..4usize {
            for spare in 0..3usize {
                reset_keep_violations();
                let mut v = Vector::<E, A>::new_in(A::make(2));
                let cap = len + spare;
                tracked(A::GLOBAL, || v.reserve(cap));
                let mut its = vec![];
                for i in 0..len {
                    let (e, it) = E::mk(i as u32 + 10);
                    v.push(e);
                    its.push(it);
                }
                let need = (cap as u128 + count as u128) * s;
                let can_die = A::GLOBAL && need <= isize::MAX as u128 && need > (1 << 20);
                if !can_die && (need < 1 << 24 || need > cx().max_request as u128) {
                    op_start();
                    n += 1;
                    let r = catch(|| tracked(A::GLOBAL, || v.reserve(count)));
                    cx().tracking_global = 0;
                    let ok = matches!(r, Caught::Ok(()));
                    if count > 0 {
                        refused("reserve", &r, need, al);
                    }
                    let want = if ok { cap as u128 + count as u128 } else { cap as u128 };
                    check!(v.capacity() as u128 == want, Request, "after reserve({count}) at capacity {cap} the capacity is {}", v.capacity());
                    if !ok {
                        check!(cx().frees.is_empty(), Request, "a refused reserve({count}) released the storage");
                    }
                    let served_all = !ok || need <= cx().max_request as u128;
                    if served_all {
                        check!(v.len() == len && same(&v, &mut its), Request, "reserve({count}) at length {len} changed the content");
                        let (e, it) = E::mk(99);
                        its.push(it);
                        tracked(A::GLOBAL, || v.push(e));
                        check!(same(&v, &mut its), Request, "after reserve({count}) a push does not work");
                    } else {
                        std::mem::forget(v);
                        continue;
                    }
                }
                tracked(A::GLOBAL, || drop(v));
                cx().check_end();
                if cx().violations.len() > 6 {
                    return n;
                }
            }
        }
    }
    n
}

/// The same for `FixedVector`, inline and overflowed, fresh and after a clear.
fn fixed_vector<E: Elem, const N: usize>() -> u64 {
    use eastl_rs::fixed_vector::FixedVector;
    let mut n = 0;
    let s = size_of::<E>() as u128;
    let al = align_of::<E>();
    for count in boundary() {
        for len in [0, 1, N - 1, N, N + 1, 2 * N + 1] {
            for before in 0..2 {
                reset_keep_violations();
                let mut at = Box::new(std::mem::MaybeUninit::<FixedVector<E, N, TrackAlloc>>::uninit());
                unsafe { moveit::New::new(FixedVector::<E, N, TrackAlloc>::new_in(TrackAlloc::new(3)), std::pin::Pin::new_unchecked(&mut *at)) };
                let v = unsafe { at.assume_init_mut() };
                if before == 1 {
                    for i in 0..2 * N {
                        v.push(E::make(i as u32));
                    }
                    v.clear();
                }
                let mut its = vec![];
                for i in 0..len {
                    let (e, it) = E::mk(i as u32 + 10);
                    v.push(e);
                    its.push(it);
                }
                let cap = v.capacity();
                let need = (cap as u128 + count as u128) * s;
                let big = need > cx().max_request as u128;
                if count > 0 && (big || need < 1 << 22) {
                    op_start();
                    n += 1;
                    let r = catch(|| v.reserve(count));
                    let ok = matches!(r, Caught::Ok(()));
                    refused("reserve of a FixedVector", &r, need, al);
                    let want = if ok { cap as u128 + count as u128 } else { cap as u128 };
                    check!(v.capacity() as u128 == want, Request, "after reserve({count}) at length {len} of a FixedVector of {N} the capacity is {} instead of {want}", v.capacity());
                    if !ok {
                        check!(cx().frees.is_empty(), Request, "a refused reserve({count}) released the storage");
                        check!(v.has_overflowed() == (len > N), Request, "a refused reserve({count}) changed has_overflowed");
                    }
                    if ok && big {
                        // has storage that is too small
                        continue;
                    }
                    check!(v.len() == len && same(v, &mut its), Request, "reserve({count}) at length {len} changed the content");
                    let (e, it) = E::mk(99);
                    its.push(it);
                    v.push(e);
                    check!(same(v, &mut its), Request, "after reserve({count}) a push does not work");
                }
                unsafe { at.assume_init_drop() };
                cx().check_end();
                if cx().violations.len() > 6 {
                    return n;
                }
            }
        }
    }
    n
}

pub fn vectors(lo: u64, hi: u64) -> u64 {
    let mut n = 0;
    for c in lo..hi {
        n += match c {
            0 => vector::<P1, TrackAlloc>(),
            1 => vector::<P2, TrackAlloc>(),
            2 => vector::<P3, TrackAlloc>(),
            3 => vector::<T8, TrackAlloc>(),
            4 => vector::<T12, TrackAlloc>(),
            5 => vector::<A16, TrackAlloc>(),
            6 => vector::<T24, TrackAlloc>(),
            7 => vector::<T40, TrackAlloc>(),
            8 => vector::<A64, TrackAlloc>(),
            9 => vector::<P1, DefaultAllocator>(),
            10 => vector::<T8, DefaultAllocator>(),
            11 => vector::<T24, DefaultAllocator>(),
            12 => vector::<A64, DefaultAllocator>(),
            13 => fixed_vector::<T8, 4>(),
            14 => fixed_vector::<P1, 7>(),
            15 => fixed_vector::<A16, 2>(),
            16 => fixed_vector::<T24, 3>(),
            _ => 0,
        };
    }
    n
}
pub const VECTORS: u64 = 17;

/// The same for strings; and vector maps, which have only the constructor.
pub fn strings(_: u64, _: u64) -> u64 {
    let mut n = 0;
    for count in boundary() {
        if (1 << 24..=1 << 28).contains(&count) {
            continue;
        }
        reset_keep_violations();
        op_start();
        n += 1;
        let r = catch(|| {
            let v = String::<TrackAlloc>::with_capacity(count);
            check!(v.capacity() >= count, Request, "with_capacity({count}) has capacity {}", v.capacity());
            if count > 0 {
                check!(cx().allocs == [(v.capacity() + 1, 1)], Request, "a string of capacity {} is given {:?}", v.capacity(), cx().allocs);
            }
            if cx().allocs.iter().any(|a| a.0 <= count) {
                std::mem::forget(v);
            }
        });
        string_refused("with_capacity", &r, count as u128);
        for len in 0..4usize {
            for spare in 0..3usize {
                reset_keep_violations();
                let mut v = String::<TrackAlloc>::with_capacity(len + spare);
                let text: std::string::String = "abc"[..len].into();
                for c in text.chars() {
                    v.push(c);
                }
                let cap = v.capacity();
                op_start();
                n += 1;
                let r = catch(|| v.reserve(count));
                string_refused("reserve", &r, len as u128 + count as u128);
                if matches!(r, Caught::Ok(())) {
                    check!(v.capacity() as u128 >= len as u128 + count as u128, Request, "after reserve({count}) at length {len} the capacity is {}", v.capacity());
                    if !cx().allocs.is_empty() {
                        check!(cx().allocs == [(v.capacity() + 1, 1)], Request, "a string of capacity {} is given {:?}", v.capacity(), cx().allocs);
                    }
                } else {
                    check!(v.capacity() == cap && cx().frees.is_empty(), Request, "a refused reserve({count}) changed the storage");
                }
                if cx().violations.is_empty() {
                    check!(v.as_str() == text, Request, "reserve({count}) changed the content");
                    v.push('z');
                    check!(v.as_str() == format!("{text}z"), Request, "after reserve({count}) a push does not work");
                } else {
                    std::mem::forget(v);
                    return n;
                }
                drop(v);
                cx().check_end();
            }
        }
        reset_keep_violations();
        let need = count as u128 * size_of::<(P4, P8)>() as u128;
        if need < 1 << 24 || need > cx().max_request as u128 {
            op_start();
            n += 1;
            let r = catch(|| {
                let v = VectorMap::<P4, P8, TrackAlloc, eastl_rs::Less<P4>>::with_capacity(count);
                check!(v.capacity() == count, Request, "VectorMap::with_capacity({count}) has capacity {}", v.capacity());
            });
            if count > 0 {
                refused("VectorMap::with_capacity", &r, need, align_of::<(P4, P8)>());
            }
        }
    }
    n
}

fn string_refused(what: &str, r: &Caught<()>, chars: u128) {
    let c = cx();
    match r {
        Caught::Ok(()) => {
            check!(chars < c.max_request as u128, Request, "{what} for {chars} bytes is served with {:?}", c.allocs)
        }
        Caught::Panicked(m) => {
            check!(c.allocs.is_empty(), Request, "{what} for {chars} bytes asks for {:?} before it panics", c.allocs);
            check!(chars + 8 > isize::MAX as u128, Request, "{what} for {chars} bytes panics: {m}");
        }
        Caught::Refused(s, a) => check!(*s as u128 > chars && *a == 1, Request, "{what} for {chars} bytes asks for {s} bytes aligned {a}"),
        Caught::Injected => {}
    }
}

/// A vector in the state it would have after growing to an enormous length.
#[repr(C)]
struct RVec {
    begin: usize,
    end: usize,
    cap: usize,
}
fn enormous<E: Elem + Copy>() -> u64 {
    let mut n = 0;
    let s = size_of::<E>();
    let big: Vec<usize> = boundary().into_iter().filter(|&c| c > 1 << 26 && c as u128 * s as u128 + 4096 <= isize::MAX as u128).collect();
    for &cap in &big {
        for missing in [0usize, 1, 5] {
            let len = cap - missing;
            let mut ask = |what: &str, want: Option<u128>, f: &mut dyn FnMut(&mut Vector<E, TrackAlloc>)| {
                reset_keep_violations();
                // nothing is served, so nothing is touched
                cx().serve_only = Some(0);
                let mut v = std::mem::ManuallyDrop::new(Vector::<E, TrackAlloc>::new_in(TrackAlloc::new(1)));
                unsafe {
                    let r = &mut *(&raw mut *v as *mut RVec);
                    *r = RVec { begin: 4096, end: 4096 + len * s, cap: 4096 + cap * s };
                    op_start();
                    n += 1;
                    check!(v.len() == len && v.capacity() == cap, Request, "length and capacity are {} and {} instead of {len} and {cap}", v.len(), v.capacity());
                    let res = catch(|| f(&mut v));
                    let c = cx();
                    match (&res, want) {
                        (Caught::Refused(a, al), Some(w)) => {
                            check!((*a as u128, *al) == (w, align_of::<E>()), Request, "{what} at length {len} and capacity {cap} asks for {a} bytes instead of {w}")
                        }
                        (Caught::Panicked(_), Some(w)) => check!(c.allocs.is_empty() && w > isize::MAX as u128, Request, "{what} at length {len} and capacity {cap} panics"),
                        (Caught::Ok(()), Some(w)) => bad!(Request, "{what} at length {len} and capacity {cap} needs {w} bytes but makes no request"),
                        (r, None) => check!(matches!(r, Caught::Ok(())) && c.allocs.is_empty(), Request, "{what} at length {len} and capacity {cap} does not stay in place"),
                        _ => {}
                    }
                    let r = &*(&raw const *v as *const RVec);
                    if !matches!(res, Caught::Ok(())) {
                        check!(r.begin == 4096 && r.end == 4096 + len * s && r.cap == 4096 + cap * s, Request, "a refused {what} at length {len} and capacity {cap} changes the vector");
                    }
                }
            };
            if missing == 0 {
                ask("push", Some(cap as u128 * 2 * s as u128), &mut |v| v.push(E::make(1)));
            }
            for add in [1usize, 2, cap, usize::MAX - cap, usize::MAX - cap + 1, usize::MAX, usize::MAX / s - cap, usize::MAX / s - cap + 1, usize::MAX / s + 1] {
                if add > 0 {
                    ask("reserve", Some((cap as u128 + add as u128) * s as u128), &mut |v| v.reserve(add));
                }
            }
            let more: Vec<E> = (0..missing as u32 + 1).map(E::make).collect();
            ask("append", Some((len + more.len()) as u128 * s as u128), &mut |v| v.append(&more));
        }
    }
    n
}
pub fn enormous_all(lo: u64, hi: u64) -> u64 {
    let mut n = 0;
    for c in lo..hi {
        n += match c {
            0 => enormous::<P1>(),
            1 => enormous::<P2>(),
            2 => enormous::<P3>(),
            3 => enormous::<P4>(),
            4 => enormous::<P8>(),
            5 => enormous::<P16>(),
            _ => 0,
        };
    }
    n
}
