//! The fixed pools themselves, on memory blocks of every length and misalignment, with an overflow
//! allocator whose nodes lie right next to the pool.

use super::must;
use crate::explore::{op, Op, System};
use crate::rt::{cx, op_start, reset_keep_violations};
use eastl_rs::verif_hooks::{FixedPool, FixedPoolWithOverflow, PoolAllocator};
use eastl_rs::Allocator;
use std::cell::RefCell;
use std::mem::{align_of, size_of};
use std::rc::Rc;

macro_rules! node {
    ($($n:ident: $words:expr, $align:expr;)*) => {$(
        #[repr(C, align($align))]
        pub struct $n(#[allow(dead_code)] [u64; $words]);
    )*};
}
node! {
    N8: 1, 8;
    N24: 3, 8;
    N40: 5, 8;
    N16: 2, 16;
    N48: 6, 16;
    N64: 8, 64;
    N128: 16, 128;
}

/// The places next to the pool that the overflow allocator hands out, nearest first.
#[derive(Default)]
pub struct Around {
    places: Vec<usize>,
    used: Vec<bool>,
    size: usize,
    align: usize,
}
#[derive(Default)]
pub struct Adjacent(Option<Rc<RefCell<Around>>>);
thread_local! {
    static CURRENT: RefCell<Option<Rc<RefCell<Around>>>> = const { RefCell::new(None) };
}
impl Adjacent {
    fn with<R>(&self, f: impl FnOnce(&mut Around) -> R) -> R {
        match &self.0 {
            Some(a) => f(&mut a.borrow_mut()),
            None => CURRENT.with(|c| f(&mut c.borrow().as_ref().unwrap().borrow_mut())),
        }
    }
}
unsafe impl Allocator for Adjacent {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        cx().allocs.push((n, align));
        self.with(|a| {
            check!((n, align) == (a.size, a.align), Alloc, "the overflow allocator is asked for {n} bytes aligned {align} instead of a node");
            match a.used.iter().position(|u| !u) {
                Some(i) => {
                    a.used[i] = true;
                    a.places[i] as *mut ()
                }
                None => std::ptr::null_mut(),
            }
        })
    }
    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        cx().frees.push((n, align));
        self.with(|a| {
            check!((n, align) == (a.size, a.align), Alloc, "a node is released to the overflow allocator as {n} bytes aligned {align}");
            match a.places.iter().position(|&x| x == p as usize) {
                Some(i) if a.used[i] => a.used[i] = false,
                _ => bad!(Pool, "a node that is not the overflow allocator's is released to it"),
            }
        })
    }
}

pub trait Pool: Sized + 'static {
    type Node: 'static;
    const OVER: bool;
    unsafe fn build(mem: &mut [u8], how: u32, around: &Rc<RefCell<Around>>) -> Self;
    unsafe fn again(&mut self, mem: &mut [u8]);
    fn alloc(&mut self, raw: bool) -> usize;
    unsafe fn free(&mut self, p: usize, raw: bool);
    fn can(&self) -> bool;
}

impl<N: 'static> Pool for FixedPool<N> {
    type Node = N;
    const OVER: bool = false;
    unsafe fn build(mem: &mut [u8], how: u32, _: &Rc<RefCell<Around>>) -> Self {
        if how == 0 {
            FixedPool::new(mem)
        } else {
            let mut p = FixedPool::default();
            check!(!p.can_allocate(), Pool, "a pool without memory says it can allocate");
            p.init(mem);
            p
        }
    }
    unsafe fn again(&mut self, mem: &mut [u8]) {
        self.init(mem)
    }
    fn alloc(&mut self, raw: bool) -> usize {
        if raw {
            self.allocate_raw_aligned(size_of::<N>(), align_of::<N>()) as usize
        } else {
            self.allocate::<N>(1) as usize
        }
    }
    unsafe fn free(&mut self, p: usize, raw: bool) {
        if raw {
            self.deallocate_raw_aligned(p as *mut (), size_of::<N>(), align_of::<N>())
        } else {
            self.deallocate::<N>(p as *mut N, 1)
        }
    }
    fn can(&self) -> bool {
        self.can_allocate()
    }
}

impl<N: 'static> Pool for FixedPoolWithOverflow<N, Adjacent> {
    type Node = N;
    const OVER: bool = true;
    unsafe fn build(mem: &mut [u8], how: u32, around: &Rc<RefCell<Around>>) -> Self {
        CURRENT.with(|c| *c.borrow_mut() = Some(around.clone()));
        match how {
            0 => FixedPoolWithOverflow::new(mem, Adjacent(Some(around.clone()))),
            1 => {
                let mut p = FixedPoolWithOverflow::with_allocator(Adjacent(Some(around.clone())));
                check!(!p.can_allocate(), Pool, "a pool without memory says it can allocate");
                p.init(mem);
                p
            }
            2 => FixedPoolWithOverflow::new_with_default_allocator(mem),
            _ => {
                let mut p = FixedPoolWithOverflow::default();
                p.init(mem);
                p
            }
        }
    }
    unsafe fn again(&mut self, mem: &mut [u8]) {
        self.init(mem)
    }
    fn alloc(&mut self, raw: bool) -> usize {
        if raw {
            self.allocate_raw_aligned(size_of::<N>(), align_of::<N>()) as usize
        } else {
            self.allocate::<N>(1) as usize
        }
    }
    unsafe fn free(&mut self, p: usize, raw: bool) {
        if raw {
            self.deallocate_raw_aligned(p as *mut (), size_of::<N>(), align_of::<N>())
        } else {
            self.deallocate::<N>(p as *mut N, 1)
        }
    }
    fn can(&self) -> bool {
        self.can_allocate()
    }
}

pub const INIT: u32 = 1;
pub const ALLOC: u32 = 2;
pub const FREE: u32 = 3;
pub const AGAIN: u32 = 4;

const AREA: usize = 8192;
const GUARD: u8 = 0xB7;
const MARGIN: usize = 2048;

#[repr(C, align(4096))]
struct Area([u8; AREA]);

pub struct PoolSys<P: Pool> {
    pool: Option<P>,
    area: Box<Area>,
    mem: (usize, usize),
    around: Rc<RefCell<Around>>,
    live: Vec<(usize, u8)>,
    returned: Vec<usize>,
    fresh: usize,
    cap: usize,
    max_len: usize,
    max_live: usize,
    count: u8,
    init: Op,
}

impl<P: Pool> PoolSys<P> {
    /// memory blocks of every length up to room for `nodes` nodes at every misalignment
    pub fn new(nodes: usize, over: usize) -> Box<dyn System> {
        let (s, a) = (size_of::<P::Node>(), align_of::<P::Node>());
        Box::new(PoolSys::<P> {
            pool: None,
            area: Box::new(Area([GUARD; AREA])),
            mem: (0, 0),
            around: Default::default(),
            live: vec![],
            returned: vec![],
            fresh: 0,
            cap: 0,
            max_len: a + nodes * s + s - 1,
            max_live: nodes + over,
            count: 0,
            init: op(0, 0, 0),
        })
    }
    pub fn name() -> String {
        format!(
            "fixed pool{} with nodes of {} bytes aligned {}",
            if P::OVER { " with overflow" } else { "" },
            size_of::<P::Node>(),
            align_of::<P::Node>()
        )
    }
    fn base(&self) -> usize {
        &*self.area as *const Area as usize
    }
    fn in_pool(&self, p: usize) -> bool {
        p >= self.mem.0 && p < self.mem.0 + self.mem.1
    }
    unsafe fn mem(&self) -> &'static mut [u8] {
        std::slice::from_raw_parts_mut(self.mem.0 as *mut u8, self.mem.1)
    }

    fn alloc(&mut self, raw: bool) {
        let (s, a) = (size_of::<P::Node>(), align_of::<P::Node>());
        op_start();
        let Some(pool) = &mut self.pool else { return };
        let Some(p) = must("allocate", || pool.alloc(raw)) else { return };
        let asked = cx().allocs.clone();
        let in_use = self.live.iter().filter(|l| self.in_pool(l.0)).count();
        if in_use < self.cap {
            check!(asked.is_empty(), Pool, "the overflow allocator is asked although {in_use} of {} nodes are in use", self.cap);
            check!(p != 0, Pool, "no node although {in_use} of {} are in use", self.cap);
            let inside = p >= self.mem.0 && p.wrapping_add(s) <= self.mem.0 + self.mem.1 && p.wrapping_add(s) > p;
            check!(inside, Pool, "a node outside of the pool's memory");
            if !inside {
                self.pool = None;
                return;
            }
            match self.returned.iter().position(|&r| r == p) {
                Some(i) => {
                    self.returned.remove(i);
                }
                None => {
                    check!(self.returned.is_empty(), Pool, "fresh memory is used although {} nodes were returned", self.returned.len());
                    let clash = self.returned.iter().any(|r| r.abs_diff(p) < s);
                    check!(!clash, Pool, "a new node overlaps a returned one");
                    self.fresh += 1;
                }
            }
        } else if P::OVER {
            check!(asked.len() == 1, Pool, "with all {} nodes in use the overflow allocator is asked {} times", self.cap, asked.len());
            check!(p == 0 || self.around.borrow().places.contains(&p), Pool, "with all {} nodes in use, the node is not the overflow allocator's", self.cap);
        } else {
            check!(p == 0, Pool, "a node although all {} are in use", self.cap);
        }
        if p == 0 {
            return;
        }
        check!(p % a == 0, Pool, "a node at an address not aligned to {a}");
        let clash = self.live.iter().any(|l| l.0.abs_diff(p) < s);
        check!(!clash, Pool, "a node overlaps one that is in use");
        let lo = self.base();
        if clash || p < lo || p + s > lo + AREA {
            self.pool = None;
            return;
        }
        self.count = self.count.wrapping_add(1) | 1;
        unsafe { std::ptr::write_bytes(p as *mut u8, self.count, s) };
        self.live.push((p, self.count));
    }

    fn full(&mut self) {
        let s = size_of::<P::Node>();
        let Some(pool) = &self.pool else { return };
        let in_use = self.live.iter().filter(|l| self.in_pool(l.0)).count();
        check!(pool.can() == (in_use < self.cap), Pool, "can_allocate is {} with {in_use} of {} nodes in use", pool.can(), self.cap);
        // nodes in use keep their content, and nothing else is written
        let lo = self.base();
        for &(p, c) in &self.live {
            let b = unsafe { std::slice::from_raw_parts(p as *const u8, s) };
            check!(b.iter().all(|&x| x == c), Pool, "a node in use was overwritten");
        }
        for (i, &b) in self.area.0.iter().enumerate() {
            let p = lo + i;
            if b != GUARD && !self.in_pool(p) && !self.live.iter().any(|l| p >= l.0 && p < l.0 + s) {
                let known = self.around.borrow().places.iter().any(|&x| p >= x && p < x + s);
                // released overflow nodes keep the user's bytes, but the pool has no business there
                if !known {
                    bad!(Pool, "memory outside of the pool was written");
                    break;
                }
            }
        }
        for (i, &x) in self.around.borrow().places.iter().enumerate() {
            let used = self.around.borrow().used[i];
            check!(used == self.live.iter().any(|l| l.0 == x), Pool, "an overflow node is {} use", if used { "still in" } else { "no longer in" });
        }
        // the pool as C++ sees it: returned nodes linked from the first word, then unused memory up to the third
        unsafe {
            let r = pool as *const P as *const usize;
            let (mut p, next, end) = (*r, *r.add(1), *r.add(2));
            let mut chain = vec![];
            while p != 0 && chain.len() <= self.returned.len() {
                if !self.in_pool(p) || p % 8 != 0 {
                    bad!(Layout, "the list of returned nodes leads out of the pool");
                    return;
                }
                chain.push(p);
                p = *(p as *const usize);
            }
            chain.sort_unstable();
            let mut want = self.returned.clone();
            want.sort_unstable();
            check!(chain == want, Layout, "{} nodes are linked as returned instead of {}", chain.len(), want.len());
            check!(end.wrapping_sub(next) == (self.cap - self.fresh) * s, Layout, "{} bytes are marked as unused, with {} nodes left", end.wrapping_sub(next), self.cap - self.fresh);
        }
    }
}

impl<P: Pool> System for PoolSys<P> {
    fn ops(&self, _: u8, out: &mut Vec<Op>) {
        let a = align_of::<P::Node>();
        if self.init.c == 0 {
            let hows = if P::OVER { 4 } else { 2 };
            let mut k = 0;
            for off in 0..a {
                for len in 0..=self.max_len {
                    out.push(op(INIT, (off as u32) << 2 | k % hows, len as u32));
                    k += 1;
                }
            }
            return;
        }
        if self.live.len() < self.max_live {
            out.push(op(ALLOC, 0, 0));
            out.push(op(ALLOC, 1, 0));
        }
        for i in 0..self.live.len() {
            out.push(op(FREE, i as u32, (i % 2) as u32));
        }
        if self.live.is_empty() {
            out.push(op(AGAIN, 0, 0));
        }
    }

    fn step(&mut self, o: Op, full: bool) {
        let (s, a) = (size_of::<P::Node>(), align_of::<P::Node>());
        op_start();
        match o.c {
            INIT => {
                let (off, how, len) = ((o.a >> 2) as usize, o.a & 3, o.b as usize);
                self.init = o;
                let start = self.base() + MARGIN + off;
                self.mem = (start, len);
                let gap = (a - start % a) % a;
                self.cap = len.saturating_sub(gap) / s;
                let after = (start + len + a - 1) / a * a;
                let before = (start - s) / a * a;
                let places = vec![after, before, after + s, before - s];
                *self.around.borrow_mut() = Around { used: vec![false; places.len()], places, size: s, align: a };
                let around = self.around.clone();
                let mem = unsafe { self.mem() };
                self.pool = must("new", || unsafe { P::build(mem, how, &around) });
                check!(cx().allocs.is_empty(), Pool, "a new pool asks the overflow allocator");
            }
            ALLOC => self.alloc(o.a == 1),
            FREE => {
                if (o.a as usize) < self.live.len() {
                    let (p, _) = self.live.remove(o.a as usize);
                    let inside = self.in_pool(p);
                    if let Some(pool) = &mut self.pool {
                        must("deallocate", || unsafe { pool.free(p, o.b == 1) });
                    }
                    check!(cx().frees.len() == !inside as usize, Pool, "a node {} the pool is {} to the overflow allocator", if inside { "of" } else { "outside of" }, if inside { "released" } else { "not released" });
                    if inside {
                        self.returned.push(p);
                    }
                }
            }
            AGAIN => {
                let mem = unsafe { self.mem() };
                if let Some(pool) = &mut self.pool {
                    must("init", || unsafe { pool.again(mem) });
                }
                self.returned.clear();
                self.fresh = 0;
            }
            _ => {}
        }
        if full {
            self.full();
        }
    }

    fn key(&self, out: &mut Vec<u8>) {
        // construction and misalignment only matter through what is left of the memory
        out.extend(self.init.a.to_le_bytes());
        out.extend(self.init.b.to_le_bytes());
        let base = self.base();
        let mut l: Vec<usize> = self.live.iter().map(|l| l.0 - base).collect();
        l.sort_unstable();
        for x in l {
            out.extend((x as u32).to_le_bytes());
        }
        out.push(0xFF);
        if let Some(pool) = &self.pool {
            unsafe {
                let r = pool as *const P as *const usize;
                let mut p = *r;
                let mut k = 0;
                while p != 0 && k < 32 && self.in_pool(p) && p % 8 == 0 {
                    out.extend(((p - base) as u32).to_le_bytes());
                    p = *(p as *const usize);
                    k += 1;
                }
                out.extend((*r.add(1)).wrapping_sub(base).to_le_bytes());
            }
        }
    }

    fn end(self: Box<Self>) {}

    fn show(&self, o: Op) -> String {
        match o.c {
            INIT => format!("pool on {} bytes at an address {} past alignment", o.b, o.a >> 2),
            ALLOC => "allocate".into(),
            FREE => format!("deallocate node {}", o.a),
            AGAIN => "init again".into(),
            _ => format!("{o:?}"),
        }
    }
}

// ---- overflow nodes far from the pool

extern "C" {
    fn mmap(a: usize, l: usize, p: i32, f: i32, fd: i32, o: i64) -> usize;
    fn munmap(a: usize, l: usize) -> i32;
}
/// Memory at exactly these addresses, where nothing lies yet.
struct At(usize, usize);
impl At {
    fn new(lo: usize, hi: usize) -> Option<At> {
        let (lo, hi) = (lo & !4095, (hi + 4095) & !4095);
        // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
        let p = unsafe { mmap(lo, hi - lo, 3, 0x2 | 0x20 | 0x4000 | 0x10_0000, -1, 0) };
        if p == lo {
            return Some(At(lo, hi - lo));
        }
        if p as isize != -1 {
            unsafe { munmap(p, hi - lo) };
        }
        None
    }
}
impl Drop for At {
    fn drop(&mut self) {
        unsafe { munmap(self.0, self.1) };
    }
}

const NODES: usize = 2;
/// how far the overflow allocator's nodes lie from the pool, in bytes and in nodes
fn distances(s: usize) -> Vec<i64> {
    let mut v = vec![];
    for sign in [1i64, -1] {
        for shift in [8, 12, 15, 16, 20, 24, 31, 32, 33, 36, 40, 44, 45] {
            for n in -2i64..=2 {
                v.push(sign * ((1i64 << shift) + n * s as i64));
            }
        }
    }
    v
}

/// Every order of returning two of the pool's nodes and two of the overflow allocator's, which lie at every distance
/// from the pool, with the pool where addresses have few or many significant bits.
pub fn far<N: 'static>() -> u64 {
    let (s, a) = (size_of::<N>(), align_of::<N>());
    let mut n = 0;
    // in the midst of a region of 4 GiB, across its end, and across the end of a region of 64 KiB
    let m = 0x2000_0000_0000usize;
    for base in [m + 0x5000_0000, m + 0x8000_0000 - a.max(s), m + (1 << 32) - s.next_multiple_of(a), m + 0x1_0000 - s.next_multiple_of(a)] {
        for d in distances(s) {
            let len = NODES * s;
            let far = base as i64 + d;
            let far = far as usize / a * a;
            if far < base + len && base < far + 2 * s || far < 0x1_0000 {
                continue;
            }
            for order in 0..24 {
                reset_keep_violations();
                let (lo, hi) = (base.min(far), (base + len).max(far + 2 * s));
                let near = hi - lo < 1 << 21;
                let Some(m1) = (if near { At::new(lo, hi) } else { At::new(base, base + len) }) else { break };
                let m2 = if near { None } else { At::new(far, far + 2 * s) };
                if !near && m2.is_none() {
                    break;
                }
                let around = Rc::new(RefCell::new(Around { places: vec![far, far + s], used: vec![false; 2], size: s, align: a }));
                let mem = unsafe { std::slice::from_raw_parts_mut(base as *mut u8, len) };
                op_start();
                let Some(mut pool) = must("new", || unsafe { <FixedPoolWithOverflow<N, Adjacent> as Pool>::build(mem, order as u32 % 4, &around) }) else { break };
                let mut live = vec![];
                for i in 0..NODES + 2 {
                    let Some(p) = must("allocate", || pool.alloc(i % 2 == 0)) else { break };
                    let inside = p >= base && p < base + len;
                    check!(inside == (i < NODES), Pool, "node {i} lies {} the pool of {NODES}", if inside { "in" } else { "outside of" });
                    live.push((p, inside));
                }
                let mut k = order;
                while !live.is_empty() && cx().violations.is_empty() {
                    let i = k % live.len();
                    k /= live.len();
                    let (p, inside) = live.remove(i);
                    op_start();
                    must("deallocate", || unsafe { pool.free(p, i % 2 == 0) });
                    check!(cx().frees.len() == !inside as usize, Pool, "a node of the {} at {p:#x}, {:+} bytes from the pool, is {} to the overflow allocator", if inside { "pool" } else { "overflow allocator" }, p as i64 - base as i64, if inside { "released" } else { "not released" });
                    // what was returned is handed out again, the pool's nodes first
                    op_start();
                    let room = pool.can();
                    check!(room == (inside || live.iter().filter(|l| l.1).count() < NODES), Pool, "can_allocate is {room} after a node at {p:#x} was returned");
                }
                drop(pool);
                drop((m1, m2));
                n += 1;
                if !cx().violations.is_empty() {
                    return n;
                }
            }
        }
    }
    assert!(n > 1000, "the addresses far from the pool are all taken");
    n
}
