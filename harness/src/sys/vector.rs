//! `Vector` and `FixedVector`.

use super::{handed, must, word};
use crate::alloc::{tracked, TestAlloc, TrackAlloc};
use crate::explore::{op, Op, System};
use crate::rt::{cx, must_panic, op_start};
use crate::tok::*;
use eastl_rs::fixed_vector::FixedVector;
use eastl_rs::{Allocator, Vector};
use std::marker::PhantomData;
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;

pub struct Model {
    pub items: Vec<It>,
    pub cap: usize,
    pub next: u32,
}

impl Model {
    fn new(cap: usize) -> Self {
        Model { items: vec![], cap, next: 1 }
    }
    fn fresh<E: Elem>(&mut self) -> (E, It) {
        let v = self.next;
        self.next += 1;
        E::mk(v)
    }
    fn many<E: Elem>(&mut self, n: usize) -> (Vec<E>, Vec<It>) {
        (0..n).map(|_| self.fresh::<E>()).unzip()
    }
}

pub const PUSH: u32 = 1;
pub const POP: u32 = 2;
pub const INSERT: u32 = 3;
pub const REMOVE: u32 = 4;
pub const INSERT_PAST: u32 = 5;
pub const RESERVE: u32 = 6;
pub const CLEAR: u32 = 7;
pub const APPEND: u32 = 8;
pub const ASSIGN: u32 = 9;
pub const REVERSE: u32 = 10;
pub const REPLACE: u32 = 11;
pub const CLONE: u32 = 12;
pub const REBUILD: u32 = 13;
pub const INTO_ITER: u32 = 14;
pub const INTO_CALL: u32 = super::deque::INTO_CALL;
pub const FILL: u32 = 15;
pub const DRAIN: u32 = 16;
pub const MOVE: u32 = 17;
pub const CLONED_KEEP: u32 = 18;
/// the (empty, new) vector becomes one that C++ might have made
pub const ADOPT: u32 = 19;

/// The limits within which a space is closed.
#[derive(Clone, Copy)]
pub struct Lim {
    pub len: usize,
    pub cap: usize,
}

pub fn show_op(o: Op) -> String {
    match o.c {
        PUSH => "push".into(),
        POP => "pop".into(),
        INSERT => format!("insert at {}", o.a),
        REMOVE => format!("remove {}", o.a as i32 as i64),
        INSERT_PAST => format!("insert past the end, at len+{}", o.a),
        RESERVE => format!("reserve {}", o.a),
        CLEAR => "clear".into(),
        APPEND => format!("append {}", o.a),
        ASSIGN => format!("assign {}", o.a),
        REVERSE => "reverse the slice".into(),
        REPLACE => format!("write element {}", o.a),
        CLONE => "clone, drop the original".into(),
        CLONED_KEEP => "clone, change and drop the clone".into(),
        REBUILD => format!(
            "replace by {} of {}",
            ["with_capacity", "from(&[T])", "from(&mut [T])", "from([T; 3])", "from(&[T; 3])", "from_iter (exact hint)", "from_iter (hint 0)", "default", "from_in", "with_capacity and extend by push"][o.a as usize % 10],
            o.b
        ),
        INTO_CALL => format!("into_iter, {} calls of next, {}", o.a, super::show_own(o.b)),
        INTO_ITER => format!("into_iter, {} calls {:b} (0 front, 1 back), rest dropped", o.a, o.b),
        FILL => format!("push x{}", o.a),
        DRAIN => format!("pop x{}", o.a),
        MOVE => "move_new".into(),
        ADOPT => format!("as C++ may hand it over: {} of {} elements{}", o.a & 0xFFFF, o.a >> 16, if o.b == 1 { ", outside of the inline buffer" } else { "" }),
        0 => "-".into(),
        _ => format!("{o:?}"),
    }
}

fn grown(cap: usize) -> usize {
    if cap == 0 {
        1
    } else {
        cap * 2
    }
}

/// Gives a new vector the pointers of one with `o.a` elements, in a block of its own or where its
/// inline buffer is.
unsafe fn adopt<E: Elem, B, A: TestAlloc>(v: &mut Vector<E, B>, m: &mut Model, o: Op, id: u32, inline: Option<usize>)
where
    B: Allocator,
{
    let (len, cap) = ((o.a & 0xFFFF) as usize, (o.a >> 16) as usize);
    let at = match inline {
        Some(at) => at as *mut E,
        None if cap == 0 => std::ptr::null_mut(),
        None => {
            let mut a = A::make(id);
            tracked(A::GLOBAL, || a.allocate::<E>(cap))
        }
    };
    for i in 0..len {
        let (e, it) = m.fresh::<E>();
        at.add(i).write(e);
        m.items.push(it);
    }
    let w = v as *mut Vector<E, B> as *mut usize;
    for (k, n) in [0, len, cap].into_iter().enumerate() {
        w.add(k).write(at as usize + n * size_of::<E>());
    }
    m.cap = cap;
}

fn shapes(lim: Lim, inline: Option<usize>, out: &mut Vec<Op>) {
    for cap in 0..=lim.cap {
        for len in 0..=cap.min(lim.len) {
            if cap > 0 || inline.is_none() {
                out.push(op(ADOPT, (len | cap << 16) as u32, 1));
            }
        }
    }
    if let Some(n) = inline {
        for len in 0..=n {
            out.push(op(ADOPT, (len | n << 16) as u32, 0));
        }
    }
}

/// What an operation may do to the storage.
#[derive(PartialEq, Clone, Copy)]
enum Store {
    /// nothing moves, nothing is requested
    Keep,
    /// exactly one request for this many slots
    To(usize),
    /// all storage given back
    Gone,
}

/// Runs one of the operations that `Vector` and `FixedVector` share. `inline`: the address and
/// capacity of the inline buffer.
fn vstep<E: Elem, B: Allocator>(v: &mut Vector<E, B>, m: &mut Model, o: Op, global: bool, inline: Option<(usize, usize)>) {
    let (len, cap) = (m.items.len(), m.cap);
    let before = unsafe { word(v, 0) };
    op_start();
    let mut store = Store::Keep;
    match o.c {
        PUSH => {
            let (e, it) = m.fresh::<E>();
            must("push", || tracked(global, || v.push(e)));
            m.items.push(it);
            if len == cap {
                store = Store::To(grown(cap));
            }
        }
        POP => {
            let got = must("pop", || tracked(global, || v.pop()));
            handed("pop", got.flatten(), m.items.pop());
        }
        INSERT => {
            let (e, it) = m.fresh::<E>();
            must("insert", || tracked(global, || v.insert(o.a as usize, e)));
            m.items.insert(o.a as usize, it);
            if len == cap {
                store = Store::To(grown(cap));
            }
        }
        INSERT_PAST => {
            let (e, _) = m.fresh::<E>();
            let at = if o.a == u32::MAX { usize::MAX } else { len + o.a as usize };
            must_panic("insert past the end", || v.insert(at, e));
        }
        REMOVE => {
            let i = o.a as i32 as isize as usize;
            let got = must("remove", || tracked(global, || v.remove(i)));
            let want = if i < len { Some(m.items.remove(i)) } else { None };
            handed("remove", got.flatten(), want);
        }
        RESERVE => {
            must("reserve", || tracked(global, || v.reserve(o.a as usize)));
            if o.a > 0 {
                store = Store::To(cap + o.a as usize);
            }
        }
        CLEAR => {
            must("clear", || tracked(global, || v.clear()));
            m.items.clear();
            store = Store::Gone;
        }
        APPEND | ASSIGN => {
            let (src, its) = m.many::<E>(o.a as usize);
            if o.c == APPEND {
                must("append", || tracked(global, || v.append(&src)));
            } else {
                must("assign", || tracked(global, || v.assign(&src)));
                m.items.clear();
            }
            check!(same(&src, &mut its.clone()), Semantic, "append/assign changed its source");
            m.items.extend(its.iter().map(|i| i.cloned()));
            if m.items.len() > cap {
                store = Store::To(m.items.len());
            }
            drop(src);
        }
        REVERSE => {
            v.as_slice_mut().reverse();
            m.items.reverse();
        }
        REPLACE => {
            let (e, it) = m.fresh::<E>();
            let i = o.a as usize;
            let old = if i % 2 == 0 {
                v.as_slice_mut().get_mut(i).map(|s| std::mem::replace(s, e))
            } else {
                // through DerefMut
                v.get_mut(i).map(|s| std::mem::replace(s, e))
            };
            let want = std::mem::replace(&mut m.items[i], it);
            handed("writing through the slice", old, Some(want));
        }
        FILL => {
            for _ in 0..o.a {
                let (e, it) = m.fresh::<E>();
                must("push", || tracked(global, || v.push(e)));
                m.items.push(it);
                if m.items.len() > m.cap {
                    m.cap = grown(m.cap);
                    let want = (m.cap * size_of::<E>(), align_of::<E>());
                    check!(cx().allocs.len() == 1 && cx().allocs[0] == want, Capacity, "growing at length {}: requests {:?}, expected one of {want:?}", m.items.len() - 1, cx().allocs);
                } else {
                    check!(cx().allocs.is_empty(), Capacity, "pushing at length {} of {} allocated", m.items.len() - 1, m.cap);
                }
                if v.capacity() != m.cap {
                    bad!(Capacity, "after push number {} the capacity is {} instead of {}", m.items.len(), v.capacity(), m.cap);
                    return;
                }
            }
            return;
        }
        DRAIN => {
            for _ in 0..o.a {
                let got = must("pop", || tracked(global, || v.pop()));
                handed("pop", got.flatten(), m.items.pop());
            }
            return;
        }
        _ => return,
    }
    // storage
    let after = unsafe { word(v, 0) };
    let (sz, al) = (size_of::<E>(), align_of::<E>());
    let c = cx();
    let was_inline = inline.is_some_and(|(p, _)| p == before);
    match store {
        Store::Keep => {
            check!(after == before, Capacity, "storage moved although everything fits ({len} elements, capacity {cap})");
            check!(c.allocs.is_empty(), Capacity, "allocated although everything fits ({len} elements, capacity {cap})");
        }
        Store::To(n) => {
            m.cap = n;
            check!(
                c.allocs.len() == 1 && c.allocs[0] == (n * sz, al),
                Capacity,
                "from {len} elements and capacity {cap}: requests {:?}, expected one of {n} slots ({} bytes aligned {al})",
                c.allocs,
                n * sz
            );
            let frees = if cap > 0 && !was_inline { vec![(cap * sz, al)] } else { vec![] };
            check!(c.frees == frees, Alloc, "released {:?}, expected {frees:?}", c.frees);
        }
        Store::Gone => {
            m.cap = 0;
            check!(after == 0 || inline.is_some(), Capacity, "clear keeps storage");
            check!(c.allocs.is_empty(), Capacity, "clear allocated");
            let frees = if cap > 0 && !was_inline { vec![(cap * sz, al)] } else { vec![] };
            check!(c.frees == frees, Alloc, "clear released {:?}, expected {frees:?}", c.frees);
        }
    }
}

/// Everything that can be seen of a vector.
fn vfull<E: Elem, B: Allocator>(v: &mut Vector<E, B>, m: &mut Model, global: bool, inline: Option<(usize, usize)>) {
    let n = m.items.len();
    if !(v.len() == n && same(v.as_slice(), &mut m.items)) {
        bad!(Semantic, "as_slice (length {}) holds {} instead of {}", v.len(), show_slice(v.as_slice()), show_it(&m.items));
    }
    check!(same(v.as_ref(), &mut m.items), Semantic, "as_ref differs");
    check!(same(v.as_slice_mut(), &mut m.items), Semantic, "as_slice_mut differs");
    check!(same(&**v, &mut m.items), Semantic, "deref differs");
    check!(v.is_empty() == (n == 0), Semantic, "is_empty is {} at length {n}", v.is_empty());
    check!(v.capacity() == m.cap, Capacity, "capacity is {} instead of {}", v.capacity(), m.cap);
    check!(v.len() <= v.capacity(), Capacity, "length {} exceeds the capacity {}", v.len(), v.capacity());
    check!(v.is_full() == (n == m.cap), Capacity, "is_full is {} at length {n} of {}", v.is_full(), m.cap);
    let mut k = 0;
    let mut ok = true;
    for e in v.iter() {
        ok &= m.items.get(k).is_some_and(|i| e.is(i));
        k += 1;
    }
    check!(ok && k == n, Iter, "iter() differs from the content");
    let mut k = 0;
    for e in v.iter_mut() {
        ok &= m.items.get(k).is_some_and(|i| e.is(i));
        k += 1;
    }
    check!(ok && k == n, Iter, "iter_mut() differs from the content");
    if n <= 8 {
        let want = format!("{:?}", m.items.iter().map(|i| (i.val as u64 % E::VALS) as u32).collect::<Vec<_>>());
        let got = format!("{v:?}");
        check!(got == want, Semantic, "Debug prints {got} instead of {want}");
    }
    // the memory itself
    unsafe {
        let (b, e, c) = (word(v, 0), word(v, 1), word(v, 2));
        let sz = size_of::<E>();
        check!(e.wrapping_sub(b) == n * sz, Layout, "end - begin is {} bytes for {n} elements of {sz}", e.wrapping_sub(b));
        check!(c.wrapping_sub(b) == m.cap * sz, Layout, "capacity pointer - begin is {} bytes for {} slots of {sz}", c.wrapping_sub(b), m.cap);
        match inline {
            Some((p, cap)) if b == p => {
                check!(m.cap == cap, Layout, "inline buffer of {cap} slots used with a capacity of {}", m.cap);
            }
            _ if m.cap == 0 => check!(b == 0, Layout, "no storage but a non-null begin"),
            _ => match cx().live_block_at(b) {
                Some(blk) => {
                    check!(blk.size == m.cap * sz && blk.align == align_of::<E>(), Layout, "storage is a block of {} bytes for {} slots of {sz}", blk.size, m.cap);
                    check!((blk.owner == 0xD0) == global, Alloc, "storage from the wrong allocator");
                }
                None => bad!(Layout, "begin does not point to a live block"),
            },
        }
        if b != 0 && e.wrapping_sub(b) == n * sz {
            let raw = std::slice::from_raw_parts(b as *const E, n);
            check!(same(raw, &mut m.items), Layout, "memory between begin and end is not the content");
        }
    }
}

pub fn show_slice<E: Elem>(s: &[E]) -> String {
    let s = if s.len() > 64 { &s[..64] } else { s };
    show(s)
}

fn vops(lvl: u8, len: usize, cap: usize, lim: Lim, out: &mut Vec<Op>) {
    let room = lim.len.saturating_sub(len);
    let growable = len < cap || grown(cap) <= lim.cap;
    if room > 0 && growable {
        out.push(op(PUSH, 0, 0));
    }
    out.push(op(POP, 0, 0));
    if lvl == 2 {
        // the owning iterator, from every state
        let calls = (len + 2).min(9);
        for k in 0..=calls {
            let pats: Vec<u32> = if len <= 7 { (0..1u32 << k).collect() } else { vec![0, (1 << k) - 1, 0x5555 & ((1 << k) - 1), 0xAAAA & ((1 << k) - 1)] };
            for p in pats {
                out.push(op(INTO_ITER, k as u32, p));
            }
        }
        super::deque::into_calls(len, out);
        if cap < lim.cap {
            out.push(op(RESERVE, 1, 0));
        }
        out.push(op(REMOVE, 0, 0));
        return;
    }
    if lvl == 3 {
        // from chosen long histories
        for i in super::deque::places(len) {
            out.push(op(INSERT, i as u32, 0));
            out.push(op(REMOVE, i as u32, 0));
            if i < len {
                out.push(op(REPLACE, i as u32, 0));
            }
        }
        out.push(op(INSERT_PAST, 1, 0));
        for n in [0, 1, 7, 100, 1000] {
            out.push(op(RESERVE, n, 0));
        }
        let spare = cap - len;
        let mut k = vec![0, 1, 2, 7, 17, 100, 257, 1000, 5000, spare, spare + 1, len, 2 * len + 1];
        k.retain(|k| *k < 20000);
        k.sort();
        k.dedup();
        for n in k {
            out.push(op(APPEND, n as u32, 0));
        }
        let mut k = vec![0, 1, len.saturating_sub(1), len, len + 1, cap.saturating_sub(1), cap, cap + 1, 1000];
        k.retain(|k| *k < 70000);
        k.sort();
        k.dedup();
        for n in k {
            out.push(op(ASSIGN, n as u32, 0));
        }
        out.push(op(CLEAR, 0, 0));
        out.push(op(REVERSE, 0, 0));
        for n in [len / 2, len] {
            out.push(op(DRAIN, n as u32, 0));
        }
        for n in [1, spare + 1, len] {
            if n < 20000 {
                out.push(op(FILL, n as u32, 0));
            }
        }
        return;
    }
    let idx: Vec<usize> = if lvl == 1 { vec![0, len / 2, len] } else { (0..=len).collect() };
    let mut idx = idx;
    idx.dedup();
    for &i in &idx {
        if room > 0 && growable {
            out.push(op(INSERT, i as u32, 0));
        }
        out.push(op(REMOVE, i as u32, 0));
    }
    if lvl == 1 {
        if cap + 1 <= lim.cap {
            out.push(op(RESERVE, 1, 0));
        }
        out.push(op(CLEAR, 0, 0));
        for n in [0, 1, 2] {
            if n <= room {
                out.push(op(APPEND, n as u32, 0));
            }
            out.push(op(ASSIGN, n as u32, 0));
        }
        return;
    }
    for i in [len + 1, len + 2] {
        out.push(op(REMOVE, i as u32, 0));
    }
    out.push(op(REMOVE, u32::MAX, 0));
    for a in [1, 2, u32::MAX] {
        out.push(op(INSERT_PAST, a, 0));
    }
    for n in [0, 1, 2, 3, 5] {
        if cap + n <= lim.cap {
            out.push(op(RESERVE, n as u32, 0));
        }
    }
    out.push(op(CLEAR, 0, 0));
    for n in 0..=room.min(cap - len + 2) {
        out.push(op(APPEND, n as u32, 0));
    }
    for n in 0..=lim.len.min(cap + 2) {
        out.push(op(ASSIGN, n as u32, 0));
    }
    out.push(op(REVERSE, 0, 0));
    for i in 0..len {
        out.push(op(REPLACE, i as u32, 0));
    }
}

pub struct VecSys<E: Elem, A: TestAlloc> {
    v: Vector<E, A>,
    m: Model,
    lim: Lim,
    clone: Option<fn(&Vector<E, A>) -> Vector<E, A>>,
    /// the first operation is to adopt what C++ made
    new: bool,
}

impl<E: Elem, A: TestAlloc> VecSys<E, A> {
    pub fn new(lim: Lim) -> Box<dyn System> {
        let v: Vector<E, A> = if lim.len % 2 == 0 { Vector::new() } else { Vector::new_in(A::make(7)) };
        Box::new(VecSys { v, m: Model::new(0), lim, clone: None, new: false })
    }
    /// starts from what C++ may hand over
    pub fn adopting(lim: Lim) -> Box<dyn System> {
        Box::new(VecSys::<E, A> { v: Vector::new_in(A::make(7)), m: Model::new(0), lim, clone: None, new: true })
    }
}
impl<E: Elem> VecSys<E, TrackAlloc> {
    /// With an allocator that can be cloned, so that the vector can.
    pub fn cloning(lim: Lim) -> Box<dyn System> {
        Box::new(VecSys { v: Vector::new_in(TrackAlloc::new(7)), m: Model::new(0), lim, clone: Some(|v: &Vector<E, TrackAlloc>| v.clone()), new: false })
    }
}

impl<E: Elem, A: TestAlloc> VecSys<E, A> {
    fn rebuild(&mut self, kind: u32, n: usize) {
        let m = &mut self.m;
        let (mut src, its) = m.many::<E>(n);
        let mut cap = Some(n);
        let mut items: Vec<It> = its.iter().map(|i| i.cloned()).collect();
        let g = A::GLOBAL;
        op_start();
        let v: Option<Vector<E, A>> = match kind {
            0 => {
                items.clear();
                must("with_capacity", || tracked(g, || Vector::with_capacity(n)))
            }
            1 => must("from(&[T])", || tracked(g, || Vector::from(&src[..]))),
            2 => must("from(&mut [T])", || tracked(g, || Vector::from(&mut src[..]))),
            3 => {
                let a: [E; 3] = match src.try_into() {
                    Ok(a) => a,
                    Err(_) => unreachable!(),
                };
                src = vec![];
                items = its.clone();
                must("from([T; N])", || tracked(g, || Vector::from(a)))
            }
            4 => {
                let a: &[E; 3] = src[..].try_into().unwrap();
                must("from(&[T; N])", || tracked(g, || Vector::from(a)))
            }
            5 | 6 => {
                items = its.clone();
                let mut slots: Vec<Option<E>> = src.into_iter().map(Some).collect();
                src = vec![];
                let r = if kind == 5 {
                    must("from_iter", || tracked(g, || slots.iter_mut().map(|s| s.take().unwrap()).collect()))
                } else {
                    cap = None;
                    must("from_iter", || tracked(g, || slots.iter_mut().filter_map(|s| s.take()).collect()))
                };
                drop(slots);
                r
            }
            7 => {
                items.clear();
                cap = Some(0);
                must("default", || tracked(g, Vector::default))
            }
            8 => must("from_in", || tracked(g, || unsafe { Vector::from_in(&src, A::make(9)) })),
            _ => {
                items = its.clone();
                let it = std::mem::take(&mut src);
                let mut it = it.into_iter();
                must("with_capacity", || {
                    tracked(g, || {
                        let mut v = Vector::with_capacity(n);
                        for _ in 0..n {
                            v.push(it.next().unwrap());
                        }
                        v
                    })
                })
            }
        };
        let Some(v) = v else { return };
        match cap {
            Some(c) => {
                check!(v.capacity() == c, Capacity, "new vector of {n} has capacity {}", v.capacity());
                let want = if c > 0 { vec![(c * size_of::<E>(), align_of::<E>())] } else { vec![] };
                check!(cx().allocs == want, Capacity, "new vector of {n} requested {:?}", cx().allocs);
                m.cap = c;
            }
            None => {
                // pushed one by one
                let mut c = 0;
                while c < n {
                    c = grown(c);
                }
                m.cap = c;
            }
        }
        let old = std::mem::replace(&mut self.v, v);
        must("drop", || tracked(g, || drop(old)));
        drop(src);
        m.items = items;
    }

    /// `calls` calls of next, then one of the calls the iterator inherits.
    fn call(&mut self, calls: u32, which: u32) {
        let g = A::GLOBAL;
        check!(same(self.v.as_slice(), &mut self.m.items), Semantic, "the content differs before it is consumed");
        let mut it = std::mem::replace(&mut self.v, Vector::new()).into_iter();
        let mut items: std::collections::VecDeque<It> = self.m.items.drain(..).collect();
        for _ in 0..calls {
            it.next();
            items.pop_front();
        }
        super::own_call(it, &mut items, which, |it| {
            check!(it.len() == it.as_slice().len(), Iter, "len is {} with {} elements left", it.len(), it.as_slice().len());
            tracked(g, || drop(it))
        });
        self.m.cap = 0;
    }

    /// `calls` calls from the ends given by `pattern`, then the iterator is dropped.
    fn consume(&mut self, calls: u32, pattern: u32) {
        let g = A::GLOBAL;
        let m = &mut self.m;
        check!(same(self.v.as_slice(), &mut m.items), Semantic, "the content differs before it is consumed");
        let v = std::mem::replace(&mut self.v, Vector::new());
        let cap = v.capacity();
        let Some(mut it) = must("into_iter", || tracked(g, || v.into_iter())) else { return };
        check!(cx().allocs.is_empty() && cx().frees.is_empty(), Iter, "into_iter moved the storage");
        let mut rest: std::collections::VecDeque<It> = m.items.drain(..).collect();
        for k in 0..=calls {
            let every = rest.len() <= 64 || k == 0 || k == calls || k % 997 == 0;
            let mut want: Vec<It> = if every { rest.iter().copied().collect() } else { vec![] };
            check!(it.len() == rest.len(), Iter, "{} elements left, len says {}", rest.len(), it.len());
            check!(it.is_empty() == rest.is_empty(), Iter, "is_empty is {} with {} left", it.is_empty(), rest.len());
            check!(it.capacity() == cap, Iter, "capacity of the iterator is {} instead of {cap}", it.capacity());
            if every {
                check!(same(it.as_slice(), &mut want), Iter, "as_slice of the iterator is not what is left");
                check!(same(it.as_slice_mut(), &mut want), Iter, "as_slice_mut of the iterator is not what is left");
            }
            if k == calls {
                break;
            }
            let (got, want) = if pattern >> (k % 32) & 1 == 0 { (it.next(), rest.pop_front()) } else { (it.next_back(), rest.pop_back()) };
            match (got, want) {
                (None, None) => {}
                (Some(g), Some(w)) => check!(g.is(&w), Iter, "the iterator yields another element than the one with value {}", w.val),
                (g, w) => bad!(Iter, "the iterator yields {}, expected {}", if g.is_some() { "an element" } else { "None" }, if w.is_some() { "an element" } else { "None" }),
            }
        }
        if E::TRACKED {
            // writes through the remaining slice are yielded and dropped
            it.as_slice_mut().reverse();
            let left: Vec<It> = rest.iter().rev().copied().collect();
            check!(same(it.as_slice(), &mut left.clone()), Iter, "the iterator does not show what was written to it");
        }
        let drops = cx().drops;
        op_start();
        must("dropping the iterator", || tracked(g, || drop(it)));
        if E::TRACKED {
            check!(cx().drops - drops == rest.len() as u64, Iter, "dropping the iterator dropped {} elements instead of {}", cx().drops - drops, rest.len());
            for w in &rest {
                check!(!cx().regs[w.ser as usize].live, Iter, "dropping the iterator forgot the element with value {}", w.val);
            }
        }
        let frees = if cap > 0 { vec![(cap * size_of::<E>(), align_of::<E>())] } else { vec![] };
        check!(cx().frees == frees, Iter, "dropping the iterator released {:?} instead of {frees:?}", cx().frees);
        m.cap = 0;
    }
}

impl<E: Elem, A: TestAlloc> System for VecSys<E, A> {
    fn ops(&self, lvl: u8, out: &mut Vec<Op>) {
        if self.new {
            return shapes(self.lim, None, out);
        }
        vops(lvl, self.m.items.len(), self.m.cap, self.lim, out);
        if lvl == 0 {
            if self.clone.is_some() {
                out.push(op(CLONE, 0, 0));
                out.push(op(CLONED_KEEP, 0, 0));
            }
            for n in [0usize, 1, 2, 5] {
                if n <= self.lim.cap && n <= self.lim.len {
                    for k in [0, 1, 2, 5, 6, 8, 9] {
                        out.push(op(REBUILD, k, n as u32));
                    }
                }
            }
            if self.lim.len >= 3 {
                out.push(op(REBUILD, 3, 3));
                out.push(op(REBUILD, 4, 3));
            }
            out.push(op(REBUILD, 7, 0));
        }
        if lvl == 3 {
            let len = self.m.items.len() as u32;
            if self.clone.is_some() {
                out.push(op(CLONE, 0, 0));
                out.push(op(CLONED_KEEP, 0, 0));
            }
            for k in [0, 1, 2, 5, 6, 8, 9] {
                out.push(op(REBUILD, k, len));
                out.push(op(REBUILD, k, 100));
            }
            for k in [0, len / 2, len + 2] {
                for p in [0, u32::MAX, 0x5555_5555, 0x0F0F_00FF] {
                    out.push(op(INTO_ITER, k, p));
                }
            }
        }
    }

    fn step(&mut self, o: Op, full: bool) {
        self.new = false;
        match o.c {
            ADOPT => {
                op_start();
                unsafe { adopt::<E, A, A>(&mut self.v, &mut self.m, o, 7, None) };
            }
            CLONE | CLONED_KEEP => {
                let f = self.clone.unwrap();
                let n = self.m.items.len();
                let Some(mut c) = must("clone", || f(&self.v)) else { return };
                let want = if n > 0 { vec![(n * size_of::<E>(), align_of::<E>())] } else { vec![] };
                check!(cx().allocs == want, Capacity, "clone of {n} elements requested {:?}", cx().allocs);
                let mut cl: Vec<It> = self.m.items.iter().map(|i| i.cloned()).collect();
                check!(same(c.as_slice(), &mut cl), Semantic, "the clone differs from its source");
                check!(same(self.v.as_slice(), &mut self.m.items), Semantic, "cloning changed the source");
                if o.c == CLONE {
                    let old = std::mem::replace(&mut self.v, c);
                    drop(old);
                    self.m.items = cl;
                    self.m.cap = n;
                } else {
                    let (e, it) = self.m.fresh::<E>();
                    c.push(e);
                    cl.push(it);
                    check!(same(c.as_slice(), &mut cl), Semantic, "the clone loses what is pushed to it");
                    drop(c);
                }
            }
            REBUILD => self.rebuild(o.a, o.b as usize),
            INTO_ITER => self.consume(o.a, o.b),
            INTO_CALL => self.call(o.a, o.b),
            _ => vstep(&mut self.v, &mut self.m, o, A::GLOBAL, None),
        }
        if full {
            vfull(&mut self.v, &mut self.m, A::GLOBAL, None);
        }
    }

    fn key(&self, out: &mut Vec<u8>) {
        out.push(self.new as u8);
        out.extend((self.v.len() as u32).to_le_bytes());
        out.extend((self.v.capacity() as u32).to_le_bytes());
    }

    fn end(self: Box<Self>) {
        let v = self.v;
        tracked(A::GLOBAL, || drop(v));
    }

    fn show(&self, o: Op) -> String {
        show_op(o)
    }
}

/// `FixedVector`, living in a block of its own so that a write past its buffer is noticed.
pub struct FixedSys<E: Elem, const N: usize, A: TestAlloc> {
    at: *mut FixedVector<E, N, A>,
    m: Model,
    lim: Lim,
    /// where the inline buffer was before each move
    left: Vec<usize>,
    /// clones the vector inside, lets it outlive the fixed vector or not, and changes the clone
    clone: Option<fn(&mut Self, bool)>,
    /// the first operation is to adopt what C++ made
    new: bool,
    _a: PhantomData<A>,
}
const PLACE: u32 = 0xF1CED;

impl<E: Elem, const N: usize, A: TestAlloc> FixedSys<E, N, A> {
    /// Where freed memory is used again, there is room for more than the vector, so that an overflow
    /// block can start where the inline buffer of a vector that moved away was.
    fn room() -> usize {
        size_of::<FixedVector<E, N, A>>() + if cx().reuse { 4096 } else { 0 }
    }
    fn place() -> *mut FixedVector<E, N, A> {
        let hint = cx().hint.take();
        let p = cx().alloc(Self::room(), align_of::<FixedVector<E, N, A>>(), PLACE).cast();
        cx().hint = hint;
        op_start();
        p
    }
    fn unplace(p: *mut FixedVector<E, N, A>) {
        cx().free(p as usize, Self::room(), align_of::<FixedVector<E, N, A>>(), PLACE);
        op_start();
    }
    pub fn new(lim: Lim) -> Box<dyn System> {
        use moveit::New;
        let at = Self::place();
        unsafe {
            let slot = Pin::new_unchecked(&mut *at.cast::<MaybeUninit<FixedVector<E, N, A>>>());
            if lim.len % 2 == 0 {
                FixedVector::<E, N, A>::new().new(slot);
            } else {
                FixedVector::<E, N, A>::new_in(A::make(5)).new(slot);
            }
        }
        Box::new(Self::make(at, lim, None))
    }
    fn make(at: *mut FixedVector<E, N, A>, lim: Lim, clone: Option<fn(&mut Self, bool)>) -> Self {
        FixedSys { at, m: Model::new(N), lim, left: vec![], clone, new: false, _a: PhantomData }
    }
    /// starts from what C++ may hand over
    pub fn adopting(lim: Lim) -> Box<dyn System> {
        let at = Self::place();
        unsafe { Self::init(at) };
        Box::new(FixedSys { new: true, ..Self::make(at, lim, None) })
    }
    unsafe fn init(at: *mut FixedVector<E, N, A>) {
        use moveit::New;
        let slot = Pin::new_unchecked(&mut *at.cast::<MaybeUninit<FixedVector<E, N, A>>>());
        FixedVector::<E, N, A>::new_in(A::make(5)).new(slot);
    }
    /// The buffer follows begin, end, capacity, the overflow allocator and the pool pointer.
    fn buffer(&self) -> usize {
        let base = self.at as usize + (24 + size_of::<A>() + 7) / 8 * 8 + 8;
        (base + align_of::<E>() - 1) / align_of::<E>() * align_of::<E>()
    }
    fn overflowed(&self) -> bool {
        unsafe { word(&*self.at, 0) != self.buffer() }
    }
}

impl<E: Elem, const N: usize> FixedSys<E, N, TrackAlloc> {
    /// With an allocator that can be cloned, so that the vector inside can.
    pub fn cloning(lim: Lim) -> Box<dyn System> {
        let at = Self::place();
        unsafe { Self::init(at) };
        Box::new(Self::make(at, lim, Some(Self::cloned)))
    }
    fn cloned(&mut self, outlives: bool) {
        let buf = self.buffer();
        let mut items: Vec<It> = self.m.items.iter().map(|i| i.cloned()).collect();
        let n = items.len();
        let fv = unsafe { &**self.at };
        let Some(mut c) = must("clone", || fv.clone()) else { return };
        check!(same(c.as_slice(), &mut items), Semantic, "the clone differs from the original");
        check!(c.capacity() == n, Capacity, "the clone of {n} elements has room for {}", c.capacity());
        if outlives {
            let old = self.at;
            unsafe { std::ptr::drop_in_place(old) };
            Self::unplace(old);
            if cx().reuse {
                cx().free_lists.retain(|f| f.2 != old as usize);
                cx().hint = Some((buf, Self::room() - (buf - old as usize)));
            }
        }
        // so many that its storage is replaced twice
        for _ in 0..2 * n.max(1) + 1 {
            let (e, it) = self.m.fresh::<E>();
            must("push", || c.push(e));
            items.push(it);
        }
        check!(same(c.as_slice(), &mut items), Semantic, "the clone's content is wrong after pushes");
        drop(c);
        if outlives {
            cx().hint = None;
            self.at = Self::place();
            unsafe { Self::init(self.at) };
            self.m.items.clear();
            self.m.cap = N;
        } else {
            op_start();
        }
    }
}

impl<E: Elem, const N: usize, A: TestAlloc> System for FixedSys<E, N, A> {
    fn ops(&self, lvl: u8, out: &mut Vec<Op>) {
        if self.new {
            return shapes(self.lim, Some(N), out);
        }
        vops(lvl, self.m.items.len(), self.m.cap, self.lim, out);
        if (lvl != 1 || self.m.items.len() > 0) && !(cx().reuse && self.left.len() == 2) {
            out.push(op(MOVE, 0, 0));
        }
        if lvl == 0 && self.clone.is_some() {
            out.push(op(CLONED_KEEP, 0, 0));
            out.push(op(CLONE, 0, 0));
        }
    }

    fn step(&mut self, o: Op, full: bool) {
        let buf = self.buffer();
        let fv = unsafe { &mut *self.at };
        let was_over = self.overflowed();
        let want_over;
        self.new = false;
        match o.c {
            ADOPT => {
                op_start();
                unsafe { adopt::<E, _, A>(&mut **fv, &mut self.m, o, 5, if o.b == 0 { Some(buf) } else { None }) };
                want_over = o.b == 1;
            }
            MOVE => {
                let to = Self::place();
                unsafe {
                    let mut trap = moveit::drop_flag::TrappedFlag::new();
                    let flag = trap.flag();
                    let src = moveit::MoveRef::new_unchecked(&mut *self.at, flag);
                    let slot = Pin::new_unchecked(&mut *to.cast::<MaybeUninit<FixedVector<E, N, A>>>());
                    let drops = cx().drops;
                    must("move_new", || tracked(A::GLOBAL, || moveit::MoveNew::move_new(moveit::MoveRef::into_pin(src), slot)));
                    check!(cx().drops == drops, Semantic, "moving dropped {} element(s)", cx().drops - drops);
                    check!(cx().allocs.is_empty() && cx().frees.is_empty(), Pool, "moving used the overflow allocator");
                    let _ = &mut trap;
                }
                // the old place is dead now
                let old = self.at;
                Self::unplace(old);
                if cx().reuse {
                    // the place itself is not used again: an overflow block is to start in it
                    cx().free_lists.retain(|f| f.2 != old as usize);
                    cx().hint = Some((buf, Self::room() - (buf - old as usize)));
                }
                self.at = to;
                self.left.push(buf);
                want_over = was_over;
            }
            CLEAR => {
                must("clear", || tracked(A::GLOBAL, || fv.clear()));
                self.m.items.clear();
                self.m.cap = N;
                check!(cx().allocs.is_empty(), Pool, "clear used the overflow allocator");
                want_over = false;
            }
            CLONED_KEEP | CLONE => {
                let f = self.clone.unwrap();
                f(self, o.c == CLONE);
                want_over = was_over && o.c == CLONED_KEEP;
            }
            _ => {
                let (cap, len) = (self.m.cap, self.m.items.len());
                vstep(&mut **fv, &mut self.m, o, A::GLOBAL, Some((buf, N)));
                let _ = (cap, len);
                want_over = was_over || self.m.cap > cap;
                if !want_over {
                    check!(cx().allocs.is_empty() && cx().frees.is_empty(), Pool, "the overflow allocator was used although everything fits");
                }
            }
        }
        let fv = unsafe { &mut *self.at };
        check!(self.overflowed() == want_over, Pool, "elements are {}, but should be {}", if self.overflowed() { "overflowed" } else { "inline" }, if want_over { "overflowed" } else { "inline" });
        check!(fv.has_overflowed() == want_over, Pool, "has_overflowed is {} but should be {want_over}", fv.has_overflowed());
        if full {
            check!(fv.max_size() == N, Semantic, "max_size is {} instead of {N}", fv.max_size());
            check!(same(fv.as_ref(), &mut self.m.items), Semantic, "as_ref differs from the content");
            if self.m.items.len() <= 8 {
                let want = format!("{:?}", self.m.items.iter().map(|i| (i.val as u64 % E::VALS) as u32).collect::<Vec<_>>());
                check!(format!("{fv:?}") == want, Semantic, "Debug prints {fv:?} instead of {want}");
            }
            let buf = self.buffer();
            vfull(&mut **unsafe { &mut *self.at }, &mut self.m, A::GLOBAL, Some((buf, N)));
        }
    }

    fn key(&self, out: &mut Vec<u8>) {
        let v = unsafe { &*self.at };
        out.push(self.new as u8);
        out.extend((v.len() as u32).to_le_bytes());
        out.extend((v.capacity() as u32).to_le_bytes());
        out.push(self.overflowed() as u8);
        if cx().reuse {
            // where the blocks are matters
            out.push(self.left.len() as u8);
            out.push(cx().hint.is_some() as u8);
            let begin = unsafe { word(v, 0) };
            out.push(self.left.iter().position(|&a| a == begin).map_or(9, |i| i as u8));
        }
    }

    fn end(self: Box<Self>) {
        let at = self.at;
        tracked(A::GLOBAL, || unsafe { std::ptr::drop_in_place(at) });
        Self::unplace(at);
    }

    fn show(&self, o: Op) -> String {
        show_op(o)
    }
}
