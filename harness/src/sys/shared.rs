//! Containers shared by several readers. A reading operation runs while all memory of the container
//! and of its elements is write-protected, so that any write is seen; and with the other readers
//! running at each of its steps and each of its calls into element code.

use super::tree::{self, Shape, Tree};
use crate::alloc::{tracked, TestAlloc};
use crate::explore::{op, Op, System};
use crate::rt::{self, cx};
use crate::tok::*;
use eastl_rs::compare::Less;
use eastl_rs::deque::Deque;
use eastl_rs::equals::Equals;
use eastl_rs::fixed_list::FixedList;
use eastl_rs::fixed_vector::FixedVector;
use eastl_rs::hash::Hash;
use eastl_rs::hash_map::HashMap;
use eastl_rs::hash_set::HashSet;
use eastl_rs::list::List;
use eastl_rs::queue::Queue;
use eastl_rs::string::String as EString;
use eastl_rs::vector::Vector;
use eastl_rs::vector_map::VectorMap;
use eastl_rs::{Allocator, Map, Set};
use moveit::New;
use std::fmt::Write;
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;
use std::sync::Arc;

/// What a reader saw.
type Seen = Vec<u64>;
type Read<C> = (&'static str, fn(&C) -> Seen);

/// Everything an iterator yields, other readers running between its steps.
fn walk<I: Iterator>(it: I, f: impl Fn(I::Item) -> u64) -> Seen {
    let mut v = vec![];
    for x in it {
        rt::pause();
        v.push(f(x));
    }
    v
}
fn back<I: DoubleEndedIterator>(it: I, f: impl Fn(I::Item) -> u64) -> Seen {
    walk(it.rev(), f)
}
fn addr<T>(t: &T) -> u64 {
    t as *const T as u64
}
fn opt<T>(t: Option<&T>) -> u64 {
    t.map_or(1, addr)
}
fn text(s: impl AsRef<str>) -> Seen {
    s.as_ref().bytes().map(|b| b as u64).collect()
}
/// Formats like `format!`, but hands other readers a turn at every piece.
struct Out(String);
impl Write for Out {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        rt::pause();
        self.0.push_str(s);
        Ok(())
    }
}
fn debug(d: &dyn std::fmt::Debug) -> Seen {
    let mut o = Out(String::new());
    let _ = write!(o, "{d:?}");
    let _ = write!(o, "{d:#?}");
    text(o.0)
}

pub trait Subject: Sized + 'static {
    /// requests go to the process-wide allocator
    const GLOBAL: bool;
    /// what a large container is made with
    const GROW: u32;
    fn name() -> String;
    unsafe fn place(at: &mut MaybeUninit<Self>);
    fn ops(&self, max: u32, out: &mut Vec<Op>);
    fn apply(&mut self, op: Op);
    fn reads() -> Vec<Read<Self>>;
    /// what tells states apart
    fn state(&self) -> Vec<u64>;
}

const PLACE: u32 = 0x51AC;

/// the number of elements in a large container
const MANY: [u32; 3] = [33, 130, 300];

pub struct Shared<C: Subject> {
    at: *mut C,
    max: u32,
    fresh: bool,
    large: bool,
}

impl<C: Subject> Shared<C> {
    pub fn new(max: u32) -> Box<dyn System> {
        let at = cx().alloc(size_of::<C>(), align_of::<C>(), PLACE).cast::<C>();
        tracked(C::GLOBAL, || unsafe { C::place(&mut *at.cast::<MaybeUninit<C>>()) });
        Box::new(Shared { at, max, fresh: true, large: false })
    }

    fn readers(&self) {
        let c: &C = unsafe { &*self.at };
        let reads = C::reads();
        let alone: Vec<Seen> = reads.iter().map(|r| (r.1)(c)).collect();
        rt::seal();
        let check = |what: &dyn Fn() -> String, got: &Seen, want: &Seen| {
            let x = cx();
            if x.breaches > 0 {
                let at = x.breach_at;
                let place = if at >= self.at as usize && at < self.at as usize + size_of::<C>() {
                    format!("byte {} of the container", at - self.at as usize)
                } else {
                    match x.blocks.iter().find(|b| at >= b.ptr && at < b.ptr + b.size) {
                        Some(b) => format!("byte {} of a block of {} bytes", at - b.ptr, b.size),
                        None => "memory outside of any block".to_string(),
                    }
                };
                bad!(Shared, "{}: writes to {place}", what());
                rt::seal();
            }
            check!(got == want, Shared, "{}: shows something else than to a reader alone", what());
        };
        for (i, r) in reads.iter().enumerate() {
            let got = (r.1)(c);
            check(&|| r.0.to_string(), &got, &alone[i]);
        }
        if !cx().violations.is_empty() {
            rt::unseal();
            return;
        }
        for (i, r) in reads.iter().enumerate() {
            for (j, q) in reads.iter().enumerate() {
                let mut seen = vec![];
                let mut turn = || {
                    let c: &C = unsafe { &*self.at };
                    let p = cx().pause.take();
                    seen.push((q.1)(c));
                    cx().pause = p;
                };
                fn call<F: FnMut()>(_: &F) -> unsafe fn(*mut ()) {
                    unsafe fn go<F: FnMut()>(p: *mut ()) {
                        (*p.cast::<F>())()
                    }
                    go::<F>
                }
                let f = call(&turn);
                cx().pause = Some((&raw mut turn as *mut (), f));
                let got = (r.1)(c);
                cx().pause = None;
                check(&|| format!("{} while another reader runs {}", r.0, q.0), &got, &alone[i]);
                for s in &seen {
                    check(&|| format!("{} in the midst of another reader's {}", q.0, r.0), s, &alone[j]);
                }
            }
        }
        rt::unseal();
    }
}

impl<C: Subject> System for Shared<C> {
    fn ops(&self, _: u8, out: &mut Vec<Op>) {
        if self.large {
            return;
        }
        unsafe { (*self.at).ops(self.max, out) }
        if self.fresh && C::GROW > 0 {
            out.extend(MANY.iter().map(|&n| op(FILL, n, 0)));
        }
    }
    fn step(&mut self, o: Op, full: bool) {
        rt::op_start();
        self.fresh &= o.c == 0;
        if o.c == FILL {
            self.large = true;
            for i in 1..=o.a {
                tracked(C::GLOBAL, || unsafe { (*self.at).apply(op(C::GROW, i, 0)) });
            }
        } else if o.c > 0 {
            tracked(C::GLOBAL, || unsafe { (*self.at).apply(o) });
        }
        if full {
            self.readers();
        }
    }
    fn key(&self, out: &mut Vec<u8>) {
        for x in unsafe { (*self.at).state() } {
            out.extend_from_slice(&x.to_le_bytes());
        }
    }
    fn end(self: Box<Self>) {
        unsafe {
            tracked(C::GLOBAL, || std::ptr::drop_in_place(self.at));
            cx().free(self.at as usize, size_of::<C>(), align_of::<C>(), PLACE);
        }
    }
    fn show(&self, o: Op) -> String {
        let n = ["", "push at the back", "push at the front", "pop at the back", "pop at the front", "reserve", "clear", "insert", "remove", "build a tree of shape", "fill with"][o.c as usize % 11];
        format!("{n}({})", o.a)
    }
}

const PUSH: u32 = 1;
const PUSH_FRONT: u32 = 2;
const POP: u32 = 3;
const POP_FRONT: u32 = 4;
const RESERVE: u32 = 5;
const CLEAR: u32 = 6;
const INSERT: u32 = 7;
const REMOVE: u32 = 8;
const BUILD: u32 = 9;
const FILL: u32 = 10;

/// keys looked up: those present and those in between
const KEYS: u32 = 7;

fn each_key<K: Elem>(f: impl Fn(&K) -> u64) -> Seen {
    (0..=KEYS + 1).map(|k| f(&K::make(k))).collect()
}

// ---- sequences

macro_rules! slice_reads {
    () => {
        vec![
            ("len, is_empty, is_full, capacity", |c: &Self| vec![c.len() as u64, c.is_empty() as u64, c.is_full() as u64, c.capacity() as u64]),
            ("as_slice", |c: &Self| walk(c.as_slice().iter(), |e| addr(e) ^ e.value() as u64)),
            ("as_ref", |c: &Self| walk(AsRef::<[_]>::as_ref(c).iter().rev(), |e| addr(e))),
            ("deref", |c: &Self| vec![c.first().map_or(1, addr), c.last().map_or(1, addr), c.get(1).map_or(1, addr)]),
            ("debug", |c: &Self| debug(c)),
        ]
    };
}

impl<E: Elem, A: TestAlloc + Clone> Subject for Vector<E, A> {
    const GLOBAL: bool = A::GLOBAL;
    const GROW: u32 = PUSH;
    fn name() -> String {
        format!("Vector of {}, {}", E::NAME, A::NAME)
    }
    unsafe fn place(at: &mut MaybeUninit<Self>) {
        at.write(Vector::new_in(A::make(0)));
    }
    fn ops(&self, max: u32, out: &mut Vec<Op>) {
        if (self.len() as u32) < max {
            out.push(op(PUSH, 0, 0));
        }
        if self.len() > 0 {
            out.push(op(POP, 0, 0));
            out.push(op(CLEAR, 0, 0));
        }
        if self.capacity() < max as usize {
            out.push(op(RESERVE, 1, 0));
        }
    }
    fn apply(&mut self, o: Op) {
        match o.c {
            PUSH => self.push(E::make(self.len() as u32)),
            POP => drop(self.pop()),
            CLEAR => self.clear(),
            _ => {
                let n = self.len() + o.a as usize;
                self.reserve(n)
            }
        }
    }
    fn reads() -> Vec<Read<Self>> {
        let mut v: Vec<Read<Self>> = slice_reads!();
        v.push(("clone", |c| {
            let d = c.clone();
            walk(d.iter(), |e| e.value() as u64)
        }));
        v
    }
    fn state(&self) -> Vec<u64> {
        vec![self.len() as u64, self.capacity() as u64]
    }
}

impl<E: Elem, const N: usize, A: TestAlloc> Subject for FixedVector<E, N, A> {
    const GLOBAL: bool = A::GLOBAL;
    const GROW: u32 = PUSH;
    fn name() -> String {
        format!("FixedVector of {N} x {}, {}", E::NAME, A::NAME)
    }
    unsafe fn place(at: &mut MaybeUninit<Self>) {
        FixedVector::<E, N, A>::new_in(A::make(0)).new(Pin::new_unchecked(at));
    }
    fn ops(&self, max: u32, out: &mut Vec<Op>) {
        (**self).ops_of(max, out);
    }
    fn apply(&mut self, o: Op) {
        match o.c {
            PUSH => {
                let e = E::make(self.len() as u32);
                self.push(e)
            }
            POP => drop(self.pop()),
            CLEAR => self.clear(),
            _ => {
                let n = self.len() + o.a as usize;
                self.reserve(n)
            }
        }
    }
    fn reads() -> Vec<Read<Self>> {
        let mut v: Vec<Read<Self>> = slice_reads!();
        v.push(("max_size, has_overflowed", |c| vec![c.max_size() as u64, c.has_overflowed() as u64]));
        v
    }
    fn state(&self) -> Vec<u64> {
        vec![self.len() as u64, self.capacity() as u64, self.has_overflowed() as u64]
    }
}
trait OpsOf {
    fn ops_of(&self, max: u32, out: &mut Vec<Op>);
}
impl<E: Elem, A: Allocator> OpsOf for Vector<E, A> {
    fn ops_of(&self, max: u32, out: &mut Vec<Op>) {
        if (self.len() as u32) < max {
            out.push(op(PUSH, 0, 0));
        }
        if self.len() > 0 {
            out.push(op(POP, 0, 0));
            out.push(op(CLEAR, 0, 0));
        }
        if self.capacity() < max as usize {
            out.push(op(RESERVE, 1, 0));
        }
    }
}

impl<A: TestAlloc + Clone> Subject for EString<A> {
    const GLOBAL: bool = A::GLOBAL;
    const GROW: u32 = PUSH;
    fn name() -> String {
        format!("String, {}", A::NAME)
    }
    unsafe fn place(at: &mut MaybeUninit<Self>) {
        at.write(EString::new_in(A::make(0)));
    }
    fn ops(&self, max: u32, out: &mut Vec<Op>) {
        if (self.len() as u32) < max {
            out.extend([op(PUSH, 'a' as u32, 0), op(PUSH, 0, 0), op(PUSH, 'é' as u32, 0), op(PUSH, '😀' as u32, 0)]);
        }
        if self.len() > 0 {
            out.push(op(POP, 0, 0));
        }
        if self.capacity() < max as usize {
            out.push(op(RESERVE, 1, 0));
        }
    }
    fn apply(&mut self, o: Op) {
        match o.c {
            PUSH => self.push(char::from_u32(o.a).unwrap()),
            POP => drop(self.pop()),
            _ => {
                let n = self.len() + o.a as usize;
                self.reserve(n)
            },
        }
    }
    fn reads() -> Vec<Read<Self>> {
        use eastl_rs::hash::DefaultHash;
        vec![
            ("len, is_empty, is_full, capacity", |c| vec![c.len() as u64, c.is_empty() as u64, c.is_full() as u64, c.capacity() as u64]),
            ("as_bytes", |c| walk(c.as_bytes().iter(), |b| addr(b) << 8 | *b as u64)),
            ("as_str", |c| walk(c.as_str().chars(), |x| x as u64)),
            ("as_ref", |c| vec![AsRef::<[u8]>::as_ref(c).as_ptr() as u64, AsRef::<str>::as_ref(c).as_ptr() as u64]),
            ("deref", |c| back(c.char_indices(), |(i, x)| (i as u64) << 32 | x as u64)),
            ("==", |c| vec![(c == c) as u64, (c == &EString::<A>::from("a")) as u64]),
            ("hash", |c| vec![<DefaultHash<EString<A>> as Hash<EString<A>>>::hash(c) as u64]),
            ("display", |c| {
                let mut o = Out(String::new());
                let _ = write!(o, "{c}|{c:>6}");
                text(o.0)
            }),
            ("debug", |c| debug(c)),
            ("clone", |c| text(c.clone().as_str())),
        ]
    }
    fn state(&self) -> Vec<u64> {
        let mut v = text(self.as_str());
        v.push(1000 + self.capacity() as u64);
        v
    }
}

impl<E: Elem, A: TestAlloc> Subject for Deque<'static, E, A> {
    const GLOBAL: bool = A::GLOBAL;
    const GROW: u32 = PUSH;
    fn name() -> String {
        format!("Deque of {}, {}", E::NAME, A::NAME)
    }
    unsafe fn place(at: &mut MaybeUninit<Self>) {
        at.write(Deque::new_in(A::make(0)));
    }
    fn ops(&self, max: u32, out: &mut Vec<Op>) {
        if (self.len() as u32) < max {
            out.extend([op(PUSH, 0, 0), op(PUSH_FRONT, 0, 0)]);
        }
        if self.len() > 0 {
            out.extend([op(POP, 0, 0), op(POP_FRONT, 0, 0)]);
        }
    }
    fn apply(&mut self, o: Op) {
        match o.c {
            PUSH => self.push_back(E::make(self.len() as u32)),
            PUSH_FRONT => self.push_front(E::make(self.len() as u32)),
            POP => drop(self.pop_back()),
            _ => drop(self.pop_front()),
        }
    }
    fn reads() -> Vec<Read<Self>> {
        vec![
            ("len, is_empty", |c| vec![c.len() as u64, c.is_empty() as u64]),
            ("front, back", |c| vec![opt(c.front()), opt(c.back())]),
            ("iter", |c| walk(c.iter(), |e| addr(e) ^ e.value() as u64)),
            ("iter from the back", |c| back(c.iter(), addr)),
            ("iter, as a pair for C++", |c| {
                let (b, e) = c.iter().into_compat();
                let it = unsafe { eastl_rs::deque::iter::Iter::from_compat(b, e) };
                walk(it, addr)
            }),
            ("debug", |c| debug(c)),
        ]
    }
    fn state(&self) -> Vec<u64> {
        // the links, up to where the blocks lie
        let w = unsafe { std::slice::from_raw_parts(self as *const Self as *const u64, 10) };
        let map = w[0];
        let mut v = vec![self.len() as u64, w[1]];
        v.extend([2, 6].iter().map(|&i| w[i].wrapping_sub(w[i + 1]) / size_of::<E>().max(1) as u64));
        v.extend([5, 9].iter().map(|&i| w[i].wrapping_sub(map) / 8));
        v
    }
}

impl<E: Elem, A: TestAlloc> Subject for Queue<'static, E, A> {
    const GLOBAL: bool = A::GLOBAL;
    const GROW: u32 = PUSH;
    fn name() -> String {
        format!("Queue of {}, {}", E::NAME, A::NAME)
    }
    unsafe fn place(at: &mut MaybeUninit<Self>) {
        at.write(Queue::default());
    }
    fn ops(&self, max: u32, out: &mut Vec<Op>) {
        if (self.len() as u32) < max {
            out.push(op(PUSH, 0, 0));
        }
        if self.len() > 0 {
            out.push(op(POP, 0, 0));
        }
    }
    fn apply(&mut self, o: Op) {
        match o.c {
            PUSH => self.push(E::make(self.len() as u32)),
            _ => drop(self.pop()),
        }
    }
    fn reads() -> Vec<Read<Self>> {
        vec![
            ("len, is_empty", |c| vec![c.len() as u64, c.is_empty() as u64]),
            ("top", |c| vec![opt(c.top())]),
            ("iter", |c| walk(c.iter(), |e| addr(e) ^ e.value() as u64)),
            ("iter from the back", |c| back(c.iter(), addr)),
            ("debug", |c| debug(c)),
        ]
    }
    fn state(&self) -> Vec<u64> {
        let w = unsafe { std::slice::from_raw_parts(self as *const Self as *const u64, 10) };
        let mut v = vec![self.len() as u64, w[1]];
        v.extend([2, 6].iter().map(|&i| w[i].wrapping_sub(w[i + 1]) / size_of::<E>().max(1) as u64));
        v.extend([5, 9].iter().map(|&i| w[i].wrapping_sub(w[0]) / 8));
        v
    }
}

macro_rules! list_subject {
    ($t:ty, [$($g:tt)*], $name:expr, $make:expr, $inner:expr) => {
        impl<E: Elem, A: TestAlloc, $($g)*> Subject for $t {
            const GLOBAL: bool = A::GLOBAL;
            const GROW: u32 = PUSH;
            fn name() -> String {
                $name
            }
            unsafe fn place(at: &mut MaybeUninit<Self>) {
                $make.new(Pin::new_unchecked(at));
            }
            fn ops(&self, max: u32, out: &mut Vec<Op>) {
                if (self.len() as u32) < max {
                    out.extend([op(PUSH, 0, 0), op(PUSH_FRONT, 0, 0)]);
                }
                if self.len() > 0 {
                    out.extend([op(POP, 0, 0), op(POP_FRONT, 0, 0), op(CLEAR, 0, 0)]);
                }
            }
            fn apply(&mut self, o: Op) {
                let n = self.len() as u32;
                match o.c {
                    PUSH => self.push_back(E::make(n)),
                    PUSH_FRONT => self.push_front(E::make(n)),
                    POP => drop(self.pop_back()),
                    POP_FRONT => drop(self.pop_front()),
                    _ => self.clear(),
                }
            }
            fn reads() -> Vec<Read<Self>> {
                vec![
                    ("len, size, is_empty, empty", |c| vec![c.len() as u64, c.size() as u64, c.is_empty() as u64, c.empty() as u64]),
                    ("front, back", |c| vec![opt(c.front()), opt(c.back())]),
                    ("iter", |c| walk(c.iter(), |e| addr(e) ^ e.value() as u64)),
                    ("debug", |c| debug(c)),
                ]
            }
            fn state(&self) -> Vec<u64> {
                let me = self as *const Self as usize;
                let mut v = vec![self.len() as u64];
                // which nodes are inline
                v.extend(self.iter().map(|e| {
                    let a = e as *const E as usize;
                    if a >= me && a < me + size_of::<Self>() { (a - me) as u64 } else { 1 << 20 }
                }));
                v
            }
        }
    };
}
list_subject!(List<E, A>, [], format!("List of {}, {}", E::NAME, A::NAME), List::<E, A>::new_in(A::make(0)), 0);
list_subject!(FixedList<E, N, A>, [const N: usize], format!("FixedList of {N} x {}, {}", E::NAME, A::NAME), FixedList::<E, N, A>::new_in(A::make(0)), 0);

// ---- by key

fn key_ops(len: usize, max: u32, has: impl Fn(u32) -> bool, out: &mut Vec<Op>) {
    for k in 1..=max.min(KEYS) {
        out.push(if has(k) { op(REMOVE, k, 0) } else { op(INSERT, k, 0) });
    }
    if len > 0 {
        out.push(op(CLEAR, 0, 0));
    }
}

impl<K: Elem + PartialEq, V: Elem, A: TestAlloc, H: Hash<K> + 'static, E: Equals<K> + 'static> Subject for HashMap<K, V, A, H, E> {
    const GLOBAL: bool = A::GLOBAL;
    const GROW: u32 = INSERT;
    fn name() -> String {
        format!("HashMap of {} to {}, {}, {}", K::NAME, V::NAME, A::NAME, std::any::type_name::<H>().rsplit("::").next().unwrap())
    }
    unsafe fn place(at: &mut MaybeUninit<Self>) {
        at.write(HashMap::new_in(A::make(0)));
    }
    fn ops(&self, max: u32, out: &mut Vec<Op>) {
        key_ops(self.len(), max, |k| self.contains_key(&K::make(k)), out)
    }
    fn apply(&mut self, o: Op) {
        match o.c {
            INSERT => drop(self.insert(K::make(o.a), V::make(o.a + 100))),
            REMOVE => drop(self.remove(&K::make(o.a))),
            _ => self.clear(),
        }
    }
    fn reads() -> Vec<Read<Self>> {
        vec![
            ("len, is_empty", |c| vec![c.len() as u64, c.is_empty() as u64]),
            ("get", |c| each_key(|k| opt(c.get(k)))),
            ("contains_key", |c| each_key(|k| c.contains_key(k) as u64)),
            ("iter", |c| walk(c.iter(), |(k, v)| addr(k) ^ addr(v) << 20 ^ v.value() as u64)),
            ("iter, as a pair for C++", |c| {
                let (b, e) = c.iter().into_compat();
                walk(unsafe { eastl_rs::hash_map::iter::Iter::from_compat(b, e) }, |(k, _)| addr(k))
            }),
            ("debug", |c| debug(c)),
        ]
    }
    fn state(&self) -> Vec<u64> {
        let mut v = vec![unsafe { super::word(self, 2) } as u64];
        v.extend(self.iter().map(|(k, _)| k.value() as u64));
        v
    }
}

impl<K: Elem + PartialEq, A: TestAlloc, H: Hash<K> + 'static, E: Equals<K> + 'static> Subject for HashSet<K, A, H, E> {
    const GLOBAL: bool = A::GLOBAL;
    const GROW: u32 = INSERT;
    fn name() -> String {
        format!("HashSet of {}, {}, {}", K::NAME, A::NAME, std::any::type_name::<H>().rsplit("::").next().unwrap())
    }
    unsafe fn place(at: &mut MaybeUninit<Self>) {
        at.write(HashSet::new_in(A::make(0)));
    }
    fn ops(&self, max: u32, out: &mut Vec<Op>) {
        key_ops(self.len(), max, |k| self.contains_key(&K::make(k)), out)
    }
    fn apply(&mut self, o: Op) {
        match o.c {
            INSERT => {
                self.insert(K::make(o.a));
            }
            REMOVE => drop(self.remove(&K::make(o.a))),
            _ => self.clear(),
        }
    }
    fn reads() -> Vec<Read<Self>> {
        vec![
            ("len, is_empty", |c| vec![c.len() as u64, c.is_empty() as u64]),
            ("get", |c| each_key(|k| opt(c.get(k)))),
            ("contains_key", |c| each_key(|k| c.contains_key(k) as u64)),
            ("iter", |c| walk(c.iter(), |k| addr(k) ^ k.value() as u64)),
            ("debug", |c| debug(c)),
        ]
    }
    fn state(&self) -> Vec<u64> {
        let mut v = vec![unsafe { super::word(self, 2) } as u64];
        v.extend(self.iter().map(|k| k.value() as u64));
        v
    }
}

impl<K: Elem + PartialEq + PartialOrd, V: Elem, A: TestAlloc> Subject for VectorMap<K, V, A, Less<K>> {
    const GLOBAL: bool = A::GLOBAL;
    const GROW: u32 = INSERT;
    fn name() -> String {
        format!("VectorMap of {} to {}, {}", K::NAME, V::NAME, A::NAME)
    }
    unsafe fn place(at: &mut MaybeUninit<Self>) {
        at.write(VectorMap::new());
    }
    fn ops(&self, max: u32, out: &mut Vec<Op>) {
        key_ops(self.len(), max, |k| self.contains_key(&K::make(k)), out)
    }
    fn apply(&mut self, o: Op) {
        match o.c {
            INSERT => drop(self.insert(K::make(o.a), V::make(o.a + 100))),
            REMOVE => drop(self.remove(&K::make(o.a))),
            _ => self.clear(),
        }
    }
    fn reads() -> Vec<Read<Self>> {
        vec![
            ("len, is_empty, capacity", |c| vec![c.len() as u64, c.is_empty() as u64, c.capacity() as u64]),
            ("get", |c| each_key(|k| opt(c.get(k)))),
            ("contains_key", |c| each_key(|k| c.contains_key(k) as u64)),
            ("as_ref", |c| walk(c.as_ref().iter(), |p| addr(p) ^ p.1.value() as u64)),
            ("deref", |c| walk(c.iter().rev(), addr)),
            ("debug", |c| debug(c)),
        ]
    }
    fn state(&self) -> Vec<u64> {
        let mut v = vec![self.capacity() as u64];
        v.extend(self.iter().map(|(k, _)| k.value() as u64));
        v
    }
}

// ---- trees

fn tree_shapes() -> Arc<Vec<Shape>> {
    tree::shapes(1, 7)
}
fn tree_reads<K: Elem, V: Elem, T: Tree<K, V>>() -> Vec<Read<TreeOf<K, V, T>>> {
    vec![
        ("len, is_empty", |c| vec![c.t.len() as u64, c.t.is_empty() as u64]),
        ("get", |c| (0..=16).map(|k| opt(c.t.get(&K::make(k)))).collect()),
        ("contains_key", |c| (0..=16).map(|k| c.t.contains(&K::make(k)) as u64).collect()),
        ("iter", |c| unsafe { walk(c.t.iter(), |(k, v)| addr(k) ^ opt(v) << 20) }),
        ("debug", |c| text(c.t.debug().unwrap_or_default())),
    ]
}
#[repr(transparent)]
pub struct TreeOf<K: Elem, V: Elem, T: Tree<K, V>> {
    t: T,
    _p: std::marker::PhantomData<(K, V)>,
}
impl<K: Elem, V: Elem, T: Tree<K, V>> Subject for TreeOf<K, V, T> {
    const GLOBAL: bool = T::GLOBAL;
    const GROW: u32 = 0;
    fn name() -> String {
        format!("{} of {} to {}", T::KIND, K::NAME, V::NAME)
    }
    unsafe fn place(at: &mut MaybeUninit<Self>) {
        T::build(&mut *(at as *mut MaybeUninit<Self> as *mut MaybeUninit<T>), 0);
    }
    fn ops(&self, _: u32, out: &mut Vec<Op>) {
        if self.t.is_empty() {
            let n = tree_shapes().iter().filter(|s| T::MORE || s.len() <= T::N).count();
            out.extend((0..n as u32).map(|i| op(BUILD, i, 0)));
        } else {
            out.push(op(CLEAR, 0, 0));
        }
    }
    fn apply(&mut self, o: Op) {
        match o.c {
            BUILD => unsafe { tree::fill::<K, V, T>(&mut self.t, &tree_shapes()[o.a as usize]) },
            _ => self.t.clear(),
        }
    }
    fn reads() -> Vec<Read<Self>> {
        tree_reads::<K, V, T>()
    }
    fn state(&self) -> Vec<u64> {
        unsafe { tree::code::<K, V, T>(&self.t) }
    }
}
pub type MapOf<K, V, A> = TreeOf<K, V, Map<K, V, A, Less<K>>>;
pub type SetOf<K, A> = TreeOf<K, (), Set<K, A, Less<K>>>;
