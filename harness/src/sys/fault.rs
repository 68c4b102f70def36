//! Panics in caller-supplied code: every operation, at every call it makes into that code.

use super::hash::{EFn, HFn};
use super::list::Lst;
use super::vmap::Cmp;
use crate::alloc::TrackAlloc;
use crate::explore::{op, Op, System};
use crate::rt::{caller_code, catch, cx, op_start, Caught};
use crate::tok::*;
use eastl_rs::fixed_vector::FixedVector;
use eastl_rs::hash_map::HashMap;
use eastl_rs::hash_set::HashSet;
use eastl_rs::vector_map::{Entry, VectorMap};
use eastl_rs::{Allocator, Deque, Queue, String, Vector};
use moveit::New;
use std::marker::PhantomData;
use std::mem::MaybeUninit;
use std::pin::Pin;

/// An element as the safe interface shows it.
pub type Seen = (u32, u32);

/// A container whose operations call code that may panic.
pub trait Victim: 'static {
    const KIND: &'static str;
    fn new() -> Self;
    /// brings the container to size `n`
    fn build(&mut self, n: u32);
    fn sizes() -> u32;
    /// operations: code, argument, the most calls into caller-supplied code it may need
    fn ops(&self, out: &mut Vec<(u32, u32, u32)>);
    fn run(&mut self, c: u32, a: u32);
    /// everything the safe interface shows; also that it is consistent
    fn content(&mut self, consistent: bool) -> Vec<Seen>;
    /// what may be seen after an operation that was cut short
    fn allowed(&self, c: u32, a: u32, before: &[Seen], after: &[Seen]) -> bool;
    fn name(c: u32, a: u32) -> std::string::String;
    /// the same for large containers
    fn build_large(&mut self, n: u32) {
        self.build(n)
    }
    fn ops_large(&self, out: &mut Vec<(u32, u32, u32)>) {
        self.ops(out)
    }
    /// the part of the state that the content does not show
    fn key(&self, _: &mut Vec<u8>) {}
}

pub struct FaultSys<V: Victim> {
    v: V,
    steps: usize,
    /// how many operations may be cut short
    faults: usize,
    depth: usize,
    hit: usize,
    /// an operation was cut short in the middle of moving elements to new storage
    torn: bool,
    /// large containers of these sizes, and operations on as many elements
    large: Option<&'static [u32]>,
    who: Who,
}

/// Whose code panics.
#[derive(Clone, Copy, PartialEq)]
enum Who {
    /// clones, comparisons, hashes, closures, source iterators
    Caller,
    Destructors,
    Allocators,
}

/// the container itself is dropped, and an empty one takes its place
const DROP: u32 = 99;
const BUILD: u32 = 1;

impl<V: Victim> FaultSys<V> {
    /// Builds any size, then runs any operation cut short at any point, `faults` times, then any
    /// operation, up to `depth` in all.
    pub fn new(faults: usize, depth: usize) -> Box<dyn System> {
        Box::new(FaultSys { v: V::new(), steps: 0, faults, depth, hit: 0, torn: false, large: None, who: Who::Caller })
    }

    /// The same from large sizes, with operations on many elements.
    pub fn large(sizes: &'static [u32], depth: usize) -> Box<dyn System> {
        Box::new(FaultSys { v: V::new(), steps: 0, faults: 1, depth, hit: 0, torn: false, large: Some(sizes), who: Who::Caller })
    }
    /// The same with destructors that panic.
    pub fn destructors(faults: usize, depth: usize) -> Box<dyn System> {
        Box::new(FaultSys { v: V::new(), steps: 0, faults, depth, hit: 0, torn: false, large: None, who: Who::Destructors })
    }
    pub fn destructors_large(sizes: &'static [u32], depth: usize) -> Box<dyn System> {
        Box::new(FaultSys { v: V::new(), steps: 0, faults: 1, depth, hit: 0, torn: false, large: Some(sizes), who: Who::Destructors })
    }
    /// The same with allocators that panic instead of serving a request.
    pub fn refusals(faults: usize, depth: usize) -> Box<dyn System> {
        Box::new(FaultSys { v: V::new(), steps: 0, faults, depth, hit: 0, torn: false, large: None, who: Who::Allocators })
    }
    pub fn refusals_large(sizes: &'static [u32], depth: usize) -> Box<dyn System> {
        Box::new(FaultSys { v: V::new(), steps: 0, faults: 1, depth, hit: 0, torn: false, large: Some(sizes), who: Who::Allocators })
    }
}

fn brief(v: &[Seen]) -> std::string::String {
    if v.len() > 24 {
        return format!("{} elements, {:?}.. to ..{:?}", v.len(), &v[..4], &v[v.len() - 4..]);
    }
    format!("{v:?}")
}

/// How many elements operations on large containers are given.
const MANY: [u32; 15] = [1, 10, 11, 12, 15, 16, 17, 24, 31, 33, 63, 64, 65, 129, 257];

fn seen<E: Elem>(e: &E) -> Seen {
    // value() reports an element that is not alive
    let val = e.value();
    (e.serial(), val)
}

impl<V: Victim> System for FaultSys<V> {
    fn ops(&self, _: u8, out: &mut Vec<Op>) {
        if self.steps == 0 {
            match self.large {
                None => out.extend((0..V::sizes()).map(|n| op(BUILD, n, 0))),
                Some(sizes) => out.extend(sizes.iter().map(|&n| op(BUILD, n, 0))),
            }
            return;
        }
        if self.steps > self.depth {
            return;
        }
        let mut v = vec![];
        // the second operation on a large container is one of a few
        if self.large.is_some() && self.steps == 1 {
            self.v.ops_large(&mut v);
        } else {
            self.v.ops(&mut v);
        }
        if self.who == Who::Destructors {
            // an operation ends the life of no more elements than there are, and its arguments, and clones of them
            let live = cx().regs.iter().filter(|r| r.live).count() as u32;
            v.push((DROP, 0, 0));
            if self.large.is_some() && self.steps == 1 {
                v.push((CLEAR, 0, 0));
            }
            for x in &mut v {
                x.2 = live + if matches!(x.0, APPEND | ASSIGN | FROM | FROM_MUT | FROM_IN | COLLECT | EXTEND) { 2 * x.1 } else { 0 } + 4;
            }
        }
        if self.who == Who::Allocators {
            // the sources of elements bring one request each at most, hash tables and deques one more for every growth
            for x in &mut v {
                x.2 = match x.0 {
                    APPEND | ASSIGN | FROM | FROM_MUT | FROM_IN | CLONE | FROM_ARRAY | RESERVE => 2,
                    EXTEND | COLLECT => x.1 + 2 * (32 - x.1.leading_zeros()) + 3,
                    c if c > 100 => x.1 + 2 * (32 - x.1.leading_zeros()) + 3,
                    PUSH | PUSH_F | INSERT | ENTRY | OR_INSERT | OR_INSERT_WITH | AND_MODIFY => 3,
                    _ => 0,
                };
            }
        }
        for (c, a, most) in v {
            if self.steps > self.faults || most == 0 {
                out.push(op(c, a, 0));
            } else {
                for n in 1..=most + 1 {
                    out.push(op(c, a, n));
                }
            }
        }
    }

    fn step(&mut self, o: Op, full: bool) {
        if o.c == 0 {
            return;
        }
        if o.c == BUILD {
            if self.large.is_some() {
                self.v.build_large(o.a);
            } else {
                self.v.build(o.a);
            }
            self.steps = 1;
            return;
        }
        self.steps += 1;
        let before = self.v.content(!self.torn);
        op_start();
        cx().fault_in = if o.b == 0 { -1 } else { o.b as i64 - 1 };
        cx().fault_drops = self.who == Who::Destructors;
        cx().fault_allocs = self.who == Who::Allocators;
        let r = if o.c == DROP {
            let v = std::mem::replace(&mut self.v, V::new());
            catch(|| drop(v))
        } else {
            catch(|| self.v.run(o.c, o.a))
        };
        cx().fault_in = -1;
        cx().fault_drops = false;
        cx().fault_allocs = false;
        match r {
            Caught::Injected if self.who == Who::Destructors => {
                self.hit += 1;
                let after = self.v.content(true);
                let ok = match o.c {
                    DROP => after.is_empty(),
                    CLEAR => after.iter().all(|x| before.contains(x)),
                    // what matters is that everything shown is alive, in one place and counted
                    _ => true,
                };
                check!(ok, Fault, "{} leaves {} of {}", self.show(o), brief(&after), brief(&before));
            }
            Caught::Ok(()) => {}
            Caught::Injected => {
                self.hit += 1;
                // a panic of a stored key's hash while elements move to new buckets may lose some
                let moving = self.who == Who::Caller && V::KIND.starts_with("Hash") && !cx().allocs.is_empty();
                self.torn |= moving;
                let after = self.v.content(!self.torn);
                let ok = if moving { after.iter().all(|x| before.contains(x)) } else { self.v.allowed(o.c, o.a, &before, &after) };
                check!(ok, Fault, "{} leaves {} of {}", self.show(o), brief(&after), brief(&before));
            }
            Caught::Panicked(m) => bad!(Panic, "{} panics: {m}", V::name(o.c, o.a)),
            Caught::Refused(s, al) => bad!(Alloc, "{} asks for {s} bytes aligned {al}", V::name(o.c, o.a)),
        }
        if full {
            let mut s: Vec<u32> = self.v.content(!self.torn).iter().map(|x| x.0).filter(|&x| x != 0).collect();
            s.sort_unstable();
            let n = s.len();
            s.dedup();
            check!(s.len() == n, Element, "one element is seen in two places");
        }
    }

    fn key(&self, out: &mut Vec<u8>) {
        out.push(self.steps as u8);
        out.push(self.torn as u8);
        out.push((self.hit > 0) as u8);
        self.v.key(out);
    }

    fn end(self: Box<Self>) {
        drop(self.v);
    }

    fn show(&self, o: Op) -> std::string::String {
        if o.c == BUILD {
            return format!("{} of size {}", V::KIND, o.a);
        }
        let n = if o.c == DROP { "drop".into() } else { V::name(o.c, o.a) };
        if o.b == 0 {
            n
        } else if self.who == Who::Allocators {
            format!("{n}, where request number {} makes the allocator panic", o.b)
        } else if self.who == Who::Destructors {
            format!("{n}, where destructor number {} panics", o.b)
        } else {
            format!("{n}, panicking at call {} into the caller's code", o.b)
        }
    }
}

/// A source that calls code that may panic before each element.
struct Source<T> {
    left: std::vec::IntoIter<T>,
    hint: bool,
}
impl<T> Source<T> {
    fn new(v: Vec<T>, hint: bool) -> Self {
        Source { left: v.into_iter(), hint }
    }
}
impl<T> Iterator for Source<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        caller_code();
        self.left.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.hint {
            self.left.size_hint()
        } else {
            (0, None)
        }
    }
}

const APPEND: u32 = 2;
const ASSIGN: u32 = 3;
const CLONE: u32 = 4;
const FROM: u32 = 5;
const FROM_IN: u32 = 6;
const COLLECT: u32 = 7;
const PUSH: u32 = 8;
const POP: u32 = 9;
const INSERT: u32 = 10;
const REMOVE: u32 = 11;
const CLEAR: u32 = 12;
const RESERVE: u32 = 13;
const EXTEND: u32 = 14;
const ITERATE: u32 = 15;
const GET: u32 = 16;
const GET_MUT: u32 = 17;
const CONTAINS: u32 = 18;
const REMOVE_ENTRY: u32 = 19;
const OR_INSERT: u32 = 20;
const OR_INSERT_WITH: u32 = 21;
const AND_MODIFY: u32 = 22;
const POP_F: u32 = 23;
const PUSH_F: u32 = 24;
const FROM_MUT: u32 = 25;
const FROM_ARRAY: u32 = 26;
const INTO_ITER: u32 = 27;
const ENTRY: u32 = 28;

fn op_name(c: u32, a: u32) -> std::string::String {
    match c {
        APPEND => format!("append of {a}"),
        ASSIGN => format!("assign of {a}"),
        CLONE => "clone".into(),
        FROM => format!("from a slice of {a}"),
        FROM_IN => format!("from_in of {a}"),
        FROM_MUT => format!("from a mutable slice of {a}"),
        FROM_ARRAY => "from an array".into(),
        COLLECT => format!("collecting {a}"),
        PUSH => "push".into(),
        PUSH_F => "push at the front".into(),
        POP => "pop".into(),
        POP_F => "pop at the front".into(),
        INSERT => format!("insert({a})"),
        REMOVE => format!("remove({a})"),
        CLEAR => "clear".into(),
        RESERVE => format!("reserve({a})"),
        EXTEND => format!("extend by {a}"),
        ITERATE => "iteration".into(),
        INTO_ITER => "consuming iteration".into(),
        GET => format!("get({a})"),
        GET_MUT => format!("get_mut({a})"),
        CONTAINS => format!("contains_key({a})"),
        REMOVE_ENTRY => format!("remove_entry({a})"),
        ENTRY => format!("entry({a})"),
        OR_INSERT => format!("entry({a}).or_insert"),
        OR_INSERT_WITH => format!("entry({a}).or_insert_with"),
        AND_MODIFY => format!("entry({a}).and_modify.or_insert"),
        c => format!("operation {c}({a})"),
    }
}

const SRC: u32 = 100;

/// The source elements of an append or assign; they must survive.
fn source<E: Elem>(n: u32) -> Vec<E> {
    (0..n).map(|i| E::make(SRC + i)).collect()
}
fn intact<E: Elem>(v: &[E]) {
    for (i, e) in v.iter().enumerate() {
        check!(e.value() as u64 == (SRC as u64 + i as u64) % E::VALS, Element, "a source element was changed");
    }
}

/// Elements read through a slice.
fn slice_seen<E: Elem>(v: &[E]) -> Vec<Seen> {
    v.iter().map(seen).collect()
}

/// The operations of a vector, whatever its allocator.
fn vec_run<E: Elem, A: Allocator>(v: &mut Vector<E, A>, c: u32, a: u32) {
    match c {
        APPEND => {
            let s = source::<E>(a);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.append(&s)));
            intact(&s);
            if let Err(e) = r {
                drop(s);
                std::panic::resume_unwind(e);
            }
        }
        ASSIGN => {
            let s = source::<E>(a);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.assign(&s)));
            intact(&s);
            if let Err(e) = r {
                drop(s);
                std::panic::resume_unwind(e);
            }
        }
        PUSH => v.push(E::make(7)),
        POP => drop(v.pop()),
        INSERT => v.insert((a as usize).min(v.len()), E::make(8)),
        REMOVE => drop(v.remove(a as usize)),
        CLEAR => v.clear(),
        RESERVE => v.reserve(a as usize),
        _ => {}
    }
}
fn vec_allowed(c: u32, a: u32, before: &[Seen], after: &[Seen]) -> bool {
    match c {
        // the clones made so far may be there, after the old content
        APPEND => {
            after.starts_with(before)
                && after.len() <= before.len() + a as usize
                && after[before.len()..].iter().enumerate().all(|(i, x)| x.1 == SRC + i as u32)
        }
        // nothing but old elements and clones, all alive
        ASSIGN => after.iter().all(|x| before.contains(x) || (SRC..SRC + a).contains(&x.1)),
        _ => before == after,
    }
}
fn vec_ops(len: u32, out: &mut Vec<(u32, u32, u32)>) {
    for n in 0..4 {
        out.push((APPEND, n, n));
        out.push((ASSIGN, n, n));
    }
    out.push((APPEND, 9, 9));
    out.push((ASSIGN, 9, 9));
    out.push((PUSH, 0, 0));
    out.push((POP, 0, 0));
    out.push((INSERT, len / 2, 0));
    out.push((REMOVE, 0, 0));
    out.push((CLEAR, 0, 0));
    out.push((RESERVE, 3, 0));
}

fn vec_ops_large(len: u32, out: &mut Vec<(u32, u32, u32)>) {
    for n in MANY {
        out.push((APPEND, n, n));
        out.push((ASSIGN, n, n));
    }
    for i in [0, len / 2, len] {
        out.push((INSERT, i, 0));
    }
    out.push((RESERVE, 100, 0));
}

pub struct VecVictim<E: Elem> {
    v: Vector<E, TrackAlloc>,
}
impl<E: Elem> Victim for VecVictim<E> {
    const KIND: &'static str = "Vector";
    fn new() -> Self {
        VecVictim { v: Vector::new() }
    }
    fn sizes() -> u32 {
        6
    }
    fn build(&mut self, n: u32) {
        self.v.reserve(n as usize / 2);
        for i in 0..n {
            self.v.push(E::make(i));
        }
    }
    fn ops(&self, out: &mut Vec<(u32, u32, u32)>) {
        vec_ops(self.v.len() as u32, out);
        out.push((CLONE, 0, self.v.len() as u32));
        for n in [1, 3] {
            out.push((FROM, n, n));
            out.push((FROM_MUT, n, n));
            out.push((FROM_IN, n, n));
            out.push((COLLECT, 2 * n, n + 1));
            out.push((COLLECT, 2 * n + 1, n + 1));
        }
        out.push((FROM_ARRAY, 0, 3));
    }
    fn ops_large(&self, out: &mut Vec<(u32, u32, u32)>) {
        let n = self.v.len() as u32;
        vec_ops_large(n, out);
        out.push((CLONE, 0, n));
        // these do not depend on the vector
        if n <= 1 {
            for n in MANY {
                for c in [FROM, FROM_MUT, FROM_IN] {
                    out.push((c, n, n));
                }
                out.push((COLLECT, 2 * n, n + 1));
                out.push((COLLECT, 2 * n + 1, n + 1));
            }
        }
    }
    fn run(&mut self, c: u32, a: u32) {
        type W<E> = Vector<E, TrackAlloc>;
        match c {
            CLONE => {
                let w = self.v.clone();
                check!(w.len() == self.v.len(), Semantic, "a clone has another length");
            }
            FROM => {
                let s = source::<E>(a);
                let w = W::from(&s[..]);
                check!(w.len() == s.len(), Semantic, "from a slice: another length");
            }
            FROM_MUT => {
                let mut s = source::<E>(a);
                let w = W::from(&mut s[..]);
                check!(w.len() == s.len(), Semantic, "from a slice: another length");
            }
            FROM_IN => {
                let s = source::<E>(a);
                let w = unsafe { W::from_in(&s, TrackAlloc::new(4)) };
                check!(w.len() == s.len(), Semantic, "from_in: another length");
            }
            FROM_ARRAY => {
                let s = [E::make(1), E::make(2), E::make(3)];
                let w = W::from(&s);
                check!(w.len() == s.len(), Semantic, "from an array: another length");
            }
            COLLECT => {
                let s = source::<E>(a / 2);
                let n = s.len();
                let w: W<E> = Source::new(s, a % 2 == 1).collect();
                check!(w.len() == n, Semantic, "collect: another length");
            }
            _ => vec_run(&mut self.v, c, a),
        }
    }
    fn content(&mut self, _: bool) -> Vec<Seen> {
        check!(self.v.len() <= self.v.capacity(), Fault, "more elements than the capacity");
        slice_seen(&self.v)
    }
    fn allowed(&self, c: u32, a: u32, before: &[Seen], after: &[Seen]) -> bool {
        vec_allowed(c, a, before, after)
    }
    fn name(c: u32, a: u32) -> std::string::String {
        op_name(c, a)
    }
    fn key(&self, out: &mut Vec<u8>) {
        out.extend((self.v.len() as u32).to_le_bytes());
        out.extend((self.v.capacity() as u32).to_le_bytes());
    }
}

pub struct FixedVecVictim<E: Elem, const N: usize> {
    v: Box<MaybeUninit<FixedVector<E, N, TrackAlloc>>>,
}
impl<E: Elem, const N: usize> FixedVecVictim<E, N> {
    fn v(&mut self) -> &mut FixedVector<E, N, TrackAlloc> {
        unsafe { self.v.assume_init_mut() }
    }
}
impl<E: Elem, const N: usize> Drop for FixedVecVictim<E, N> {
    fn drop(&mut self) {
        unsafe { self.v.assume_init_drop() }
    }
}
impl<E: Elem, const N: usize> Victim for FixedVecVictim<E, N> {
    const KIND: &'static str = "FixedVector";
    fn new() -> Self {
        let mut v = Box::new(MaybeUninit::uninit());
        unsafe { New::new(FixedVector::<E, N, TrackAlloc>::new(), Pin::new_unchecked(&mut *v)) };
        FixedVecVictim { v }
    }
    fn sizes() -> u32 {
        N as u32 + 3
    }
    fn build(&mut self, n: u32) {
        for i in 0..n {
            self.v().push(E::make(i));
        }
    }
    fn ops(&self, out: &mut Vec<(u32, u32, u32)>) {
        vec_ops(unsafe { self.v.assume_init_ref() }.len() as u32, out);
    }
    fn ops_large(&self, out: &mut Vec<(u32, u32, u32)>) {
        vec_ops_large(unsafe { self.v.assume_init_ref() }.len() as u32, out);
    }
    fn run(&mut self, c: u32, a: u32) {
        match c {
            CLEAR => self.v().clear(),
            _ => vec_run(&mut **self.v(), c, a),
        }
    }
    fn content(&mut self, _: bool) -> Vec<Seen> {
        check!(self.v().len() <= self.v().capacity(), Fault, "more elements than the capacity");
        slice_seen(&self.v()[..])
    }
    fn allowed(&self, c: u32, a: u32, before: &[Seen], after: &[Seen]) -> bool {
        vec_allowed(c, a, before, after)
    }
    fn name(c: u32, a: u32) -> std::string::String {
        op_name(c, a)
    }
    fn key(&self, out: &mut Vec<u8>) {
        let v = unsafe { self.v.assume_init_ref() };
        out.extend((v.len() as u32).to_le_bytes());
        out.extend((v.capacity() as u32).to_le_bytes());
        out.push(v.has_overflowed() as u8);
    }
}

/// Deques and queues call nobody except a source of elements.
pub struct DequeVictim<E: Elem> {
    v: Deque<'static, E, TrackAlloc>,
}
impl<E: Elem> Victim for DequeVictim<E> {
    const KIND: &'static str = "Deque";
    fn new() -> Self {
        DequeVictim { v: Deque::new() }
    }
    fn sizes() -> u32 {
        3
    }
    fn build(&mut self, n: u32) {
        for i in 0..n {
            self.v.push_back(E::make(i));
        }
    }
    fn ops(&self, out: &mut Vec<(u32, u32, u32)>) {
        for n in [0, 1, 3, 4, 5, 9, 20] {
            out.push((COLLECT, n, n + 1));
            out.push((EXTEND, n, n + 1));
        }
        out.push((PUSH, 0, 0));
        out.push((POP, 0, 0));
    }
    fn ops_large(&self, out: &mut Vec<(u32, u32, u32)>) {
        for n in MANY {
            out.push((COLLECT, n, n + 1));
            out.push((EXTEND, n, n + 1));
        }
    }
    fn run(&mut self, c: u32, a: u32) {
        match c {
            COLLECT => {
                let w: Deque<'static, E, TrackAlloc> = Source::new(source::<E>(a), true).collect();
                check!(w.len() == a as usize, Semantic, "collect: another length");
            }
            EXTEND => {
                let w: Queue<'static, E, TrackAlloc> = Source::new(source::<E>(a), false).collect();
                check!(w.len() == a as usize, Semantic, "collect: another length");
            }
            PUSH => self.v.push_front(E::make(5)),
            POP => drop(self.v.pop_back()),
            _ => {}
        }
    }
    fn content(&mut self, _: bool) -> Vec<Seen> {
        self.v.iter().map(seen).collect()
    }
    fn allowed(&self, _: u32, _: u32, before: &[Seen], after: &[Seen]) -> bool {
        before == after
    }
    fn name(c: u32, a: u32) -> std::string::String {
        if c == EXTEND {
            format!("collecting {a} into a Queue")
        } else {
            op_name(c, a)
        }
    }
    fn key(&self, out: &mut Vec<u8>) {
        out.extend((self.v.len() as u32).to_le_bytes());
    }
}

pub struct ListVictim<E: Elem, L: Lst<E, TrackAlloc>> {
    v: Box<MaybeUninit<L>>,
    _p: PhantomData<E>,
}
impl<E: Elem, L: Lst<E, TrackAlloc>> ListVictim<E, L> {
    fn v(&mut self) -> &mut L {
        unsafe { self.v.assume_init_mut() }
    }
}
impl<E: Elem, L: Lst<E, TrackAlloc>> Drop for ListVictim<E, L> {
    fn drop(&mut self) {
        unsafe { self.v.assume_init_drop() }
    }
}
impl<E: Elem, L: Lst<E, TrackAlloc>> Victim for ListVictim<E, L>
where
    L: std::ops::DerefMut<Target: ExtendFrom<E>>,
{
    const KIND: &'static str = L::KIND;
    fn new() -> Self {
        let mut v = Box::new(MaybeUninit::uninit());
        unsafe { L::build(&mut v, true, 0) };
        ListVictim { v, _p: PhantomData }
    }
    fn sizes() -> u32 {
        4
    }
    fn build(&mut self, n: u32) {
        for i in 0..n {
            self.v().push_back(E::make(i));
        }
    }
    fn ops(&self, out: &mut Vec<(u32, u32, u32)>) {
        for n in [0, 1, 3, 6] {
            out.push((EXTEND, n, n + 1));
        }
        out.push((PUSH, 0, 0));
        out.push((POP, 0, 0));
        out.push((PUSH_F, 0, 0));
        out.push((POP_F, 0, 0));
        out.push((CLEAR, 0, 0));
    }
    fn ops_large(&self, out: &mut Vec<(u32, u32, u32)>) {
        for n in MANY {
            out.push((EXTEND, n, n + 1));
        }
    }
    fn run(&mut self, c: u32, a: u32) {
        match c {
            EXTEND => {
                let s = Source::new(source::<E>(a), a % 2 == 0);
                (**self.v()).extend_from(s);
            }
            PUSH => self.v().push_back(E::make(5)),
            POP => drop(self.v().pop_back()),
            PUSH_F => self.v().push_front(E::make(5)),
            POP_F => drop(self.v().pop_front()),
            CLEAR => self.v().clear(),
            _ => {}
        }
    }
    fn content(&mut self, _: bool) -> Vec<Seen> {
        let c: Vec<Seen> = self.v().iter().map(seen).collect();
        check!(self.v().lens().iter().all(|&n| n == c.len()), Fault, "the length is {:?} but iteration yields {}", self.v().lens(), c.len());
        c
    }
    fn allowed(&self, _: u32, a: u32, before: &[Seen], after: &[Seen]) -> bool {
        after.starts_with(before)
            && after.len() <= before.len() + a as usize
            && after[before.len()..].iter().enumerate().all(|(i, x)| x.1 == SRC + i as u32)
    }
    fn name(c: u32, a: u32) -> std::string::String {
        op_name(c, a)
    }
    fn key(&self, out: &mut Vec<u8>) {
        out.extend((unsafe { self.v.assume_init_ref() }.lens()[0] as u32).to_le_bytes());
    }
}
pub trait ExtendFrom<E> {
    fn extend_from<I: Iterator<Item = E>>(&mut self, i: I);
}
impl<E: Elem, A: Allocator + Default> ExtendFrom<E> for eastl_rs::List<E, A> {
    fn extend_from<I: Iterator<Item = E>>(&mut self, i: I) {
        self.extend(i)
    }
}

const KEYS: u32 = 4;

pub struct MapVictim<K: Elem + PartialEq, V: Elem, H: HFn<K>, Q: EFn<K>> {
    v: HashMap<K, V, TrackAlloc, H, Q>,
}
impl<K: Elem + PartialEq, V: Elem, H: HFn<K>, Q: EFn<K>> Victim for MapVictim<K, V, H, Q> {
    const KIND: &'static str = "HashMap";
    fn new() -> Self {
        MapVictim { v: unsafe { HashMap::new_in(TrackAlloc::new(2)) } }
    }
    fn sizes() -> u32 {
        16
    }
    /// sizes 0..8 hold that many keys; 8.. have had more and lost the first again
    fn build(&mut self, n: u32) {
        for i in 0..n % 8 {
            self.v.insert(K::make(i), V::make(50 + i));
        }
        if n >= 8 {
            for i in 0..(n % 8) / 2 {
                drop(self.v.remove(&K::make(i)));
            }
        }
    }
    fn build_large(&mut self, n: u32) {
        for i in 0..n {
            self.v.insert(K::make(i), V::make(50 + i));
        }
    }
    fn ops_large(&self, out: &mut Vec<(u32, u32, u32)>) {
        let n = self.v.len() as u32;
        for k in [0, 1, n / 2, n.saturating_sub(1), n, n + 3] {
            for c in [GET, REMOVE, REMOVE_ENTRY] {
                out.push((c, k, n + 2));
            }
            for c in [INSERT, OR_INSERT] {
                out.push((c, k, 2 * n + 3));
            }
            for c in [OR_INSERT_WITH, AND_MODIFY] {
                out.push((c, k, 2 * n + 4));
            }
        }
    }
    fn ops(&self, out: &mut Vec<(u32, u32, u32)>) {
        // one call for the hash and one per node of the bucket; a rehash hashes every key
        let n = self.v.len() as u32;
        for k in 0..=KEYS {
            for c in [GET, GET_MUT, CONTAINS, REMOVE, REMOVE_ENTRY] {
                out.push((c, k, n + 2));
            }
            for c in [INSERT, OR_INSERT] {
                out.push((c, k, 2 * n + 3));
            }
            for c in [OR_INSERT_WITH, AND_MODIFY] {
                out.push((c, k, 2 * n + 4));
            }
        }
        out.push((INSERT, 77, 2 * n + 3));
        out.push((OR_INSERT, 77, 2 * n + 3));
        out.push((CLEAR, 0, 0));
        out.push((ITERATE, 0, 0));
        out.push((COLLECT, 3, 8));
    }
    fn run(&mut self, c: u32, a: u32) {
        let v = &mut self.v;
        match c {
            GET => {
                let k = K::make(a);
                v.get(&k).map(|x| x.value());
            }
            CONTAINS => {
                let k = K::make(a);
                v.contains_key(&k);
            }
            GET_MUT => {
                let k = K::make(a);
                if let Some(x) = v.get_mut(&k) {
                    *x = V::make(60);
                }
            }
            REMOVE => {
                let k = K::make(a);
                drop(v.remove(&k));
            }
            REMOVE_ENTRY => {
                let k = K::make(a);
                drop(v.remove_entry(&k));
            }
            INSERT => drop(v.insert(K::make(a), V::make(61))),
            OR_INSERT => {
                v.entry(K::make(a)).or_insert(V::make(62)).value();
            }
            OR_INSERT_WITH => {
                v.entry(K::make(a))
                    .or_insert_with(|| {
                        caller_code();
                        V::make(63)
                    })
                    .value();
            }
            AND_MODIFY => {
                v.entry(K::make(a))
                    .and_modify(|x| {
                        caller_code();
                        *x = V::make(64);
                    })
                    .or_insert(V::make(65))
                    .value();
            }
            CLEAR => v.clear(),
            ITERATE => {
                for (_, x) in v.iter_mut() {
                    x.value();
                }
            }
            _ => {}
        }
    }
    fn content(&mut self, consistent: bool) -> Vec<Seen> {
        let mut c: Vec<(Seen, Seen)> = self.v.iter().map(|(k, v)| (seen(k), seen(v))).collect();
        if consistent {
            check!(self.v.len() == c.len(), Fault, "the length is {} but iteration yields {}", self.v.len(), c.len());
            for (k, x) in &c {
                let key = K::make(k.1);
                check!(self.v.get(&key).map(seen) == Some(*x), Fault, "a key that iteration yields is not found");
            }
        }
        c.sort_by_key(|x| x.0 .1);
        c.into_iter().flat_map(|(a, b)| [a, b]).collect()
    }
    fn allowed(&self, _: u32, _: u32, before: &[Seen], after: &[Seen]) -> bool {
        before == after
    }
    fn name(c: u32, a: u32) -> std::string::String {
        op_name(c, a)
    }
    fn key(&self, out: &mut Vec<u8>) {
        let mut ks: Vec<u32> = self.v.iter().map(|(k, _)| k.value()).collect();
        ks.sort_unstable();
        out.extend(ks.iter().flat_map(|k| k.to_le_bytes()));
        out.push(255);
        // the bucket count
        out.extend(unsafe { super::word(&self.v, 2) as u32 }.to_le_bytes());
    }
}

pub struct SetVictim<K: Elem + PartialEq, H: HFn<K>, Q: EFn<K>> {
    v: HashSet<K, TrackAlloc, H, Q>,
}
impl<K: Elem + PartialEq, H: HFn<K>, Q: EFn<K>> Victim for SetVictim<K, H, Q> {
    const KIND: &'static str = "HashSet";
    fn new() -> Self {
        SetVictim { v: unsafe { HashSet::new_in(TrackAlloc::new(2)) } }
    }
    fn sizes() -> u32 {
        8
    }
    fn build(&mut self, n: u32) {
        for i in 0..n {
            self.v.insert(K::make(i));
        }
    }
    fn ops_large(&self, out: &mut Vec<(u32, u32, u32)>) {
        let n = self.v.len() as u32;
        for k in [0, 1, n / 2, n.saturating_sub(1), n, n + 3] {
            for c in [GET, CONTAINS, REMOVE] {
                out.push((c, k, n + 2));
            }
            out.push((INSERT, k, 2 * n + 3));
        }
    }
    fn ops(&self, out: &mut Vec<(u32, u32, u32)>) {
        let n = self.v.len() as u32;
        for k in 0..=KEYS {
            for c in [GET, CONTAINS, REMOVE] {
                out.push((c, k, n + 2));
            }
            out.push((INSERT, k, 2 * n + 3));
        }
        out.push((INSERT, 77, 2 * n + 3));
        out.push((CLEAR, 0, 0));
    }
    fn run(&mut self, c: u32, a: u32) {
        let v = &mut self.v;
        match c {
            GET => {
                let k = K::make(a);
                v.get(&k).map(|x| x.value());
            }
            CONTAINS => {
                let k = K::make(a);
                v.contains_key(&k);
            }
            REMOVE => {
                let k = K::make(a);
                drop(v.remove(&k));
            }
            INSERT => {
                v.insert(K::make(a));
            }
            CLEAR => v.clear(),
            _ => {}
        }
    }
    fn content(&mut self, consistent: bool) -> Vec<Seen> {
        let mut c: Vec<Seen> = self.v.iter().map(seen).collect();
        if consistent {
            check!(self.v.len() == c.len(), Fault, "the length is {} but iteration yields {}", self.v.len(), c.len());
            for k in &c {
                let key = K::make(k.1);
                check!(self.v.get(&key).map(seen) == Some(*k), Fault, "a key that iteration yields is not found");
            }
        }
        c.sort_by_key(|x| x.1);
        c
    }
    fn allowed(&self, _: u32, _: u32, before: &[Seen], after: &[Seen]) -> bool {
        before == after
    }
    fn name(c: u32, a: u32) -> std::string::String {
        op_name(c, a)
    }
    fn key(&self, out: &mut Vec<u8>) {
        let mut ks: Vec<u32> = self.v.iter().map(|k| k.value()).collect();
        ks.sort_unstable();
        out.extend(ks.iter().flat_map(|k| k.to_le_bytes()));
        out.push(255);
        out.extend(unsafe { super::word(&self.v, 2) as u32 }.to_le_bytes());
    }
}

/// Collecting into hash containers and vector maps, with default functions that may panic.
pub struct CollectVictim;
impl Victim for CollectVictim {
    const KIND: &'static str = "collecting";
    fn new() -> Self {
        CollectVictim
    }
    fn sizes() -> u32 {
        1
    }
    fn build(&mut self, _: u32) {}
    fn ops(&self, out: &mut Vec<(u32, u32, u32)>) {
        for n in 0..8 {
            for c in 1..=5u32 {
                // each element: one call of the source, hashes, comparisons and clones
                out.push((c + 100, n, 8 * n + 4));
            }
        }
    }
    fn ops_large(&self, out: &mut Vec<(u32, u32, u32)>) {
        for n in MANY {
            for c in 1..=4u32 {
                out.push((c + 100, n, 24 * n + 40));
            }
        }
    }
    fn run(&mut self, c: u32, a: u32) {
        // the same key comes more than once
        let keys = if a < 8 { 6 } else { a / 2 + 1 };
        let len = if a < 8 { a.min(6) } else if keys % 5 == 0 { (keys / 5).min(a) } else { keys.min(a) } as usize;
        let pairs = |n: u32| -> Vec<(T8, A16)> { (0..n).map(|i| (T8::make(i * 5 % keys), A16::make(i))).collect() };
        match c - 100 {
            1 => {
                let m: HashMap<T8, A16, TrackAlloc> = Source::new(pairs(a), true).collect();
                check!(m.len() == len, Semantic, "collect: another length");
            }
            2 => {
                let m: HashSet<T8, TrackAlloc> = Source::new(pairs(a).into_iter().map(|p| p.0).collect(), false).collect();
                check!(m.len() == len, Semantic, "collect: another length");
            }
            3 => {
                let m: VectorMap<T8, A16, TrackAlloc, eastl_rs::Less<T8>> = Source::new(pairs(a), true).collect();
                check!(m.len() == len, Semantic, "collect: another length");
            }
            4 => {
                let s = pairs(a);
                let m = VectorMap::<T8, A16, TrackAlloc, eastl_rs::Less<T8>>::from(&s[..]);
                check!(m.len() == len, Semantic, "from a slice: another length");
            }
            _ => {
                let m = VectorMap::<T8, A16, TrackAlloc, eastl_rs::Less<T8>>::from([(T8::make(1), A16::make(1)), (T8::make(a), A16::make(2)), (T8::make(0), A16::make(3))]);
                check!(m.len() >= 2, Semantic, "from an array: another length");
            }
        }
    }
    fn content(&mut self, _: bool) -> Vec<Seen> {
        vec![]
    }
    fn allowed(&self, _: u32, _: u32, _: &[Seen], _: &[Seen]) -> bool {
        true
    }
    fn name(c: u32, a: u32) -> std::string::String {
        format!("{} with {a} elements", ["", "collecting a HashMap", "collecting a HashSet", "collecting a VectorMap", "a VectorMap from a slice", "a VectorMap from an array"][c as usize - 100])
    }
}

pub struct VMapVictim<K: Elem + PartialOrd, V: Elem, C: Cmp<K>> {
    v: VectorMap<K, V, TrackAlloc, C>,
}
impl<K: Elem + PartialOrd, V: Elem, C: Cmp<K>> Victim for VMapVictim<K, V, C> {
    const KIND: &'static str = "VectorMap";
    fn new() -> Self {
        VMapVictim { v: VectorMap::new() }
    }
    fn sizes() -> u32 {
        9
    }
    fn build(&mut self, n: u32) {
        for i in 0..n {
            self.v.insert(K::make(i * 5 % 11), V::make(50 + i));
        }
    }
    fn ops(&self, out: &mut Vec<(u32, u32, u32)>) {
        let n = self.v.len() as u32;
        let most = 2 * (32 - n.leading_zeros()) + 3;
        for k in 0..11 {
            for c in [GET, GET_MUT, CONTAINS, REMOVE, REMOVE_ENTRY, INSERT, ENTRY] {
                if k % 2 == 0 || matches!(c, INSERT | REMOVE) {
                    out.push((c, k, most));
                }
            }
        }
        out.push((CLEAR, 0, 0));
    }
    fn build_large(&mut self, n: u32) {
        // a prime, so that every value comes once
        for i in 0..n {
            self.v.insert(K::make(i * 7 % 521), V::make(50 + i));
        }
    }
    fn ops_large(&self, out: &mut Vec<(u32, u32, u32)>) {
        let n = self.v.len() as u32;
        let most = 2 * (32 - n.leading_zeros()) + 3;
        for k in [0, 1, 7, 50, 200, 260, 519, 520, 521] {
            for c in [GET, REMOVE, REMOVE_ENTRY, INSERT, ENTRY] {
                out.push((c, k, most));
            }
        }
    }
    fn run(&mut self, c: u32, a: u32) {
        let v = &mut self.v;
        match c {
            GET => {
                let k = K::make(a);
                v.get(&k).map(|x| x.value());
            }
            CONTAINS => {
                let k = K::make(a);
                v.contains_key(&k);
            }
            GET_MUT => {
                let k = K::make(a);
                if let Some(x) = v.get_mut(&k) {
                    *x = V::make(60);
                }
            }
            REMOVE => {
                let k = K::make(a);
                drop(v.remove(&k));
            }
            REMOVE_ENTRY => {
                let k = K::make(a);
                drop(v.remove_entry(&k));
            }
            INSERT => drop(v.insert(K::make(a), V::make(61))),
            ENTRY => match v.entry(K::make(a)) {
                Entry::Occupied(mut e) => *e.get_mut() = V::make(62),
                Entry::Vacant(e) => {
                    e.insert(V::make(63)).value();
                }
            },
            CLEAR => v.clear(),
            _ => {}
        }
    }
    fn content(&mut self, _: bool) -> Vec<Seen> {
        let s: &[(K, V)] = self.v.as_ref();
        let c: Vec<Seen> = s.iter().flat_map(|(k, v)| [seen(k), seen(v)]).collect();
        check!(self.v.len() * 2 == c.len(), Fault, "the length is {} but the slice has {}", self.v.len(), c.len() / 2);
        for w in s.windows(2) {
            check!(C::lt(w[0].0.value(), w[1].0.value()), Fault, "the keys are not sorted");
        }
        for (k, x) in s {
            check!(self.v.get(k).map(seen) == Some(seen(x)), Fault, "a key that is in the slice is not found");
        }
        c
    }
    fn allowed(&self, _: u32, _: u32, before: &[Seen], after: &[Seen]) -> bool {
        before == after
    }
    fn name(c: u32, a: u32) -> std::string::String {
        op_name(c, a)
    }
    fn key(&self, out: &mut Vec<u8>) {
        let s: &[(K, V)] = self.v.as_ref();
        out.extend(s.iter().flat_map(|x| x.0.value().to_le_bytes()));
        out.push(255);
        out.extend((self.v.capacity() as u32).to_le_bytes());
    }
}

/// Text whose conversion panics.
struct Text(&'static str);
impl AsRef<str> for Text {
    fn as_ref(&self) -> &str {
        caller_code();
        self.0
    }
}

fn text(a: u32) -> &'static str {
    static LONG: std::sync::OnceLock<std::string::String> = std::sync::OnceLock::new();
    match a {
        0..=3 => ["", "x", "äö€", "a longer text than any before"][a as usize],
        _ => &LONG.get_or_init(|| ('a'..='z').cycle().take(600).collect())[..MANY[a as usize - 4] as usize],
    }
}

pub struct StrVictim {
    v: String<TrackAlloc>,
}
impl Victim for StrVictim {
    const KIND: &'static str = "String";
    fn new() -> Self {
        StrVictim { v: String::new() }
    }
    fn sizes() -> u32 {
        6
    }
    fn build(&mut self, n: u32) {
        for i in 0..n {
            self.v.push(['a', 'é', '€', '😀', 'z'][i as usize % 5]);
        }
    }
    fn ops(&self, out: &mut Vec<(u32, u32, u32)>) {
        for t in 0..4 {
            out.push((ASSIGN, t, 4));
            out.push((FROM_IN, t, 4));
        }
        out.push((PUSH, 0, 0));
        out.push((POP, 0, 0));
        out.push((INSERT, 0, 0));
        out.push((REMOVE, 0, 0));
        out.push((RESERVE, 3, 0));
    }
    fn ops_large(&self, out: &mut Vec<(u32, u32, u32)>) {
        for t in 0..MANY.len() as u32 {
            out.push((ASSIGN, 4 + t, 4));
            out.push((FROM_IN, 4 + t, 4));
        }
    }
    fn run(&mut self, c: u32, a: u32) {
        let t = Text(text(a));
        match c {
            ASSIGN => self.v.assign(t),
            FROM_IN => {
                let want = t.0;
                let w = String::<TrackAlloc>::from_in(t, TrackAlloc::new(3));
                check!(w.as_str() == want, Semantic, "from_in: another text");
            }
            PUSH => self.v.push('ß'),
            POP => drop(self.v.pop()),
            INSERT => self.v.insert(0, 'ß'),
            REMOVE => drop(self.v.remove(0)),
            RESERVE => self.v.reserve(a as usize),
            _ => {}
        }
    }
    fn content(&mut self, _: bool) -> Vec<Seen> {
        let b = self.v.as_bytes();
        check!(std::str::from_utf8(b).is_ok(), Fault, "the content is not UTF-8");
        if self.v.capacity() > 0 {
            check!(unsafe { *b.as_ptr().add(b.len()) } == 0, Fault, "no NUL follows the content");
        }
        b.iter().map(|&x| (0, x as u32)).collect()
    }
    fn allowed(&self, c: u32, a: u32, before: &[Seen], after: &[Seen]) -> bool {
        let t = text(a);
        before == after || c == ASSIGN && after.len() <= t.len() && after.iter().zip(t.bytes()).all(|(x, y)| x.1 == y as u32)
    }
    fn name(c: u32, a: u32) -> std::string::String {
        op_name(c, a)
    }
    fn key(&self, out: &mut Vec<u8>) {
        out.extend(self.v.as_bytes());
        out.push(255);
        out.extend((self.v.capacity() as u32).to_le_bytes());
    }
}
