//! Functions of the caller that contradict themselves: every sequence of answers they may give.

use super::hash::RTable;
use super::list::{Lst, Plain};
use super::tree::{self, Shape, Tree};
use crate::alloc::TrackAlloc;
use crate::explore::{op, Op, System};
use crate::rt::{caller_code, catch, cx, op_start, reset_keep_violations, Caught};
use crate::tok::*;
use eastl_rs::compare::{Compare, Less};
use eastl_rs::equals::{EqualTo, Equals};
use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::hash_map::HashMap;
use eastl_rs::hash_set::HashSet;
use eastl_rs::vector_map::VectorMap;
use eastl_rs::{Deque, Queue, String as EString, Vector};
use std::cell::Cell;
use std::mem::MaybeUninit;
use std::sync::Arc;

thread_local! {
    /// the answers still to be given, lowest first; then only noes
    static ANSWERS: Cell<u64> = const { Cell::new(0) };
}
pub fn ask() -> bool {
    caller_code();
    let a = ANSWERS.get();
    ANSWERS.set(a >> 1);
    a & 1 == 1
}
/// One less than a product of primes: the last bucket of any of these counts, of others some one.
const LAST: usize = 2 * 3 * 5 * 7 * 11 * 13 * 17 * 19 * 23 * 29 - 1;
fn ask_hash() -> usize {
    if ask() {
        LAST
    } else {
        0
    }
}

pub struct AskHash;
impl<K> Hash<K> for AskHash {
    fn hash(_: &K) -> usize {
        ask_hash()
    }
}
pub struct AskEq;
impl<K> Equals<K> for AskEq {
    fn equals(_: &K, _: &K) -> bool {
        ask()
    }
}
#[derive(Default)]
pub struct AskLess(u8);
impl<K> Compare<K> for AskLess {
    fn compare(_: &K, _: &K) -> bool {
        ask()
    }
}
impl Hash<Ask8> for DefaultHash<Ask8> {
    fn hash(_: &Ask8) -> usize {
        ask_hash()
    }
}
impl<K: Elem> super::vmap::Cmp<K> for AskLess {
    const NAME: &'static str = "comparator contradicting itself";
    fn lt(_: u32, _: u32) -> bool {
        false
    }
}

const INSERT: u32 = 1;
const OR_INSERT: u32 = 2;
const REMOVE: u32 = 3;
const REMOVE_ENTRY: u32 = 4;
const GET: u32 = 5;
const GET_MUT: u32 = 6;
const CONTAINS: u32 = 7;
const CLEAR: u32 = 8;
const BUILD: u32 = 9;

fn op_name(c: u32) -> &'static str {
    ["", "insert", "entry.or_insert", "remove", "remove_entry", "get", "get_mut", "contains", "clear", "build"][c as usize]
}

/// Serial numbers of key and value; sets have no values.
type Pair = (u32, u32);
const NOTHING: u32 = u32::MAX;

/// What an operation says it did.
enum Did {
    Nothing,
    Added(Pair),
    /// the old value's entry now has another value, and perhaps another key
    Replaced(u32, Pair),
    /// the entry with this key or value is gone
    Removed(u32),
    Shown(u32),
    All,
}

/// A container whose operations ask the caller's functions.
pub trait Asking: 'static {
    fn name() -> String;
    fn new() -> Self;
    fn content(&mut self) -> Vec<Pair>;
    fn len(&self) -> usize;
    /// operations and how many answers each may need
    fn ops(&self, out: &mut Vec<(u32, u32)>);
    fn run(&mut self, c: u32, key: u32) -> Did;
    fn key(&self, out: &mut Vec<u8>);
    /// contents that are built all at once
    fn builds() -> u32 {
        0
    }
    fn build(&mut self, _: u32) {}
}

pub struct AskSys<C: Asking> {
    c: C,
    max: usize,
    /// how many different keys
    keys: u32,
    /// a panic: what is left must be sound, and nothing more is done with it
    over: bool,
    built: u32,
}
impl<C: Asking> AskSys<C> {
    pub fn new(max: usize, keys: u32) -> Box<dyn System> {
        Box::new(AskSys { c: C::new(), max, keys, over: false, built: 0 })
    }
}
impl<C: Asking> System for AskSys<C> {
    fn ops(&self, _: u8, out: &mut Vec<Op>) {
        if self.over {
            return;
        }
        if C::builds() > 0 && self.built == 0 {
            out.extend((0..C::builds()).map(|n| op(BUILD, n, 0)));
            return;
        }
        let mut v = vec![];
        self.c.ops(&mut v);
        for (c, bits) in v {
            if self.c.len() >= self.max && matches!(c, INSERT | OR_INSERT) {
                continue;
            }
            for k in 0..if c == CLEAR { 1 } else { self.keys } {
                out.extend((0..1u32 << bits.min(20)).map(|a| op(c, k, a)));
            }
        }
    }

    fn step(&mut self, o: Op, full: bool) {
        if o.c == 0 {
            return;
        }
        if o.c == BUILD {
            self.c.build(o.a);
            self.built = o.a + 1;
            return;
        }
        let before = self.c.content();
        ANSWERS.set(o.b as u64);
        op_start();
        let r = catch(|| self.c.run(o.c, o.a));
        ANSWERS.set(0);
        let mut after = self.c.content();
        let what = op_name(o.c);
        match r {
            Caught::Ok(did) => {
                let mut want = before.clone();
                match did {
                    Did::Nothing => {}
                    Did::Added(p) => want.push(p),
                    Did::All => want.clear(),
                    Did::Removed(s) => match want.iter().position(|p| p.0 == s || p.1 == s) {
                        Some(i) => drop(want.remove(i)),
                        None => bad!(Element, "{what} returned what was not there"),
                    },
                    Did::Replaced(old, new) => match want.iter().position(|p| p.1 == old) {
                        // the key of the entry stays or is replaced by the equal one
                        Some(i) => want[i] = if after.contains(&new) { new } else { (want[i].0, new.1) },
                        None => bad!(Element, "{what} returned a value that was not there"),
                    },
                    Did::Shown(s) => check!(want.iter().any(|p| p.0 == s || p.1 == s), Element, "{what} shows what is not there"),
                }
                if full {
                    want.sort_unstable();
                    after.sort_unstable();
                    check!(want == after, Semantic, "{what} leaves the entries {after:?}, expected {want:?}");
                    check!(self.c.len() == after.len(), Semantic, "after {what} the length is {} but iteration yields {}", self.c.len(), after.len());
                }
            }
            Caught::Injected => {}
            // refusing to go on is sound as long as every element stays in one place at most
            Caught::Panicked(_) | Caught::Refused(..) => {
                self.over = true;
                cx().faulted = true;
                let n = after.len();
                after.sort_unstable();
                after.dedup();
                check!(n == after.len(), Element, "after {what} panicked one element is seen twice");
            }
        }
    }

    fn key(&self, out: &mut Vec<u8>) {
        out.push(self.over as u8);
        out.extend(self.built.to_le_bytes());
        self.c.key(out);
    }

    fn end(self: Box<Self>) {
        drop(self.c);
    }

    fn show(&self, o: Op) -> String {
        if o.c == BUILD {
            return format!("content number {}", o.a);
        }
        format!("{} of key {}, the functions answering {:b} (lowest first)", op_name(o.c), o.a, o.b)
    }
}

/// Answers that an insertion needs: a hash, the whole bucket, and all hashes again if it grows.
fn insert_bits(t: &RTable) -> u32 {
    if t.len + 1 > t.next_resize {
        2 * t.len + 2
    } else {
        t.len + 1
    }
}

impl<K: Elem + PartialEq, V: Elem, H: Hash<K> + 'static, E: Equals<K> + 'static> Asking for HashMap<K, V, TrackAlloc, H, E> {
    fn name() -> String {
        format!("HashMap of {} to {}", K::NAME, V::NAME)
    }
    fn new() -> Self {
        unsafe { HashMap::new_in(TrackAlloc::new(2)) }
    }
    fn content(&mut self) -> Vec<Pair> {
        self.iter().map(|(k, v)| ((k.value(), k.serial()).1, (v.value(), v.serial()).1)).collect()
    }
    fn len(&self) -> usize {
        HashMap::len(self)
    }
    fn ops(&self, out: &mut Vec<(u32, u32)>) {
        let t = unsafe { RTable::of(self) };
        out.push((INSERT, insert_bits(&t)));
        out.push((OR_INSERT, insert_bits(&t)));
        out.extend([REMOVE, REMOVE_ENTRY, GET, GET_MUT, CONTAINS].map(|c| (c, t.len + 1)));
        out.push((CLEAR, 0));
    }
    fn run(&mut self, c: u32, key: u32) -> Did {
        let k = K::make(key);
        let ks = k.serial();
        match c {
            INSERT => {
                let v = V::make(2);
                let vs = v.serial();
                match self.insert(k, v) {
                    None => Did::Added((ks, vs)),
                    Some(o) => Did::Replaced(o.serial(), (ks, vs)),
                }
            }
            OR_INSERT => {
                let v = V::make(3);
                let vs = v.serial();
                let s = self.entry(k).or_insert(v);
                s.value();
                if s.serial() == vs {
                    Did::Added((ks, vs))
                } else {
                    Did::Shown(s.serial())
                }
            }
            REMOVE => self.remove(&k).map_or(Did::Nothing, |v| Did::Removed((v.value(), v.serial()).1)),
            REMOVE_ENTRY => self.remove_entry(&k).map_or(Did::Nothing, |(k, v)| {
                k.value();
                v.value();
                Did::Removed(k.serial())
            }),
            GET => self.get(&k).map_or(Did::Nothing, |v| Did::Shown((v.value(), v.serial()).1)),
            GET_MUT => self.get_mut(&k).map_or(Did::Nothing, |v| {
                let new = V::make(4);
                let ns = new.serial();
                let old = std::mem::replace(v, new);
                Did::Replaced(old.serial(), (NOTHING, ns))
            }),
            CONTAINS => {
                self.contains_key(&k);
                Did::Nothing
            }
            _ => {
                self.clear();
                Did::All
            }
        }
    }
    fn key(&self, out: &mut Vec<u8>) {
        unsafe { super::hash::chain_key::<K, V>(&RTable::of(self), out) }
    }
}

impl<K: Elem + PartialEq, H: Hash<K> + 'static, E: Equals<K> + 'static> Asking for HashSet<K, TrackAlloc, H, E> {
    fn name() -> String {
        format!("HashSet of {}", K::NAME)
    }
    fn new() -> Self {
        unsafe { HashSet::new_in(TrackAlloc::new(2)) }
    }
    fn content(&mut self) -> Vec<Pair> {
        self.iter().map(|k| ((k.value(), k.serial()).1, NOTHING)).collect()
    }
    fn len(&self) -> usize {
        HashSet::len(self)
    }
    fn ops(&self, out: &mut Vec<(u32, u32)>) {
        let t = unsafe { RTable::of(self) };
        out.push((INSERT, insert_bits(&t)));
        out.extend([REMOVE, GET, CONTAINS].map(|c| (c, t.len + 1)));
        out.push((CLEAR, 0));
    }
    fn run(&mut self, c: u32, key: u32) -> Did {
        let k = K::make(key);
        let ks = k.serial();
        match c {
            INSERT => {
                let n = HashSet::len(self);
                self.insert(k);
                // what it returns is another property's
                if HashSet::len(self) > n {
                    Did::Added((ks, NOTHING))
                } else {
                    Did::Nothing
                }
            }
            REMOVE => self.remove(&k).map_or(Did::Nothing, |v| Did::Removed((v.value(), v.serial()).1)),
            GET => self.get(&k).map_or(Did::Nothing, |v| Did::Shown((v.value(), v.serial()).1)),
            CONTAINS => {
                self.contains_key(&k);
                Did::Nothing
            }
            _ => {
                self.clear();
                Did::All
            }
        }
    }
    fn key(&self, out: &mut Vec<u8>) {
        unsafe { super::hash::chain_key::<K, ()>(&RTable::of(self), out) }
    }
}

impl<K: Elem + PartialEq, V: Elem, C: Compare<K> + Default + 'static> Asking for VectorMap<K, V, TrackAlloc, C>
where
    VectorMap<K, V, TrackAlloc, C>: Made,
{
    fn name() -> String {
        format!("VectorMap of {} to {}", K::NAME, V::NAME)
    }
    fn new() -> Self {
        Made::made()
    }
    fn content(&mut self) -> Vec<Pair> {
        let s: &[(K, V)] = self.as_ref();
        s.iter().map(|(k, v)| ((k.value(), k.serial()).1, (v.value(), v.serial()).1)).collect()
    }
    fn len(&self) -> usize {
        VectorMap::len(self)
    }
    fn ops(&self, out: &mut Vec<(u32, u32)>) {
        let n = VectorMap::len(self) as u32;
        let bits = 32 - n.leading_zeros() + 1;
        out.extend([INSERT, OR_INSERT, REMOVE, REMOVE_ENTRY, GET, GET_MUT, CONTAINS].map(|c| (c, bits)));
        out.push((CLEAR, 0));
    }
    fn run(&mut self, c: u32, key: u32) -> Did {
        let k = K::make(key);
        let ks = k.serial();
        match c {
            INSERT => {
                let v = V::make(2);
                let vs = v.serial();
                match self.insert(k, v) {
                    None => Did::Added((ks, vs)),
                    Some(o) => Did::Replaced(o.serial(), (ks, vs)),
                }
            }
            OR_INSERT => {
                let v = V::make(3);
                let vs = v.serial();
                use eastl_rs::vector_map::Entry;
                match self.entry(k) {
                    Entry::Occupied(e) => Did::Shown((e.get().value(), e.get().serial()).1),
                    Entry::Vacant(e) => {
                        e.insert(v);
                        Did::Added((ks, vs))
                    }
                }
            }
            REMOVE => self.remove(&k).map_or(Did::Nothing, |v| Did::Removed((v.value(), v.serial()).1)),
            REMOVE_ENTRY => self.remove_entry(&k).map_or(Did::Nothing, |(k, v)| {
                k.value();
                v.value();
                Did::Removed(k.serial())
            }),
            GET => self.get(&k).map_or(Did::Nothing, |v| Did::Shown((v.value(), v.serial()).1)),
            GET_MUT => self.get_mut(&k).map_or(Did::Nothing, |v| {
                let new = V::make(4);
                let ns = new.serial();
                let old = std::mem::replace(v, new);
                Did::Replaced(old.serial(), (NOTHING, ns))
            }),
            CONTAINS => {
                self.contains_key(&k);
                Did::Nothing
            }
            _ => {
                self.clear();
                Did::All
            }
        }
    }
    fn key(&self, out: &mut Vec<u8>) {
        out.extend((VectorMap::len(self) as u32).to_le_bytes());
        out.extend((self.capacity() as u32).to_le_bytes());
    }
}
pub trait Made {
    fn made() -> Self;
}
impl<K: Elem + PartialOrd, V: Elem> Made for VectorMap<K, V, TrackAlloc, AskLess> {
    fn made() -> Self {
        VectorMap::new()
    }
}
impl<V: Elem> Made for VectorMap<Ask8, V, TrackAlloc, Less<Ask8>> {
    fn made() -> Self {
        VectorMap::new()
    }
}

/// Trees, only searched: with every answer there is a path down.
pub struct AskTree<K: Elem, V: Elem, T: Tree<K, V>> {
    t: Box<MaybeUninit<T>>,
    shapes: Arc<Vec<Shape>>,
    built: usize,
    _p: std::marker::PhantomData<(K, V)>,
}
/// The largest trees searched.
pub const TREE: usize = 9;
impl<K: Elem, V: Elem, T: Tree<K, V>> AskTree<K, V, T> {
    fn t(&self) -> &T {
        unsafe { self.t.assume_init_ref() }
    }
}
impl<K: Elem, V: Elem, T: Tree<K, V>> Drop for AskTree<K, V, T> {
    fn drop(&mut self) {
        unsafe { self.t.assume_init_drop() }
    }
}
impl<K: Elem, V: Elem, T: Tree<K, V>> Asking for AskTree<K, V, T> {
    fn name() -> String {
        format!("{} of {} to {}", T::KIND, K::NAME, V::NAME)
    }
    fn new() -> Self {
        let mut t = Box::new(MaybeUninit::uninit());
        unsafe { T::build(&mut t, 0) };
        AskTree { t, shapes: tree::shapes(1, TREE), built: 0, _p: std::marker::PhantomData }
    }
    fn builds() -> u32 {
        tree::shapes(1, TREE).len() as u32
    }
    fn build(&mut self, n: u32) {
        unsafe { tree::fill::<K, V, T>(self.t.as_mut_ptr(), &self.shapes[n as usize]) };
        self.built = n as usize + 1;
    }
    fn content(&mut self) -> Vec<Pair> {
        unsafe { self.t().iter().map(|(k, v)| ((k.value(), k.serial()).1, v.map_or(NOTHING, |v| (v.value(), v.serial()).1))).collect() }
    }
    fn len(&self) -> usize {
        self.t().len()
    }
    fn ops(&self, out: &mut Vec<(u32, u32)>) {
        let n = self.t().len();
        // a path has at most twice as many nodes as the shortest
        let bits = if n == 0 { 0 } else { (4 * (n + 1).ilog2()).min(n as u32 * 2) };
        out.push((CONTAINS, bits));
        if T::MAP {
            out.extend([(GET, bits), (GET_MUT, bits)]);
        }
        if n > 0 {
            out.push((CLEAR, 0));
        }
    }
    fn run(&mut self, c: u32, key: u32) -> Did {
        let k = K::make(key);
        match c {
            CONTAINS => {
                self.t().contains(&k);
                Did::Nothing
            }
            GET => self.t().get(&k).map_or(Did::Nothing, |v| Did::Shown((v.value(), v.serial()).1)),
            GET_MUT => unsafe { self.t.assume_init_mut() }.get_mut(&k).map_or(Did::Nothing, |v| {
                let new = V::make(4);
                let ns = new.serial();
                let old = std::mem::replace(v, new);
                Did::Replaced(old.serial(), (NOTHING, ns))
            }),
            _ => {
                unsafe { self.t.assume_init_mut() }.clear();
                Did::All
            }
        }
    }
    fn key(&self, out: &mut Vec<u8>) {
        out.extend((self.t().len() as u32).to_le_bytes());
    }
}

// ---- sources

/// A source whose hint may be wrong and which may go on after its end.
struct Liar<T> {
    left: std::collections::VecDeque<T>,
    until: usize,
    hint: (usize, Option<usize>),
}
impl<T> Iterator for Liar<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.until == 0 {
            self.until = usize::MAX;
            return None;
        }
        self.until -= 1;
        self.left.pop_front()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

const LENS: [usize; 12] = [0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 40, 100];
const SINKS: usize = 10;
/// Cases: lengths, sinks.
pub const SOURCES: u64 = (LENS.len() * SINKS) as u64;

fn hints(n: usize) -> Vec<(usize, Option<usize>)> {
    let mut lows = vec![0, 1, n / 2, n.saturating_sub(1), n, n + 1, n + 7, 2 * n + 1, 500];
    lows.sort_unstable();
    lows.dedup();
    let mut v = vec![];
    for lo in lows {
        v.push((lo, None));
        v.extend([0, 1, n.saturating_sub(1), n, n + 1, lo, 2 * n + 1, usize::MAX].map(|hi| (lo, Some(hi))));
    }
    v
}

pub fn sources(lo: u64, hi: u64) -> u64 {
    let mut evals = 0;
    for case in lo..hi {
        let n = LENS[case as usize % LENS.len()];
        let sink = case as usize / LENS.len();
        for hint in hints(n) {
            for extra in [0, 3] {
                reset_keep_violations();
                op_start();
                let r = catch(|| source(n, extra, hint, sink));
                match r {
                    Caught::Ok(Some((got, want, what))) => {
                        check!(got == want, Semantic, "{what} from a source of {n} elements (and {extra} after its end) that announces {hint:?} holds {} elements{}", got.len(), if got.len() == want.len() { " but others" } else { "" });
                    }
                    // refusing is sound
                    Caught::Ok(None) | Caught::Injected => {}
                    Caught::Panicked(_) | Caught::Refused(..) => cx().faulted = true,
                }
                cx().check_end();
                evals += 1;
                if !cx().violations.is_empty() {
                    return evals;
                }
            }
        }
    }
    evals
}

fn extended<L: Lst<T8, TrackAlloc>>(it: Liar<T8>) -> Vec<u32>
where
    L: std::ops::DerefMut<Target: super::fault::ExtendFrom<T8>>,
{
    use super::fault::ExtendFrom;
    struct Held<L>(Box<MaybeUninit<L>>);
    impl<L> Drop for Held<L> {
        fn drop(&mut self) {
            unsafe { self.0.assume_init_drop() }
        }
    }
    let mut l = Held(Box::new(MaybeUninit::<L>::uninit()));
    unsafe { L::build(&mut l.0, true, 0) };
    let v = unsafe { l.0.assume_init_mut() };
    (**v).extend_from(it);
    check!(v.lens().iter().all(|&n| n == v.iter().count()), Semantic, "the length is not what iteration yields");
    v.iter().map(|e| e.value()).collect()
}

fn source(n: usize, extra: usize, hint: (usize, Option<usize>), sink: usize) -> Option<(Vec<u32>, Vec<u32>, &'static str)> {
    let want: Vec<u32> = (0..n as u32).collect();
    let it = || Liar { left: (0..(n + extra) as u32).map(T8::make).collect(), until: n, hint };
    let pairs = || Liar { left: (0..(n + extra) as u32).map(|i| (T8::make(i), A16::make(i + 7))).collect(), until: n, hint };
    fn vals<'a>(v: impl Iterator<Item = &'a T8>) -> Vec<u32> {
        v.map(|e| e.value()).collect()
    }
    fn sorted(mut v: Vec<u32>) -> Vec<u32> {
        v.sort_unstable();
        v
    }
    Some(match sink {
        0 => {
            let v: Vector<T8, TrackAlloc> = it().collect();
            check!(v.len() <= v.capacity(), Semantic, "a vector holds more than its capacity");
            (vals(v.iter()), want, "a Vector")
        }
        1 => {
            let v: Deque<'static, T8, TrackAlloc> = it().collect();
            (vals(v.iter()), want, "a Deque")
        }
        2 => {
            let v: Queue<'static, T8, TrackAlloc> = it().collect();
            (vals(v.iter()), want, "a Queue")
        }
        3 => {
            let v: HashMap<T8, A16, TrackAlloc> = pairs().collect();
            check!(v.iter().all(|(k, x)| x.value() == k.value() + 7), Semantic, "a HashMap pairs others");
            (sorted(vals(v.iter().map(|p| p.0))), want, "a HashMap")
        }
        4 => {
            let v: HashSet<T8, TrackAlloc> = it().collect();
            (sorted(vals(v.iter())), want, "a HashSet")
        }
        5 => {
            let v: VectorMap<T8, A16, TrackAlloc, Less<T8>> = pairs().collect();
            let s: &[(T8, A16)] = v.as_ref();
            check!(s.iter().all(|(k, x)| x.value() == k.value() + 7), Semantic, "a VectorMap pairs others");
            (vals(s.iter().map(|p| &p.0)), want, "a VectorMap")
        }
        6 => (extended::<Plain<T8, TrackAlloc>>(it()), want, "a List extended"),
        7 => (extended::<eastl_rs::FixedList<T8, 5, TrackAlloc>>(it()), want, "a FixedList extended"),
        8 => {
            // keys that contradict themselves: nothing is lost, whatever is kept
            let mut all = 0;
            for a in [0u64, !0, 0x5555_5555_5555_5555, 0x3333_3333_3333_3333, 0x0123_4567_89AB_CDEF] {
                ANSWERS.set(a);
                let m: HashMap<Ask8, A16, TrackAlloc> =
                    Liar { left: (0..(n + extra) as u32).map(|i| (Ask8::make(i), A16::make(i))).collect(), until: n, hint }.collect();
                check!(m.iter().count() == m.len(), Semantic, "the length is not what iteration yields");
                all += m.iter().map(|(k, v)| k.value() + v.value()).sum::<u32>();
                ANSWERS.set(a);
                let m: HashSet<Ask8, TrackAlloc> = Liar { left: (0..(n + extra) as u32).map(Ask8::make).collect(), until: n, hint }.collect();
                check!(m.iter().count() == m.len(), Semantic, "the length is not what iteration yields");
                all += m.iter().map(|k| k.value()).sum::<u32>();
            }
            ANSWERS.set(0);
            let _ = all;
            return None;
        }
        _ => {
            let mut all = 0;
            for a in [0u64, !0, 0x5555_5555_5555_5555, 0x3333_3333_3333_3333, 0x0123_4567_89AB_CDEF] {
                ANSWERS.set(a);
                let m: VectorMap<Ask8, A16, TrackAlloc, Less<Ask8>> =
                    Liar { left: (0..(n + extra) as u32).map(|i| (Ask8::make(i), A16::make(i))).collect(), until: n, hint }.collect();
                let s: &[(Ask8, A16)] = m.as_ref();
                check!(s.len() == m.len(), Semantic, "the length is not what the slice has");
                all += s.iter().map(|(k, v)| k.value() + v.value()).sum::<u32>();
            }
            ANSWERS.set(0);
            let _ = all;
            return None;
        }
    })
}

// ---- texts

/// A text that is another one at each look.
struct Fickle<'a> {
    texts: &'a [&'a str],
    looks: Cell<usize>,
}
impl AsRef<str> for Fickle<'_> {
    fn as_ref(&self) -> &str {
        let n = self.looks.get();
        self.looks.set(n + 1);
        self.texts[n % self.texts.len()]
    }
}

const TEXTS: [&str; 10] = ["", "a", "é", "€", "😀", "abc", "aé€😀", "seven b", "a text of thirty-three bytes, yes", "ein Text mit Umlauten: äöüßÄÖÜ€😀 und noch viel mehr davon, damit er lang ist"];
/// Cases: the text before.
pub const FICKLE: u64 = 2 * TEXTS.len() as u64;

pub fn texts(lo: u64, hi: u64) -> u64 {
    let mut evals = 0;
    for case in lo..hi {
        let before = TEXTS[case as usize % TEXTS.len()];
        let spare = case as usize / TEXTS.len() * 5;
        for a in TEXTS {
            for b in TEXTS {
                for c in TEXTS {
                    let seq = [a, b, c];
                    reset_keep_violations();
                    op_start();
                    let r = catch(|| {
                        let mut s = EString::<TrackAlloc>::new();
                        s.assign(before);
                        s.reserve(spare);
                        s.assign(Fickle { texts: &seq, looks: Cell::new(0) });
                        let t = EString::<TrackAlloc>::from_in(Fickle { texts: &seq, looks: Cell::new(0) }, TrackAlloc::new(3));
                        for s in [&s, &t] {
                            let bytes = s.as_bytes();
                            check!(std::str::from_utf8(bytes).is_ok(), Utf8, "a text that changes while it is copied leaves a string that is not UTF-8");
                            check!(seq.iter().any(|t| t.as_bytes() == bytes), Semantic, "a text that changes while it is copied ({seq:?}) leaves {bytes:?}");
                            if s.capacity() > 0 {
                                check!(unsafe { *bytes.as_ptr().add(bytes.len()) } == 0, Nul, "no NUL follows the content");
                            }
                        }
                    });
                    if !matches!(r, Caught::Ok(())) {
                        cx().faulted = true;
                    }
                    cx().check_end();
                    evals += 1;
                    if !cx().violations.is_empty() {
                        return evals;
                    }
                }
            }
        }
    }
    evals
}
