//! `VectorMap`.

use super::{handed, lent, must, word};
use crate::alloc::{tracked, TestAlloc};
use crate::explore::{op, Op, System};
use crate::rt::{cx, op_start};
use crate::tok::*;
use eastl_rs::compare::{Compare, Greater, Less};
use eastl_rs::vector_map::{Entry, VectorMap};
use std::mem::{align_of, size_of};

/// A comparator (of one byte, like every C++ functor) and what it does to the values of keys.
pub trait Cmp<K: Elem>: Compare<K> + Default + 'static {
    const NAME: &'static str;
    fn lt(a: u32, b: u32) -> bool;
}
impl<K: Elem + PartialOrd> Cmp<K> for Less<K> {
    const NAME: &'static str = "Less";
    fn lt(a: u32, b: u32) -> bool {
        a < b
    }
}
impl<K: Elem + PartialOrd> Cmp<K> for Greater<K> {
    const NAME: &'static str = "Greater";
    fn lt(a: u32, b: u32) -> bool {
        a > b
    }
}
macro_rules! cmp {
    ($n:ident, $label:expr, |$a:ident, $b:ident| $e:expr) => {
        #[derive(Default)]
        pub struct $n(u8);
        impl<K: Elem> Compare<K> for $n {
            fn compare(l: &K, r: &K) -> bool {
                crate::rt::caller_code();
                let ($a, $b) = (l.value(), r.value());
                $e
            }
        }
        impl<K: Elem> Cmp<K> for $n {
            const NAME: &'static str = $label;
            fn lt($a: u32, $b: u32) -> bool {
                $e
            }
        }
    };
}
cmp!(Val, "own less", |a, b| a < b);
cmp!(Half, "a/2 < b/2, so that unequal keys are equivalent", |a, b| a / 2 < b / 2);
cmp!(Third, "reversed thirds, a/3 > b/3", |a, b| a / 3 > b / 3);
cmp!(Rot, "keyed by the value rotated by 3 modulo 8", |a, b| (a + 3) % 8 + a / 8 * 8 < (b + 3) % 8 + b / 8 * 8);
cmp!(EvenOdd, "even keys before odd ones", |a, b| (a % 2, a) < (b % 2, b));

pub const INSERT: u32 = 1;
pub const REMOVE: u32 = 2;
pub const REMOVE_ENTRY: u32 = 3;
pub const GET_MUT: u32 = 4;
pub const ENTRY: u32 = 5;
pub const CLEAR: u32 = 6;
pub const REBUILD: u32 = 7;
/// insert keys `0, b, 2b, ...` modulo the universe, `a` of them
pub const FILL: u32 = 8;
/// the (empty, new) map becomes one that C++ might have made
pub const ADOPT: u32 = 9;

pub type Ctor<K, V, A, C> = fn(u32, Vec<(K, V)>) -> VectorMap<K, V, A, C>;

pub struct VMapSys<K: Elem + PartialOrd, V: Elem, A: TestAlloc, C: Cmp<K>> {
    v: VectorMap<K, V, A, C>,
    items: Vec<(It, It)>,
    cap: usize,
    next: u32,
    u: u32,
    cap_max: usize,
    ctor: Option<Ctor<K, V, A, C>>,
    /// the first operation is to adopt what C++ made
    new: bool,
}

fn grown(cap: usize) -> usize {
    if cap == 0 {
        1
    } else {
        cap * 2
    }
}

impl<K: Elem + PartialOrd, V: Elem, A: TestAlloc, C: Cmp<K>> VMapSys<K, V, A, C> {
    pub fn new(u: u32, cap_max: usize) -> Box<dyn System> {
        let v: VectorMap<K, V, A, C> = if u % 2 == 0 { VectorMap::new() } else { VectorMap::new_in(A::make(3), C::default()) };
        Box::new(VMapSys { v, items: vec![], cap: 0, next: 1000, u, cap_max, ctor: None, new: false })
    }
    /// starts from what C++ may hand over
    pub fn adopting(u: u32, cap_max: usize) -> Box<dyn System> {
        Box::new(VMapSys::<K, V, A, C> { v: VectorMap::new_in(A::make(3), C::default()), items: vec![], cap: 0, next: 1000, u, cap_max, ctor: None, new: true })
    }

    fn lower(&self, k: u32) -> (usize, bool) {
        let i = self.items.partition_point(|(x, _)| C::lt(x.val, k));
        let hit = i < self.items.len() && !C::lt(k, self.items[i].0.val);
        (i, hit)
    }
    fn fresh(&mut self) -> (V, It) {
        self.next += 1;
        V::mk(self.next)
    }
    fn model_insert(&mut self, k: It, v: It) -> Option<It> {
        let (i, hit) = self.lower(k.val);
        if hit {
            Some(std::mem::replace(&mut self.items[i].1, v))
        } else {
            self.items.insert(i, (k, v));
            if self.items.len() > self.cap {
                self.cap = grown(self.cap);
            }
            None
        }
    }

    fn full(&mut self) {
        let n = self.items.len();
        check!(self.v.len() == n, Semantic, "len is {} instead of {n}", self.v.len());
        check!(self.v.is_empty() == (n == 0), Semantic, "is_empty is {} at length {n}", self.v.is_empty());
        check!(self.v.capacity() == self.cap, Capacity, "capacity is {} instead of {}", self.v.capacity(), self.cap);
        for which in 0..2 {
            let s: &[(K, V)] = if which == 0 { self.v.as_ref() } else { &self.v };
            let mut ok = s.len() == n;
            for (g, w) in s.iter().zip(self.items.iter_mut()) {
                for (x, y) in [(g.0.ser_adopt(&mut w.0), true), (g.1.ser_adopt(&mut w.1), true)] {
                    ok &= x && y;
                }
            }
            if !ok {
                let got: Vec<u32> = s.iter().take(32).map(|e| e.0.value()).collect();
                let want: Vec<u32> = self.items.iter().take(32).map(|e| e.0.val).collect();
                bad!(Semantic, "the slice holds the keys {got:?} instead of {want:?}, or other values");
            }
            // strictly sorted, whatever the model says
            check!(s.windows(2).all(|w| C::lt(w[0].0.value(), w[1].0.value())), Semantic, "the slice is not strictly sorted");
        }
        let mut k = 0;
        for (a, b) in self.v.iter() {
            if !(k < n && a.is(&self.items[k].0) && b.is(&self.items[k].1)) {
                bad!(Semantic, "iteration differs from the content at {k}");
                break;
            }
            k += 1;
        }
        // every key, present or not
        let probes: Vec<u32> = if self.u <= 32 { (0..self.u + 2).collect() } else { (0..self.u + 2).step_by(7.max(self.u as usize / 300)).collect() };
        for p in probes {
            let key = K::make(p);
            let (i, hit) = self.lower(key.value());
            lent("get", self.v.get(&key), if hit { Some(&mut self.items[i].1) } else { None });
            check!(self.v.contains_key(&key) == hit, Semantic, "contains_key({p}) is {}", !hit);
            lent("get_mut", self.v.get_mut(&key).map(|v| &*v), if hit { Some(&mut self.items[i].1) } else { None });
        }
        if n <= 8 {
            let want = format!("{{{}}}", self.items.iter().map(|(k, v)| format!("{}: {}", k.val, (v.val as u64 % V::VALS) as u32)).collect::<Vec<_>>().join(","));
            let got = format!("{:?}", self.v);
            check!(got == want, Semantic, "Debug prints {got} instead of {want}");
        }
        unsafe {
            let (b, e, c) = (word(&self.v, 0), word(&self.v, 1), word(&self.v, 2));
            let sz = size_of::<(K, V)>();
            check!(e.wrapping_sub(b) == n * sz, Layout, "end - begin is {} bytes for {n} entries", e.wrapping_sub(b));
            check!(c.wrapping_sub(b) == self.cap * sz, Layout, "capacity pointer - begin is {} bytes for {} slots", c.wrapping_sub(b), self.cap);
            if self.cap == 0 {
                check!(b == 0, Layout, "no storage but a non-null begin");
            } else {
                match cx().live_block_at(b) {
                    Some(blk) => {
                        check!(blk.size == self.cap * sz && blk.align == align_of::<(K, V)>(), Layout, "storage is a block of {} bytes", blk.size);
                        if e.wrapping_sub(b) == n * sz {
                            let raw = std::slice::from_raw_parts(b as *const (K, V), n);
                            check!(raw.iter().zip(&self.items).all(|(g, w)| g.0.is(&w.0) && g.1.is(&w.1)), Layout, "memory between begin and end is not the content");
                        }
                    }
                    None => bad!(Layout, "begin does not point to a live block"),
                }
            }
        }
    }
}

trait Adopt: Elem {
    fn ser_adopt(&self, it: &mut It) -> bool {
        if it.ser == PENDING {
            self.adopt(it) && self.is(it)
        } else {
            self.is(it)
        }
    }
}
impl<E: Elem> Adopt for E {}

impl<K: Elem + PartialOrd, V: Elem, A: TestAlloc> VMapSys<K, V, A, Less<K>> {
    /// with the constructors that only the default comparator has
    pub fn building(u: u32, cap_max: usize) -> Box<dyn System> {
        let ctor: Ctor<K, V, A, Less<K>> = |kind, mut src| match kind {
            0 => src.into_iter().collect(),
            1 => VectorMap::from(&src[..]),
            2 => VectorMap::from(&mut src[..]),
            3 => match <[(K, V); 3]>::try_from(src) {
                Ok(a) => VectorMap::from(a),
                Err(_) => unreachable!(),
            },
            4 => VectorMap::from(<&[(K, V); 3]>::try_from(&src[..]).unwrap()),
            _ => {
                let mut v = VectorMap::default();
                for (a, b) in src {
                    v.insert(a, b);
                }
                v
            }
        };
        Box::new(VMapSys { v: VectorMap::default(), items: vec![], cap: 0, next: 1000, u, cap_max, ctor: Some(ctor), new: false })
    }
}

/// sources of rebuilt maps: keys in several orders, with and without duplicates
const SRC: [&[u32]; 6] = [&[], &[4], &[1, 3, 5], &[5, 3, 1], &[2, 2, 0], &[3, 1, 3, 1, 6]];

fn src_keys(b: u32, u: u32) -> Vec<u32> {
    match SRC.get(b as usize) {
        Some(s) => s.to_vec(),
        None => (0..b).map(|i| i * 37 % u.min(b * 3 / 4 + 1)).collect(),
    }
}

impl<K: Elem + PartialOrd, V: Elem, A: TestAlloc, C: Cmp<K>> System for VMapSys<K, V, A, C> {
    fn ops(&self, lvl: u8, out: &mut Vec<Op>) {
        if self.new {
            for keys in 0..1u32 << self.u {
                let ks: Vec<u32> = (0..self.u).filter(|k| keys >> k & 1 == 1).collect();
                // one key of each class of equivalent ones
                if ks.iter().any(|a| ks.iter().any(|b| a != b && !C::lt(*a, *b) && !C::lt(*b, *a))) {
                    continue;
                }
                for cap in ks.len()..=self.cap_max {
                    out.push(op(ADOPT, keys, cap as u32));
                }
            }
            return;
        }
        if lvl == 3 {
            let n = self.items.len();
            let mut keys: Vec<u32> = super::deque::places(n).into_iter().filter_map(|i| self.items.get(i)).flat_map(|k| [k.0.val.saturating_sub(1), k.0.val, k.0.val + 1]).collect();
            keys.extend([0, self.u, self.u + 1]);
            keys.sort();
            keys.dedup();
            for k in keys {
                out.push(op(INSERT, k, 0));
                out.push(op(REMOVE, k, 0));
                out.push(op(REMOVE_ENTRY, k, 0));
                out.push(op(GET_MUT, k, 0));
                for m in 0..3 {
                    out.push(op(ENTRY, k, m));
                }
            }
            out.push(op(CLEAR, 0, 0));
            if self.ctor.is_some() {
                for kind in [0, 1, 2, 5] {
                    out.push(op(REBUILD, kind, n as u32 + 6));
                }
            }
            return;
        }
        let can = self.items.len() < self.cap || grown(self.cap) <= self.cap_max;
        let keys: Vec<u32> = if lvl == 1 { (0..self.u).step_by(2).collect() } else { (0..self.u).collect() };
        for &k in &keys {
            let hit = self.lower(k).1;
            if hit || can {
                out.push(op(INSERT, k, 0));
            }
            out.push(op(REMOVE, k, 0));
            if lvl == 1 {
                continue;
            }
            out.push(op(REMOVE_ENTRY, k, 0));
            out.push(op(GET_MUT, k, 0));
            out.push(op(ENTRY, k, 0));
            out.push(op(ENTRY, k, 2));
            if hit || can {
                out.push(op(ENTRY, k, 1));
            }
        }
        out.push(op(CLEAR, 0, 0));
        if lvl == 0 {
            if self.ctor.is_some() {
                for kind in [0, 1, 2, 5] {
                    for (j, s) in SRC.iter().enumerate() {
                        if s.iter().all(|&k| k < self.u) {
                            out.push(op(REBUILD, kind, j as u32));
                        }
                    }
                }
                for j in [2, 3, 4] {
                    out.push(op(REBUILD, 3, j));
                    out.push(op(REBUILD, 4, j));
                }
            }
            for n in [0, 1, 3] {
                out.push(op(REBUILD, 9, n));
            }
        }
    }

    fn step(&mut self, o: Op, full: bool) {
        let g = A::GLOBAL;
        op_start();
        self.new = false;
        match o.c {
            ADOPT => unsafe {
                let mut ks: Vec<u32> = (0..self.u).filter(|k| o.a >> k & 1 == 1).collect();
                ks.sort_by(|a, b| if C::lt(*a, *b) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater });
                let cap = o.b as usize;
                let mut a = A::make(3);
                let at = if cap == 0 { std::ptr::null_mut() } else { tracked(g, || a.allocate::<(K, V)>(cap)) };
                for (i, k) in ks.iter().enumerate() {
                    let (key, ki) = K::mk(*k);
                    let (v, vi) = self.fresh();
                    at.add(i).write((key, v));
                    self.items.push((ki, vi));
                }
                let w = &mut self.v as *mut VectorMap<K, V, A, C> as *mut usize;
                for (k, n) in [0, ks.len(), cap].into_iter().enumerate() {
                    w.add(k).write(at as usize + n * size_of::<(K, V)>());
                }
                self.cap = cap;
            },
            INSERT => {
                let (k, ki) = K::mk(o.a);
                let (v, vi) = self.fresh();
                let got = must("insert", || tracked(g, || self.v.insert(k, v)));
                let want = self.model_insert(ki, vi);
                handed("insert", got.flatten(), want);
            }
            REMOVE | REMOVE_ENTRY => {
                let k = K::make(o.a);
                let (i, hit) = self.lower(k.value());
                let want = if hit { Some(self.items.remove(i)) } else { None };
                if o.c == REMOVE {
                    let got = must("remove", || tracked(g, || self.v.remove(&k)));
                    handed("remove", got.flatten(), want.map(|w| w.1));
                } else {
                    let (a, b) = must("remove_entry", || tracked(g, || self.v.remove_entry(&k))).flatten().map_or((None, None), |(a, b)| (Some(a), Some(b)));
                    handed("remove_entry (key)", a, want.map(|w| w.0));
                    handed("remove_entry (value)", b, want.map(|w| w.1));
                }
                drop(k);
            }
            GET_MUT => {
                let k = K::make(o.a);
                let (i, hit) = self.lower(k.value());
                let (v, vi) = self.fresh();
                let old = self.v.get_mut(&k).map(|s| std::mem::replace(s, v));
                let want = if hit { Some(std::mem::replace(&mut self.items[i].1, vi)) } else { None };
                handed("get_mut", old, want);
            }
            ENTRY => {
                let (k, ki) = K::mk(o.a);
                let (i, hit) = self.lower(ki.val);
                let (v, vi) = self.fresh();
                match (tracked(g, || self.v.entry(k)), hit) {
                    (Entry::Occupied(mut e), true) => {
                        lent("OccupiedEntry::key", Some(e.key()), Some(&mut self.items[i].0));
                        lent("OccupiedEntry::get", Some(e.get()), Some(&mut self.items[i].1));
                        if o.b == 1 {
                            let old = std::mem::replace(e.get_mut(), v);
                            let want = std::mem::replace(&mut self.items[i].1, vi);
                            handed("OccupiedEntry::get_mut", Some(old), Some(want));
                            lent("OccupiedEntry::get", Some(e.get()), Some(&mut self.items[i].1));
                        }
                    }
                    (Entry::Vacant(e), false) => {
                        lent("VacantEntry::key", Some(e.key()), Some(&mut ki.clone()));
                        match o.b {
                            0 => handed("VacantEntry::into_key", Some(e.into_key()), Some(ki)),
                            1 => {
                                let shown = tracked(g, || e.insert(v));
                                lent("VacantEntry::insert", Some(&*shown), Some(&mut vi.clone()));
                                self.model_insert(ki, vi);
                            }
                            _ => drop(e),
                        }
                    }
                    (Entry::Occupied(_), false) => bad!(Semantic, "the entry of an absent key is occupied"),
                    (Entry::Vacant(_), true) => bad!(Semantic, "the entry of a present key is vacant"),
                }
            }
            CLEAR => {
                must("clear", || tracked(g, || self.v.clear()));
                self.items.clear();
                self.cap = self.v.capacity();
            }
            REBUILD if o.a == 9 => {
                let Some(n) = must("with_capacity", || tracked(g, || VectorMap::with_capacity(o.b as usize))) else { return };
                let old = std::mem::replace(&mut self.v, n);
                tracked(g, || drop(old));
                self.items.clear();
                self.cap = o.b as usize;
            }
            REBUILD => {
                let src = src_keys(o.b, self.u);
                let mut a: Vec<(K, V)> = vec![];
                let mut its = vec![];
                for k in src {
                    let (k, ki) = K::mk(k);
                    let (v, vi) = self.fresh();
                    a.push((k, v));
                    its.push(if matches!(o.a, 1 | 2 | 4) { (ki.cloned(), vi.cloned()) } else { (ki, vi) });
                }
                let f = self.ctor.unwrap();
                // the source itself is not from the container's allocator
                let Some(n) = must("constructor", || f(o.a, a)) else { return };
                self.items.clear();
                self.cap = n.capacity();
                for (k, v) in its {
                    let c = self.cap;
                    self.model_insert(k, v);
                    self.cap = c;
                }
                let old = std::mem::replace(&mut self.v, n);
                drop(old);
            }
            FILL => {
                let mut k = 0;
                for _ in 0..o.a {
                    let (key, ki) = K::mk(k);
                    let (v, vi) = self.fresh();
                    let got = must("insert", || tracked(g, || self.v.insert(key, v)));
                    let want = self.model_insert(ki, vi);
                    handed("insert", got.flatten(), want);
                    k = (k + o.b) % self.u;
                }
            }
            _ => {}
        }
        if full {
            self.full();
        }
    }

    fn key(&self, out: &mut Vec<u8>) {
        out.push(self.new as u8);
        out.extend((self.v.capacity() as u32).to_le_bytes());
        for (k, _) in self.v.as_ref() {
            out.extend(k.value().to_le_bytes());
        }
    }

    fn end(self: Box<Self>) {
        let g = A::GLOBAL;
        let v = self.v;
        tracked(g, || drop(v));
    }

    fn show(&self, o: Op) -> String {
        match o.c {
            INSERT => format!("insert key {}", o.a),
            REMOVE => format!("remove key {}", o.a),
            REMOVE_ENTRY => format!("remove_entry key {}", o.a),
            GET_MUT => format!("get_mut key {}, replacing the value", o.a),
            ENTRY => format!("entry of key {}, then {}", o.a, ["into_key if vacant", "insert or get_mut", "nothing"][o.b as usize % 3]),
            CLEAR => "clear".into(),
            ADOPT => format!("as C++ may hand it over: keys {:?} in room for {}", (0..self.u).filter(|k| o.a >> k & 1 == 1).collect::<Vec<_>>(), o.b),
            REBUILD if o.a == 9 => format!("replace by with_capacity({})", o.b),
            REBUILD if o.b >= SRC.len() as u32 => format!("replace by {} of {} keys, some twice", ["from_iter", "from(&[_])", "from(&mut [_])", "", "", "default and inserts"][o.a as usize % 6], o.b),
            REBUILD => format!("replace by {} of keys {:?}", ["from_iter", "from(&[_])", "from(&mut [_])", "from([_; 3])", "from(&[_; 3])", "default and inserts"][o.a as usize % 6], SRC[o.b as usize % SRC.len()]),
            FILL => format!("insert {} keys in steps of {}", o.a, o.b),
            _ => "-".into(),
        }
    }
}
