//! `Map`, `Set` and the fixed maps, which take over red-black trees built by C++.

use super::vmap::Cmp;
use super::{handed, must};
use crate::alloc::{tracked, TestAlloc, TrackAlloc};
use crate::explore::{op, Op, System};
use crate::rt::{cx, op_start, reset_keep_violations};
use crate::tok::*;
#[cfg(feature = "hooks")]
use eastl_rs::verif_hooks::{FixedPool, FixedPoolWithOverflow};
use eastl_rs::{Allocator, Map, Set};
#[cfg(feature = "hooks")]
use eastl_rs::{FixedMap, FixedMapWithOverflow};
#[cfg(feature = "hooks")]
#[allow(unused_imports)]
use eastl_rs::verif_hooks::PoolAllocator;
use moveit::New;
use std::mem::{align_of, offset_of, size_of, MaybeUninit};
use std::pin::Pin;
use std::sync::{Arc, Mutex};

/// A node as C++ makes it.
#[repr(C)]
pub struct RNode<K, V> {
    right: *mut RNode<K, V>,
    left: *mut RNode<K, V>,
    /// lowest bit: black
    parent: usize,
    pair: super::hash::RPair<K, V>,
}
/// A tree as C++ sees it; the three links are laid out like a node's.
#[repr(C)]
struct RTree {
    compare: usize,
    begin: usize,
    end: usize,
    root: usize,
    size: u32,
}

pub const NIL: u32 = u32::MAX;
/// A valid red-black tree; nodes are numbered in order.
#[derive(Clone)]
pub struct Shape {
    pub n: usize,
    root: u32,
    left: Vec<u32>,
    right: Vec<u32>,
    red: Vec<bool>,
}

/// (root, links of the nodes `lo..lo+n`) for all trees of `n` nodes with `bh` black nodes on each path
type Sub = (u32, Vec<(u32, u32, bool)>);
fn subtrees(lo: usize, n: usize, bh: usize, red_ok: bool) -> Vec<Sub> {
    if n == 0 {
        return if bh == 0 { vec![(NIL, vec![])] } else { vec![] };
    }
    // a tree of this black height has at least 2^bh - 1 and at most 4^bh (*2) nodes
    if (1usize << bh) - 1 > n || n + 1 > (2usize << (2 * bh)) {
        return vec![];
    }
    let mut out = vec![];
    for red in [false, true] {
        if red && !red_ok || !red && bh == 0 {
            continue;
        }
        let cb = if red { bh } else { bh - 1 };
        for l in 0..n {
            let ls = subtrees(lo, l, cb, !red);
            if ls.is_empty() {
                continue;
            }
            let rs = subtrees(lo + l + 1, n - 1 - l, cb, !red);
            for (lr, lv) in &ls {
                for (rr, rv) in &rs {
                    let mut v = lv.clone();
                    v.push((*lr, *rr, red));
                    v.extend_from_slice(rv);
                    out.push(((lo + l) as u32, v));
                }
            }
        }
    }
    out
}

impl Shape {
    pub fn len(&self) -> usize {
        self.n
    }
}

fn shape(root: u32, links: &[(u32, u32, bool)]) -> Shape {
    Shape {
        n: links.len(),
        root,
        left: links.iter().map(|l| l.0).collect(),
        right: links.iter().map(|l| l.1).collect(),
        red: links.iter().map(|l| l.2).collect(),
    }
}

/// Appends a red-black tree of black height `bh` to `v`. `long` tells on which side of the node
/// at a given depth the tall subtree lies, `None` for none.
fn tall(v: &mut Vec<(u32, u32, bool)>, bh: usize, red: bool, depth: usize, long: &dyn Fn(usize) -> Option<bool>) -> u32 {
    if bh == 0 && !red {
        return NIL;
    }
    let side = long(depth);
    let cb = if red { bh } else { bh - 1 };
    // the tall side takes a red node wherever it may
    let child = |v: &mut Vec<_>, right: bool| match side {
        Some(s) if s == right => tall(v, cb, !red, depth + 1, long),
        _ => tall(v, cb, false, depth + 1, &|_| None),
    };
    let l = child(v, false);
    let at = v.len();
    v.push((l, NIL, red));
    let r = child(v, true);
    v[at].1 = r;
    at as u32
}

/// The tree that insertion in ascending order yields.
fn ascending(n: usize) -> Shape {
    let mut s = Shape { n, root: NIL, left: vec![NIL; n], right: vec![NIL; n], red: vec![true; n] };
    let mut up = vec![NIL; n];
    fn turn(s: &mut Shape, up: &mut [u32], x: u32) {
        // to the left
        let y = s.right[x as usize];
        s.right[x as usize] = s.left[y as usize];
        if s.left[y as usize] != NIL {
            up[s.left[y as usize] as usize] = x;
        }
        let p = up[x as usize];
        up[y as usize] = p;
        if p == NIL {
            s.root = y;
        } else if s.left[p as usize] == x {
            s.left[p as usize] = y;
        } else {
            s.right[p as usize] = y;
        }
        s.left[y as usize] = x;
        up[x as usize] = y;
    }
    for i in 0..n {
        if i == 0 {
            s.root = 0;
        } else {
            s.right[i - 1] = i as u32;
            up[i] = i as u32 - 1;
        }
        let mut x = i as u32;
        while up[x as usize] != NIL && s.red[up[x as usize] as usize] {
            let p = up[x as usize];
            let g = up[p as usize];
            // always the right spine
            let uncle = s.left[g as usize];
            if uncle != NIL && s.red[uncle as usize] {
                s.red[p as usize] = false;
                s.red[uncle as usize] = false;
                s.red[g as usize] = true;
                x = g;
            } else {
                s.red[p as usize] = false;
                s.red[g as usize] = true;
                turn(&mut s, &mut up, g);
                break;
            }
        }
        let r = s.root as usize;
        s.red[r] = false;
    }
    s
}

fn mirrored(s: &Shape) -> Shape {
    let m = |i: u32| if i == NIL { NIL } else { (s.n - 1) as u32 - i };
    let mut left: Vec<u32> = s.right.iter().map(|&i| m(i)).collect();
    let mut right: Vec<u32> = s.left.iter().map(|&i| m(i)).collect();
    let mut red = s.red.clone();
    left.reverse();
    right.reverse();
    red.reverse();
    Shape { n: s.n, root: m(s.root), left, right, red }
}

fn valid(s: &Shape) -> bool {
    // (black height, next number in order)
    fn walk(s: &Shape, i: u32, up_red: bool, next: &mut u32) -> Option<usize> {
        if i == NIL {
            return Some(0);
        }
        let k = i as usize;
        if s.red[k] && up_red {
            return None;
        }
        let l = walk(s, s.left[k], s.red[k], next)?;
        if *next != i {
            return None;
        }
        *next += 1;
        let r = walk(s, s.right[k], s.red[k], next)?;
        (l == r).then_some(l + !s.red[k] as usize)
    }
    let mut next = 0;
    s.root != NIL && !s.red[s.root as usize] && walk(s, s.root, true, &mut next).is_some() && next as usize == s.n
}

/// Chosen large trees of up to `max` nodes: full ones, ones as tall as can be to either side or
/// zigzag, and those insertion in ascending and descending order yields.
pub fn large_shapes(max: usize, lens: &[u32]) -> Arc<Vec<Shape>> {
    let mut v: Vec<Shape> = vec![];
    let longs: [&dyn Fn(usize) -> Option<bool>; 6] =
        [&|_| None, &|_| Some(false), &|_| Some(true), &|d| Some(d % 2 == 0), &|d| Some(d / 2 % 2 == 0), &|d| Some(d / 3 % 2 == 0)];
    for bh in 1.. {
        let mut any = false;
        for long in longs {
            let mut links = vec![];
            let root = tall(&mut links, bh, false, 0, long);
            if links.len() <= max {
                any = true;
                v.push(shape(root, &links));
            }
        }
        if !any {
            break;
        }
    }
    for &n in lens {
        if n >= 1 && n as usize <= max {
            v.push(ascending(n as usize));
        }
    }
    let m: Vec<Shape> = v.iter().map(mirrored).collect();
    v.extend(m);
    v.retain(|s| s.n > 0);
    assert!(v.iter().all(valid), "the harness makes only valid trees");
    Arc::new(v)
}

/// Trees of at least `n` nodes: filled in order, and as high on one side as they may be.
pub fn huge_shapes(n: usize) -> Arc<Vec<Shape>> {
    let mut v = vec![ascending(n)];
    for bh in 1.. {
        let mut links = vec![];
        let root = tall(&mut links, bh, false, 0, &|_| Some(false));
        if links.len() >= n {
            v.push(shape(root, &links));
            break;
        }
    }
    let m: Vec<Shape> = v.iter().map(mirrored).collect();
    v.extend(m);
    assert!(v.iter().all(valid), "the harness makes only valid trees");
    Arc::new(v)
}

/// All valid red-black trees with a black root and `from..=to` nodes.
pub fn shapes(from: usize, to: usize) -> Arc<Vec<Shape>> {
    static CACHE: Mutex<Vec<((usize, usize), Arc<Vec<Shape>>)>> = Mutex::new(Vec::new());
    let mut g = CACHE.lock().unwrap();
    if let Some((_, s)) = g.iter().find(|(k, _)| *k == (from, to)) {
        return s.clone();
    }
    let mut v = vec![];
    for n in from..=to {
        for bh in 0..8 {
            for (root, links) in subtrees(0, n, bh, false) {
                v.push(shape(root, &links));
            }
        }
    }
    let v = Arc::new(v);
    g.push(((from, to), v.clone()));
    v
}


/// What a container over a tree can do.
pub trait Tree<K: Elem, V: Elem>: Sized + 'static {
    const KIND: &'static str;
    /// inline nodes
    const N: usize;
    /// can hold more nodes than the inline ones
    const MORE: bool;
    const MAP: bool;
    /// requests go to the process-wide allocator
    const GLOBAL: bool;
    unsafe fn build(at: &mut MaybeUninit<Self>, how: u32);
    /// a node's memory, as C++ code that inserts into this container would obtain it
    unsafe fn node(&mut self) -> *mut RNode<K, V>;
    fn clear(&mut self);
    fn contains(&self, k: &K) -> bool;
    fn get(&self, k: &K) -> Option<&V>;
    fn get_mut(&mut self, k: &K) -> Option<&mut V>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    unsafe fn iter(&self) -> impl Iterator<Item = (&K, Option<&V>)> + '_;
    unsafe fn inherited(&self, keys: &[usize]);
    unsafe fn iter_mut(&mut self) -> Option<impl Iterator<Item = (&K, &mut V)> + '_>;
    fn debug(&self) -> Option<String>;
}

const GLOBAL_OWNER: u32 = 0xD0;

macro_rules! map_common {
    () => {
        fn clear(&mut self) {
            Map::clear(self)
        }
        fn contains(&self, k: &K) -> bool {
            self.contains_key(k)
        }
        fn get(&self, k: &K) -> Option<&V> {
            Map::get(self, k)
        }
        fn get_mut(&mut self, k: &K) -> Option<&mut V> {
            Map::get_mut(self, k)
        }
        fn len(&self) -> usize {
            Map::len(self)
        }
        fn is_empty(&self) -> bool {
            Map::is_empty(self)
        }
        unsafe fn iter(&self) -> impl Iterator<Item = (&K, Option<&V>)> + '_ {
            Map::iter(self).map(|(k, v)| (k, Some(v)))
        }
        unsafe fn inherited(&self, keys: &[usize]) {
            super::inherited("iter()", keys, &mut || Map::iter(self), &|(k, _)| k as *const K as usize);
        }
        unsafe fn iter_mut(&mut self) -> Option<impl Iterator<Item = (&K, &mut V)> + '_> {
            Some(Map::iter_mut(self))
        }
    };
}

impl<K: Elem + PartialEq, V: Elem, A: TestAlloc, C: Cmp<K>> Tree<K, V> for Map<K, V, A, C> {
    const GLOBAL: bool = A::GLOBAL;
    const KIND: &'static str = "Map";
    const N: usize = 0;
    const MORE: bool = true;
    const MAP: bool = true;
    unsafe fn build(at: &mut MaybeUninit<Self>, how: u32) {
        at.write(match how % 4 {
            0 | 1 => Map::with_allocator(A::make(0)),
            2 => Map::with_compare(C::default()),
            _ => Map::with_allocator_and_compare(A::make(0), C::default()),
        });
    }
    unsafe fn node(&mut self) -> *mut RNode<K, V> {
        cx().alloc(size_of::<RNode<K, V>>(), align_of::<RNode<K, V>>(), if A::GLOBAL { GLOBAL_OWNER } else { 0 }).cast()
    }
    map_common!();
    fn debug(&self) -> Option<String> {
        Some(format!("{self:?}"))
    }
}

impl<K: Elem + PartialEq, A: TestAlloc, C: Cmp<K>> Tree<K, ()> for Set<K, A, C> {
    const GLOBAL: bool = A::GLOBAL;
    const KIND: &'static str = "Set";
    const N: usize = 0;
    const MORE: bool = true;
    const MAP: bool = false;
    unsafe fn build(at: &mut MaybeUninit<Self>, how: u32) {
        at.write(match how % 4 {
            0 | 1 => Set::with_allocator(A::make(0)),
            2 => Set::with_compare(C::default()),
            _ => Set::with_allocator_and_compare(A::make(0), C::default()),
        });
    }
    unsafe fn node(&mut self) -> *mut RNode<K, ()> {
        cx().alloc(size_of::<RNode<K, ()>>(), align_of::<RNode<K, ()>>(), if A::GLOBAL { GLOBAL_OWNER } else { 0 }).cast()
    }
    fn clear(&mut self) {
        Set::clear(self)
    }
    fn contains(&self, k: &K) -> bool {
        self.contains_key(k)
    }
    fn get(&self, _: &K) -> Option<&()> {
        None
    }
    fn get_mut(&mut self, _: &K) -> Option<&mut ()> {
        None
    }
    fn len(&self) -> usize {
        Set::len(self)
    }
    fn is_empty(&self) -> bool {
        Set::is_empty(self)
    }
    unsafe fn iter(&self) -> impl Iterator<Item = (&K, Option<&()>)> + '_ {
        Set::iter(self).map(|k| (k, None))
    }
    unsafe fn inherited(&self, keys: &[usize]) {
        super::inherited("iter()", keys, &mut || Set::iter(self), &|k| k as *const K as usize);
    }
    unsafe fn iter_mut(&mut self) -> Option<impl Iterator<Item = (&K, &mut ())> + '_> {
        None::<std::iter::Empty<(&K, &mut ())>>
    }
    fn debug(&self) -> Option<String> {
        None
    }
}

#[cfg(feature = "hooks")]
impl<K: Elem + PartialEq, V: Elem, const N: usize, C: Cmp<K>> Tree<K, V> for FixedMap<K, V, N, C> {
    const GLOBAL: bool = false;
    const KIND: &'static str = "FixedMap";
    const N: usize = N;
    const MORE: bool = false;
    const MAP: bool = true;
    unsafe fn build(at: &mut MaybeUninit<Self>, _: u32) {
        New::new(Self::new(), Pin::new_unchecked(at));
    }
    unsafe fn node(&mut self) -> *mut RNode<K, V> {
        let pool = (self as *mut Self as *mut u8).add(POOL_AT) as *mut FixedPool<RNode<K, V>>;
        (*pool).allocate::<RNode<K, V>>(1)
    }
    map_common!();
    fn debug(&self) -> Option<String> {
        Some(format!("{:?}", **self))
    }
}

/// where a fixed map's pool lies
const POOL_AT: usize = 40;

/// gives the harness's allocators access to the overflow pool's inside
#[cfg(feature = "hooks")]
impl<K: Elem + PartialEq, V: Elem, const N: usize, C: Cmp<K>> Tree<K, V> for FixedMapWithOverflow<K, V, N, TrackAlloc, C> {
    const GLOBAL: bool = false;
    const KIND: &'static str = "FixedMapWithOverflow";
    const N: usize = N;
    const MORE: bool = true;
    const MAP: bool = true;
    unsafe fn build(at: &mut MaybeUninit<Self>, _: u32) {
        New::new(Self::new(), Pin::new_unchecked(at));
    }
    unsafe fn node(&mut self) -> *mut RNode<K, V> {
        let pool = (self as *mut Self as *mut u8).add(POOL_AT) as *mut FixedPoolWithOverflow<RNode<K, V>, TrackAlloc>;
        (*pool).allocate::<RNode<K, V>>(1)
    }
    map_common!();
    fn debug(&self) -> Option<String> {
        Some(format!("{:?}", **self))
    }
}

/// The overflow allocator is the process-wide one.
#[cfg(feature = "hooks")]
impl<K: Elem + PartialEq, V: Elem, const N: usize, C: Cmp<K>> Tree<K, V> for eastl_rs::DefaultFixedMapWithOverflow<K, V, N, C> {
    const GLOBAL: bool = true;
    const KIND: &'static str = "DefaultFixedMapWithOverflow";
    const N: usize = N;
    const MORE: bool = true;
    const MAP: bool = true;
    unsafe fn build(at: &mut MaybeUninit<Self>, _: u32) {
        New::new(Self::new(), Pin::new_unchecked(at));
    }
    unsafe fn node(&mut self) -> *mut RNode<K, V> {
        let pool = (self as *mut Self as *mut u8).add(POOL_AT) as *mut FixedPoolWithOverflow<RNode<K, V>, eastl_rs::DefaultAllocator>;
        tracked(true, || (*pool).allocate::<RNode<K, V>>(1))
    }
    map_common!();
    fn debug(&self) -> Option<String> {
        Some(format!("{:?}", **self))
    }
}

pub const BUILD: u32 = 1;
pub const CLEAR: u32 = 2;
pub const WRITE: u32 = 3;
pub const WRITE_ALL: u32 = 4;
pub const REMAKE: u32 = 5;
/// C++ leaves an empty tree's links pointing at itself
pub const EMPTY: u32 = 6;
/// every lookup of every key, cut short at every comparison
pub const CUT: u32 = 7;

#[derive(Clone, Copy)]
struct Entry {
    k: It,
    v: It,
    at: usize,
}

pub struct TreeSys<K: Elem, V: Elem, C: Cmp<K>, T: Tree<K, V>> {
    at: Box<MaybeUninit<T>>,
    shapes: Arc<Vec<Shape>>,
    /// orders in which nodes may be allocated
    orders: u32,
    shape: Option<(usize, u32)>,
    cpp_empty: bool,
    items: Vec<Entry>,
    /// the values of the key universe, and the class under the comparator of each
    classes: Vec<Vec<u32>>,
    next: u32,
    made: u32,
    _p: std::marker::PhantomData<(K, V, C)>,
}

impl<K: Elem + PartialEq, V: Elem, C: Cmp<K>, T: Tree<K, V>> TreeSys<K, V, C, T> {
    pub fn new(shapes: Arc<Vec<Shape>>, orders: u32) -> Box<dyn System> {
        Box::new(Self::sys(shapes, orders))
    }
    /// Clearing and dropping every tree with a destructor that panics, whichever it is.
    pub fn torn(shapes: &Arc<Vec<Shape>>, lo: usize, hi: usize) -> u64 {
        let mut count = 0;
        for idx in lo..hi {
            for drops in [false, true] {
                for at in 0.. {
                    reset_keep_violations();
                    let mut s = Self::sys(shapes.clone(), 1);
                    s.adopt(idx, 0);
                    let what = if drops { "drop" } else { "clear" };
                    op_start();
                    cx().fault_drops = true;
                    cx().fault_in = at;
                    let r = crate::rt::catch(|| tracked(T::GLOBAL, || if drops { unsafe { s.at.assume_init_drop() } } else { s.t().clear() }));
                    cx().fault_in = -1;
                    cx().fault_drops = false;
                    let cut = matches!(r, crate::rt::Caught::Injected);
                    if let crate::rt::Caught::Panicked(m) = r {
                        bad!(Panic, "{what} panics: {m}");
                    }
                    if drops {
                        s.make();
                    }
                    let n = s.t().len();
                    let mut seen = vec![];
                    for (k, v) in unsafe { s.t().iter() }.take(n + 1) {
                        k.value();
                        if let Some(v) = v {
                            v.value();
                        }
                        seen.push(k.value());
                    }
                    check!(seen.len() == n && s.t().is_empty() == (n == 0), Fault, "{what} of a tree of {} nodes whose destructor number {} panics leaves a length of {n} and {} entries", shapes[idx].n, at + 1, seen.len());
                    for x in 0..2 * shapes[idx].n as u32 + 1 {
                        let probe = K::make(x);
                        check!(!s.t().contains(&probe) || seen.iter().any(|&y| !C::lt(x, y) && !C::lt(y, x)), Fault, "a key is found that iteration does not show");
                    }
                    must("clear", || tracked(T::GLOBAL, || s.t().clear()));
                    must("drop", || tracked(T::GLOBAL, || unsafe { s.at.assume_init_drop() }));
                    drop(s);
                    cx().check_end();
                    count += 1;
                    if !cx().violations.is_empty() {
                        return count;
                    }
                    if !cut {
                        break;
                    }
                }
            }
        }
        count
    }
    fn sys(shapes: Arc<Vec<Shape>>, orders: u32) -> Self {
        let max = shapes.iter().map(|s| s.n).max().unwrap_or(0);
        // enough classes of keys to have an absent one before, between and after the present ones
        let mut classes: Vec<Vec<u32>> = vec![];
        let mut x = 0;
        let plain = max > 40;
        if plain {
            assert!((2 * max as u64) < K::VALS && C::lt(0, 1) != C::lt(1, 0) && C::lt(1, 2) == C::lt(0, 1));
            classes = (0..=2 * max as u32).map(|x| vec![x]).collect();
            if !C::lt(0, 1) {
                classes.reverse();
            }
        }
        while classes.len() < 2 * max + 1 {
            match classes.iter_mut().find(|c| !C::lt(c[0], x) && !C::lt(x, c[0])) {
                Some(c) => c.push(x),
                None => classes.push(vec![x]),
            }
            x += 1;
        }
        if !plain {
            classes.sort_by(|a, b| if C::lt(a[0], b[0]) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater });
        }
        let mut s: Self = TreeSys {
            at: Box::new(MaybeUninit::uninit()),
            shapes,
            orders,
            shape: None,
            cpp_empty: false,
            items: vec![],
            classes,
            next: 5000,
            made: 0,
            _p: Default::default(),
        };
        s.make();
        s
    }
    pub fn name() -> String {
        format!("{} of {} to {}, {}", T::KIND, K::NAME, V::NAME, C::NAME)
    }
    fn make(&mut self) {
        unsafe {
            std::ptr::write_bytes(self.at.as_mut_ptr() as *mut u8, 0xEE, size_of::<T>());
            T::build(&mut self.at, self.made);
        }
        self.made += 1;
        self.cpp_empty = false;
    }
    fn t(&mut self) -> &mut T {
        unsafe { self.at.assume_init_mut() }
    }
    fn raw(&mut self) -> *mut RTree {
        self.at.as_mut_ptr().cast()
    }
    fn inside(&self, p: usize) -> bool {
        let b = self.at.as_ptr() as usize;
        p >= b && p < b + size_of::<T>()
    }

    /// Builds a tree the way C++ would leave it.
    fn adopt(&mut self, idx: usize, order: u32) {
        let shapes = self.shapes.clone();
        let s = &shapes[idx];
        let n = s.n;
        let mut nodes: Vec<*mut RNode<K, V>> = vec![std::ptr::null_mut(); n];
        let node_layout = (size_of::<RNode<K, V>>(), align_of::<RNode<K, V>>());
        for j in 0..n {
            let i = match order {
                0 => j,
                1 => n - 1 - j,
                _ => (j + n / 2) % n,
            };
            op_start();
            let p = unsafe { self.t().node() };
            if T::N > 0 {
                if j < T::N {
                    check!(self.inside(p as usize), Pool, "with {j} of {} inline nodes used, a node is taken from elsewhere", T::N);
                    check!(cx().allocs.is_empty(), Pool, "with {j} of {} inline nodes used, the overflow allocator is asked", T::N);
                } else if T::MORE {
                    check!(cx().allocs == [node_layout], Pool, "with all inline nodes used, {:?} is requested instead of one node", cx().allocs);
                }
                check!(p as usize % node_layout.1 == 0, Pool, "a node at an address not aligned to {}", node_layout.1);
                let clash = nodes.iter().take(if n > 64 { 0 } else { n }).any(|&q| !q.is_null() && (q as usize).abs_diff(p as usize) < node_layout.0);
                check!(!clash, Pool, "two live nodes overlap");
                if p.is_null() || clash || !(self.inside(p as usize) || cx().live_block_at(p as usize).is_some()) {
                    bad!(Pool, "no usable node although {j} of {} are used", T::N);
                    // leave the container empty
                    return;
                }
            }
            nodes[i] = p;
        }
        let get = |i: u32| if i == NIL { std::ptr::null_mut() } else { nodes[i as usize] };
        let anchor = unsafe { &raw mut (*self.raw()).begin } as usize;
        let mut parent = vec![anchor; n];
        for i in 0..n {
            for c in [s.left[i], s.right[i]] {
                if c != NIL {
                    parent[c as usize] = nodes[i] as usize;
                }
            }
        }
        for i in 0..n {
            let class = self.classes[2 * i + 1].clone();
            let (k, ki) = K::mk(class[i % class.len()]);
            self.next += 1;
            let (v, vi) = V::mk(self.next);
            unsafe {
                nodes[i].write(RNode {
                    right: get(s.right[i]),
                    left: get(s.left[i]),
                    parent: parent[i] | !s.red[i] as usize,
                    pair: super::hash::RPair { key: k, val: v },
                });
            }
            self.items.push(Entry { k: ki, v: vi, at: nodes[i] as usize });
        }
        unsafe {
            let r = self.raw();
            (*r).begin = nodes[0] as usize;
            (*r).end = nodes[n - 1] as usize;
            (*r).root = get(s.root) as usize;
            (*r).size = n as u32;
        }
        self.shape = Some((idx, order));
        self.cpp_empty = false;
    }

    fn emptied(&mut self, what: &str) {
        let node_layout = (size_of::<RNode<K, V>>(), align_of::<RNode<K, V>>());
        let outside = self.items.iter().filter(|e| !self.inside(e.at)).count();
        let c = cx();
        check!(
            c.frees.len() == outside && c.frees.iter().all(|f| *f == node_layout),
            Alloc,
            "{what} releases {:?} for {outside} nodes of {} bytes aligned {}",
            c.frees.iter().take(8).collect::<Vec<_>>(),
            node_layout.0,
            node_layout.1
        );
        for e in &self.items {
            if K::TRACKED {
                check!(!c.regs[e.k.ser as usize].live, Element, "{what} does not drop the key {}", e.k.val);
            }
            if V::TRACKED {
                check!(!c.regs[e.v.ser as usize].live, Element, "{what} does not drop the value of key {}", e.k.val);
            }
        }
        self.items.clear();
        self.shape = None;
    }

    fn full(&mut self) {
        let n = self.items.len();
        let items = self.items.clone();
        let before: Vec<[usize; 3]> = unsafe { items.iter().map(|e| std::ptr::read(e.at as *const [usize; 3])).collect() };
        let classes = std::mem::take(&mut self.classes);
        let (koff, voff) = (
            offset_of!(RNode<K, V>, pair) + offset_of!(super::hash::RPair<K, V>, key),
            offset_of!(RNode<K, V>, pair) + offset_of!(super::hash::RPair<K, V>, val),
        );
        let t = self.t();
        check!(t.len() == n, Semantic, "len is {} instead of {n}", t.len());
        check!(t.is_empty() == (n == 0), Semantic, "is_empty is {} with {n} entries", t.is_empty());
        if n == 0 {
            check!(t.len() == 0 && t.is_empty(), Cleared, "an empty container has length {}", t.len());
        }
        for (c, class) in classes.iter().enumerate() {
            let want = if c % 2 == 1 { items.get(c / 2) } else { None };
            for &x in class {
                let probe = K::make(x);
                let has = t.contains(&probe);
                check!(has == want.is_some(), Semantic, "contains_key({x}) is {has}");
                if n == 0 {
                    check!(!has, Cleared, "an empty container has the key {x}");
                }
                if !T::MAP {
                    continue;
                }
                for which in 0..2 {
                    let got = if which == 0 { t.get(&probe).map(|v| v as *const V as usize) } else { t.get_mut(&probe).map(|v| v as *mut V as usize) };
                    let name = if which == 0 { "get" } else { "get_mut" };
                    match (got, want) {
                        (None, None) => {}
                        (Some(g), Some(e)) if g == e.at + voff => {
                            check!(unsafe { (*(g as *const V)).is(&e.v) }, Semantic, "{name}({x}) shows another value")
                        }
                        (Some(_), Some(_)) => bad!(Semantic, "{name}({x}) shows another entry's value"),
                        (None, Some(_)) => bad!(Semantic, "{name}({x}) finds nothing"),
                        (Some(_), None) => {
                            bad!(Semantic, "{name}({x}) finds something for an absent key");
                            if n == 0 {
                                bad!(Cleared, "{name}({x}) finds something in an empty container");
                            }
                        }
                    }
                }
            }
        }
        unsafe {
            let mut it = t.iter();
            for k in 0..=n {
                match it.next() {
                    Some(_) if k == n => {
                        bad!(Iter, "iteration goes on after {n} entries");
                        break;
                    }
                    Some((key, val)) => {
                        let ok = key as *const K as usize == items[k].at + koff && val.is_none_or(|v| v as *const V as usize == items[k].at + voff);
                        check!(ok, Iter, "iteration yields another entry at {k}, expected the key {}", items[k].k.val);
                        if !ok {
                            break;
                        }
                        check!(key.is(&items[k].k) && val.is_none_or(|v| v.is(&items[k].v)), Iter, "iteration yields another key or value at {k}");
                    }
                    None => {
                        check!(k == n, Iter, "iteration ends after {k} of {n} entries");
                        break;
                    }
                }
            }
            if cx().violations.is_empty() {
                check!(it.next().is_none() && it.next().is_none(), Iter, "iteration goes on after its end");
            }
            drop(it);
            if let Some(mut it) = t.iter_mut() {
                for k in 0..=n {
                    match it.next() {
                        Some(_) if k == n => {
                            bad!(Iter, "iter_mut goes on after {n} entries");
                            break;
                        }
                        Some((key, val)) => {
                            let ok = key as *const K as usize == items[k].at + koff && val as *mut V as usize == items[k].at + voff;
                            check!(ok, Iter, "iter_mut yields another entry at {k}, expected the key {}", items[k].k.val);
                            if !ok {
                                break;
                            }
                        }
                        None => {
                            check!(k == n, Iter, "iter_mut ends after {k} of {n} entries");
                            break;
                        }
                    }
                }
                if cx().violations.is_empty() {
                    check!(it.next().is_none() && it.next().is_none(), Iter, "iter_mut goes on after its end");
                }
            }
        }
        if (n <= 8 || n > 100) && cx().violations.is_empty() {
            let keys: Vec<usize> = items.iter().map(|e| e.at + koff).collect();
            unsafe {
                t.inherited(&keys);
            }
            let t = &mut *t as *mut T;
            if unsafe { (*t).iter_mut() }.is_some() {
                super::inherited("iter_mut()", &keys, &mut || unsafe { (*t).iter_mut() }.unwrap(), &|(k, _)| k as *const K as usize);
            }
        }
        if n <= 8 && cx().violations.is_empty() {
            if let Some(d) = t.debug() {
                let want = format!("{{{}}}", items.iter().map(|e| format!("{}: {}", e.k.val as u64 % K::VALS, if size_of::<V>() == 0 { "()".into() } else { (e.v.val as u64 % V::VALS).to_string() })).collect::<Vec<_>>().join(","));
                check!(d == want, Iter, "Debug prints {d} instead of {want}");
            }
        }
        // reading leaves the tree as it is
        let after: Vec<[usize; 3]> = unsafe { items.iter().map(|e| std::ptr::read(e.at as *const [usize; 3])).collect() };
        check!(before == after, Layout, "reading changed the tree");
        unsafe {
            let r = &*self.raw();
            check!(r.size as usize == n, Layout, "the size in memory is {} instead of {n}", r.size);
            if n > 0 {
                check!(r.begin == items[0].at && r.end == items[n - 1].at, Layout, "the lowest and highest node are not where C++ left them");
            } else {
                check!(r.root == 0, Cleared, "an empty tree still has a root");
            }
        }
        let outside = items.iter().filter(|e| !self.inside(e.at)).count();
        check!(cx().live_blocks == outside, Alloc, "{} blocks are in use for {outside} nodes", cx().live_blocks);
        self.classes = classes;
    }
}

impl<K: Elem + PartialEq, V: Elem, C: Cmp<K>, T: Tree<K, V>> System for TreeSys<K, V, C, T> {
    fn ops(&self, lvl: u8, out: &mut Vec<Op>) {
        if lvl == 1 {
            out.push(op(CUT, 0, 0));
        }
        if self.shape.is_none() {
            for (i, s) in self.shapes.iter().enumerate() {
                if lvl == 3 && i != self.shapes.len() / 2 - 1 && i + 1 != self.shapes.len() {
                    continue;
                }
                if s.n <= T::N || T::MORE {
                    for o in 0..self.orders.min(s.n as u32) {
                        out.push(op(BUILD, i as u32, o));
                    }
                }
            }
            if !self.cpp_empty {
                out.push(op(EMPTY, 0, 0));
            }
        }
        out.push(op(CLEAR, 0, 0));
        out.push(op(REMAKE, 0, 0));
        if T::MAP {
            let n = self.items.len();
            for i in 0..n {
                if n > 40 && i > 1 && i != n / 2 && i + 1 != n {
                    continue;
                }
                out.push(op(WRITE, i as u32, 0));
            }
            out.push(op(WRITE_ALL, 0, 0));
        }
    }

    fn step(&mut self, o: Op, full: bool) {
        op_start();
        match o.c {
            BUILD => self.adopt(o.a as usize, o.b),
            CLEAR => {
                must("clear", || tracked(T::GLOBAL, || self.t().clear()));
                self.emptied("clear");
                self.cpp_empty = false;
            }
            REMAKE => {
                must("drop", || tracked(T::GLOBAL, || unsafe { self.at.assume_init_drop() }));
                self.emptied("drop");
                self.make();
            }
            EMPTY => unsafe {
                let r = self.raw();
                let anchor = &raw mut (*r).begin as usize;
                (*r).begin = anchor;
                (*r).end = anchor;
                self.cpp_empty = true;
            },
            WRITE => {
                let e = self.items[o.a as usize];
                self.next += 1;
                let (v, vi) = V::mk(self.next);
                let probe = K::make(e.k.val);
                let old = self.t().get_mut(&probe).map(|s| std::mem::replace(s, v));
                handed("get_mut", old, Some(e.v));
                self.items[o.a as usize].v = vi;
            }
            WRITE_ALL => {
                let mut news = vec![];
                for _ in 0..self.items.len() {
                    self.next += 1;
                    news.push(V::mk(self.next));
                }
                let mut olds = vec![];
                let mut its = vec![];
                {
                    let mut news = news.into_iter();
                    if let Some(it) = unsafe { self.t().iter_mut() } {
                        for (_, s) in it {
                            let Some((v, vi)) = news.next() else { break };
                            olds.push(std::mem::replace(s, v));
                            its.push(vi);
                        }
                    }
                }
                for (j, (old, it)) in olds.into_iter().zip(its).enumerate() {
                    let want = std::mem::replace(&mut self.items[j].v, it);
                    handed("iter_mut", Some(old), Some(want));
                }
            }
            CUT => {
                for c in self.classes.clone() {
                    for x in c {
                        for which in 0..3 {
                            for n in 0.. {
                                let probe = K::make(x);
                                cx().fault_in = n;
                                let r = crate::rt::catch(|| match which {
                                    0 => self.t().contains(&probe),
                                    1 => self.t().get(&probe).is_some(),
                                    _ => self.t().get_mut(&probe).is_some(),
                                });
                                cx().fault_in = -1;
                                if matches!(r, crate::rt::Caught::Injected) {
                                    continue;
                                }
                                check!(matches!(r, crate::rt::Caught::Ok(_)), Panic, "a lookup fails by itself");
                                break;
                            }
                        }
                    }
                }
                // a lookup cut short leaves nothing behind
                cx().faulted = false;
            }
            _ => {}
        }
        if full {
            self.full();
        }
    }

    fn key(&self, out: &mut Vec<u8>) {
        match self.shape {
            Some((i, o)) => {
                out.extend((i as u32).to_le_bytes());
                out.push(o as u8);
            }
            None => out.push(self.cpp_empty as u8),
        }
        if T::N > 0 {
            let base = self.at.as_ptr() as usize;
            for e in &self.items {
                out.extend(if self.inside(e.at) { (e.at - base) as u32 } else { u32::MAX }.to_le_bytes());
            }
            unsafe {
                let pool = (base + POOL_AT) as *const usize;
                let mut p = *pool;
                let mut k = 0;
                while p != 0 && k <= T::N && self.inside(p) {
                    out.extend(((p - base) as u32).to_le_bytes());
                    p = *(p as *const usize);
                    k += 1;
                }
                out.extend((*pool.add(1)).wrapping_sub(base).to_le_bytes());
            }
        }
    }

    fn end(mut self: Box<Self>) {
        op_start();
        must("drop", || tracked(T::GLOBAL, || unsafe { self.at.assume_init_drop() }));
        self.emptied("drop");
    }

    fn show(&self, o: Op) -> String {
        match o.c {
            BUILD => {
                let s = &self.shapes[o.a as usize];
                fn sh(s: &Shape, i: u32, depth: u32) -> String {
                    if i == NIL {
                        return "-".into();
                    }
                    // of large trees, the top
                    if s.n > 40 && depth > 3 {
                        return "..".into();
                    }
                    let i = i as usize;
                    let c = if s.red[i] { "r" } else { "b" };
                    if s.left[i] == NIL && s.right[i] == NIL {
                        format!("{c}{i}")
                    } else {
                        format!("{c}{i}({} {})", sh(s, s.left[i], depth + 1), sh(s, s.right[i], depth + 1))
                    }
                }
                format!("take over tree {} of {} nodes, {} (nodes obtained in order {})", o.a, s.n, sh(s, s.root, 0), o.b)
            }
            CLEAR => "clear".into(),
            REMAKE => "drop, and start with a new one".into(),
            EMPTY => "C++ leaves the empty tree's links pointing at itself".into(),
            CUT => "look up every key, with the comparator panicking at every call".into(),
            WRITE => format!("*get_mut(key of node {}) = new", o.a),
            WRITE_ALL => "for (_, v) in iter_mut() { *v = new }".into(),
            _ => format!("{o:?}"),
        }
    }
}

/// Leaves a tree of this shape in an empty container, with the keys 1, 3, 5, ... in order.
pub unsafe fn fill<K: Elem, V: Elem, T: Tree<K, V>>(t: *mut T, s: &Shape) {
    let n = s.n;
    let nodes: Vec<*mut RNode<K, V>> = (0..n).map(|_| (*t).node()).collect();
    let get = |i: u32| if i == NIL { std::ptr::null_mut() } else { nodes[i as usize] };
    let r = t as *mut RTree;
    let mut parent = vec![&raw mut (*r).begin as usize; n];
    for i in 0..n {
        for c in [s.left[i], s.right[i]] {
            if c != NIL {
                parent[c as usize] = nodes[i] as usize;
            }
        }
    }
    for i in 0..n {
        nodes[i].write(RNode {
            right: get(s.right[i]),
            left: get(s.left[i]),
            parent: parent[i] | !s.red[i] as usize,
            pair: super::hash::RPair { key: K::make(2 * i as u32 + 1), val: V::make(100 + i as u32) },
        });
    }
    if n > 0 {
        (*r).begin = nodes[0] as usize;
        (*r).end = nodes[n - 1] as usize;
        (*r).root = get(s.root) as usize;
        (*r).size = n as u32;
    }
}

/// The shape and colours of a container's tree, each node in order of descent.
pub unsafe fn code<K: Elem, V: Elem, T: Tree<K, V>>(t: *const T) -> Vec<u64> {
    unsafe fn walk<K, V>(n: *const RNode<K, V>, out: &mut Vec<u64>) {
        if n.is_null() || out.len() > 1000 {
            out.push(0);
            return;
        }
        out.push(1 + ((*n).parent & 1) as u64);
        walk((*n).left, out);
        walk((*n).right, out);
    }
    let mut v = vec![];
    if (*t).len() > 0 {
        walk::<K, V>((*(t as *const RTree)).root as *const _, &mut v);
    }
    v
}
