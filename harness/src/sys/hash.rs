//! `HashMap` and `HashSet`.

use super::{handed, lent, must};
use crate::alloc::{tracked, TestAlloc};
use crate::explore::{op, Op, System};
use crate::rt::{caller_code, cx, op_start};
use crate::tok::*;
use eastl_rs::equals::{EqualTo, Equals};
use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::hash_map::HashMap;
use eastl_rs::hash_set::HashSet;
use eastl_rs::Allocator;
use std::mem::{align_of, size_of};

/// EASTL's prime numbers.
pub const PRIMES: [u32; 257] = [
    2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53,
    59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149,
    157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409,
    439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289,
    1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349,
    4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173,
    16411, 17749, 19183, 20753, 22447, 24281, 26267, 28411, 30727, 33223, 35933, 38873, 42043, 45481, 49201, 53201,
    57557, 62233, 67307, 72817, 78779, 85229, 92203, 99733, 107897, 116731, 126271, 136607, 147793, 159871, 172933, 187091,
    202409, 218971, 236897, 256279, 277261, 299951, 324503, 351061, 379787, 410857, 444487, 480881, 520241, 562841, 608903, 658753,
    712697, 771049, 834181, 902483, 976369, 1056323, 1142821, 1236397, 1337629, 1447153, 1565659, 1693859, 1832561, 1982627, 2144977, 2320627,
    2510653, 2716249, 2938679, 3179303, 3439651, 3721303, 4026031, 4355707, 4712381, 5098259, 5515729, 5967347, 6456007, 6984629, 7556579, 8175383,
    8844859, 9569143, 10352717, 11200489, 12117689, 13109983, 14183539, 15345007, 16601593, 17961079, 19431899, 21023161, 22744717, 24607243, 26622317, 28802401,
    31160981, 33712729, 36473443, 39460231, 42691603, 46187573, 49969847, 54061849, 58488943, 63278561, 68460391, 74066549, 80131819, 86693767, 93793069, 101473717,
    109783337, 118773397, 128499677, 139022417, 150406843, 162723577, 176048909, 190465427, 206062531, 222936881, 241193053, 260944219, 282312799, 305431229, 330442829, 357502601,
    386778277, 418451333, 452718089, 489790921, 529899637, 573292817, 620239453, 671030513, 725980837, 785430967, 849749479, 919334987, 994618837, 1076067617, 1164186217, 1259520799,
    1362662261, 1474249943, 1594975441, 1725587117, 1866894511, 2019773507, 2185171673, 2364114217, 2557710269, 2767159799, 2993761039, 3238918481, 3504151727, 3791104843, 4101556399, 4294967291,
    4294967291,
];

/// A hash function of the harness: the hash of a key from its value.
pub trait HFn<K: Elem>: Hash<K> + 'static {
    const NAME: &'static str;
    fn h(v: u32) -> usize;
}
macro_rules! hfn {
    ($n:ident, $label:expr, |$v:ident| $e:expr) => {
        pub struct $n;
        impl<K: Elem> Hash<K> for $n {
            fn hash(k: &K) -> usize {
                caller_code();
                cx().hash_calls += 1;
                let $v = k.value();
                $e
            }
        }
        impl<K: Elem> HFn<K> for $n {
            const NAME: &'static str = $label;
            fn h($v: u32) -> usize {
                $e
            }
        }
    };
}
hfn!(Ident, "hash: the value", |v| v as usize);
hfn!(Const, "hash: constant", |v| {
    let _ = v;
    7
});
hfn!(Mod2, "hash: value modulo 2", |v| v as usize % 2);
hfn!(Mod3, "hash: value modulo 3", |v| v as usize % 3);
hfn!(High, "hash: value in the high bits", |v| (v as usize) << 59 | 1);
hfn!(Max, "hash: downwards from the largest", |v| usize::MAX - v as usize);
hfn!(Mult, "hash: multiplicative", |v| (v as usize).wrapping_mul(0x9E37_79B9_7F4A_7C15));
hfn!(HalfHash, "hash: value / 2", |v| v as usize / 2);
hfn!(ThirdHash, "hash: value / 3", |v| v as usize / 3);

/// An equality of the harness: two keys are equal when their classes are.
pub trait EFn<K: Elem>: Equals<K> + 'static {
    const NAME: &'static str;
    fn class(v: u32) -> u32;
}
macro_rules! efn {
    ($n:ident, $label:expr, |$v:ident| $e:expr) => {
        pub struct $n;
        impl<K: Elem> Equals<K> for $n {
            fn equals(a: &K, b: &K) -> bool {
                caller_code();
                <Self as EFn<K>>::class(a.value()) == <Self as EFn<K>>::class(b.value())
            }
        }
        impl<K: Elem> EFn<K> for $n {
            const NAME: &'static str = $label;
            fn class($v: u32) -> u32 {
                $e
            }
        }
    };
}
efn!(Same, "equality of values", |v| v);
efn!(HalfEq, "equality of value / 2", |v| v / 2);
efn!(ThirdEq, "equality of value / 3", |v| v / 3);

macro_rules! default_hash {
    ($($t:ty),*) => {$(
        impl Hash<$t> for DefaultHash<$t> {
            fn hash(k: &$t) -> usize {
                caller_code();
                k.value() as usize
            }
        }
        impl HFn<$t> for DefaultHash<$t> {
            const NAME: &'static str = "default hash";
            fn h(v: u32) -> usize {
                v as usize
            }
        }
        impl EFn<$t> for EqualTo<$t> {
            const NAME: &'static str = "default equality";
            fn class(v: u32) -> u32 {
                v
            }
        }
    )*};
}
default_hash!(T4, T8, T12, T24, A16, P1, P4, P16);

/// EASTL's growth policy: the new bucket count, if any, and the next threshold.
pub fn policy(mut bc: u32, count: u32, next: &mut u32, mlf: f32, growth: f32) -> Option<u32> {
    if count + 1 <= *next {
        return None;
    }
    if bc == 1 {
        bc = 0;
    }
    let mut min = (count + 1) as f32 / mlf;
    if min > bc as f32 {
        min = min.max(growth * bc as f32);
        let want = min as u32;
        let p = PRIMES.iter().copied().find(|&p| p >= want).unwrap_or(u32::MAX);
        *next = (p as f32 * mlf).ceil() as u32;
        Some(p)
    } else {
        *next = (bc as f32 * mlf).ceil() as u32;
        None
    }
}

/// `eastl::pair`
#[repr(C)]
pub struct RPair<K, V> {
    pub key: K,
    pub val: V,
}
#[repr(C)]
pub struct RNode<K, V> {
    p: RPair<K, V>,
    next: *const RNode<K, V>,
}
/// The fields of a hash table as C++ sees them.
#[repr(C)]
#[derive(Clone, Copy)]
pub struct RTable {
    _pad: usize,
    pub buckets: *mut usize,
    pub count: u32,
    pub len: u32,
    pub mlf: f32,
    pub growth: f32,
    pub next_resize: u32,
}
pub const END: usize = !0;

impl RTable {
    pub unsafe fn of<T>(t: &T) -> RTable {
        std::ptr::read(t as *const T as *const RTable)
    }
    pub unsafe fn mut_of<T>(t: &mut T) -> &mut RTable {
        &mut *(t as *mut T as *mut RTable)
    }
    unsafe fn bucket(&self, i: usize) -> usize {
        *self.buckets.add(i)
    }
}

/// The entries as EASTL's own `begin()`, `++` and `end()` visit them, from `(node, bucket)`.
unsafe fn walk<K, V>(t: &RTable, mut node: usize, mut bucket: usize, limit: usize) -> Result<Vec<usize>, String> {
    let end = t.buckets.add(t.count as usize) as usize;
    let lo = t.buckets as usize;
    let mut v = vec![];
    while node != END {
        if v.len() > limit {
            return Err("EASTL's iteration does not end".into());
        }
        if cx().live_block_at(node).is_none() {
            return Err(format!("EASTL's iteration meets a node that is no live block after {} entries", v.len()));
        }
        v.push(node);
        node = (*(node as *const RNode<K, V>)).next as usize;
        while node == 0 {
            bucket += 8;
            if bucket < lo || bucket > end {
                return Err("EASTL's iteration leaves the bucket array".into());
            }
            node = *(bucket as *const usize);
        }
    }
    if bucket != end {
        return Err("EASTL's iteration ends elsewhere than at the sentinel".into());
    }
    Ok(v)
}

/// EASTL's `begin()`.
unsafe fn begin(t: &RTable) -> (usize, usize) {
    let mut b = t.buckets as usize;
    let mut n = *(b as *const usize);
    while n == 0 {
        b += 8;
        n = *(b as *const usize);
    }
    (n, b)
}

/// What the reference knows of a hash table.
pub struct HModel {
    pub items: Vec<(It, It)>,
    /// where in `items` the key of a class is
    idx: std::collections::BTreeMap<u32, usize>,
    pub buckets: u32,
    pub next_resize: u32,
    /// the load and growth factors
    pub factors: (f32, f32),
    /// nothing was done to it yet, and the first operation is to adopt what C++ made
    new: bool,
    /// C++ made it, so that its load is C++'s choice
    adopted: bool,
    class: fn(u32) -> u32,
    hash: fn(u32) -> usize,
    next: u32,
    /// storage may be the shared one-bucket array
    pub owner: u32,
}

impl HModel {
    fn more_key(&self, out: &mut Vec<u8>) {
        out.push(self.new as u8);
        out.extend(self.factors.0.to_le_bytes());
        out.extend(self.factors.1.to_le_bytes());
    }
    fn find(&self, k: u32) -> Option<usize> {
        self.idx.get(&(self.class)(k)).copied()
    }
    fn take(&mut self, i: usize) -> (It, It) {
        let got = self.items.swap_remove(i);
        self.idx.remove(&(self.class)(got.0.val));
        if let Some((k, _)) = self.items.get(i) {
            self.idx.insert((self.class)(k.val), i);
        }
        got
    }
    fn clear(&mut self) {
        self.items.clear();
        self.idx.clear();
    }
    /// Which entry a key that a container shows is: the very same one, if its type can tell.
    fn shown<K: Elem>(&self, k: &K) -> Option<usize> {
        self.find(k.value()).filter(|&i| k.is(&self.items[i].0))
    }
    fn grow(&mut self) {
        if let Some(b) = policy(self.buckets, self.items.len() as u32, &mut self.next_resize, self.factors.0, self.factors.1) {
            self.buckets = b;
        }
    }
    fn insert(&mut self, k: It, v: It) -> Option<It> {
        match self.find(k.val) {
            Some(i) => Some(std::mem::replace(&mut self.items[i].1, v)),
            None => {
                self.grow();
                self.idx.insert((self.class)(k.val), self.items.len());
                self.items.push((k, v));
                None
            }
        }
    }
    fn fresh<V: Elem>(&mut self) -> (V, It) {
        self.next += 1;
        V::mk(self.next)
    }
}

/// Decodes the raw table. `val`: whether values are compared.
unsafe fn decode<K: Elem, V>(t: &RTable, m: &mut HModel, vals: Option<fn(&V, &It) -> bool>) {
    let n = m.items.len();
    check!(t.len as usize == n, Layout, "the element count in memory is {} instead of {n}", t.len);
    check!(t.count == m.buckets, Buckets, "{} buckets for {n} entries, EASTL's policy says {}", t.count, m.buckets);
    check!(t.next_resize == m.next_resize, Buckets, "next resize at {}, EASTL's policy says {}", t.next_resize, m.next_resize);
    check!((t.mlf, t.growth) == m.factors, Buckets, "load factor {} and growth factor {} instead of {:?}", t.mlf, t.growth, m.factors);
    if t.buckets.is_null() {
        bad!(Buckets, "null bucket array");
        return;
    }
    let blk = cx().live_block_at(t.buckets as usize);
    if t.count == 1 {
        check!(blk.is_none(), Buckets, "an unallocated table has a block for its buckets");
        check!(n == 0, Buckets, "entries in the shared empty bucket array");
        check!(t.bucket(0) == 0 && t.bucket(1) == END, Buckets, "the shared empty bucket array is [{:#x}, {:#x}]", t.bucket(0), t.bucket(1));
        return;
    }
    let Some(blk) = blk else {
        bad!(Layout, "the bucket array is no live block");
        return;
    };
    check!(
        blk.size == (t.count as usize + 1) * 8 && blk.align == 8,
        Buckets,
        "the bucket array is a block of {} bytes for {} buckets and the sentinel",
        blk.size,
        t.count
    );
    if blk.size < (t.count as usize + 1) * 8 {
        return;
    }
    check!(t.bucket(t.count as usize) == END, Buckets, "the bucket array ends in {:#x} instead of the sentinel", t.bucket(t.count as usize));
    check!(n as u32 <= t.count || m.adopted, Buckets, "{n} entries in {} buckets exceed the load factor", t.count);
    let mut seen = 0;
    let mut hit = vec![false; n];
    for i in 0..t.count as usize {
        let mut p = t.bucket(i);
        while p != 0 {
            let Some(nb) = cx().live_block_at(p) else {
                bad!(Layout, "bucket {i} chains to something that is no live block");
                return;
            };
            check!(
                nb.size == size_of::<RNode<K, V>>() && nb.align == align_of::<RNode<K, V>>() && nb.owner == m.owner,
                Layout,
                "a node is a block of {} bytes aligned {}",
                nb.size,
                nb.align
            );
            let node = &*(p as *const RNode<K, V>);
            seen += 1;
            if seen > n {
                bad!(Layout, "more nodes chained than the {n} entries");
                return;
            }
            let found = m.shown(&node.p.key);
            match found {
                Some(j) if !hit[j] => {
                    hit[j] = true;
                    check!((m.hash)(m.items[j].0.val) % t.count as usize == i, Buckets, "the key {} sits in bucket {i} of {}", m.items[j].0.val, t.count);
                    if let Some(f) = vals {
                        check!(f(&node.p.val, &m.items[j].1), Layout, "the node of key {} holds another value", m.items[j].0.val);
                    }
                }
                Some(j) => bad!(Buckets, "the key {} is in the table twice", m.items[j].0.val),
                None => bad!(Layout, "a node holds a key that is not in the table"),
            }
            p = node.next as usize;
        }
    }
    check!(seen == n, Layout, "{seen} nodes chained for {n} entries");
}

pub unsafe fn chain_key<K: Elem, V>(t: &RTable, out: &mut Vec<u8>) {
    out.extend(t.count.to_le_bytes());
    out.extend(t.next_resize.to_le_bytes());
    if t.count == 1 {
        return;
    }
    let mut steps = 0;
    for i in 0..t.count as usize {
        let mut p = t.bucket(i);
        while p != 0 && steps <= t.len && cx().live_block_at(p).is_some() {
            let node = &*(p as *const RNode<K, V>);
            out.extend(node.p.key.value().to_le_bytes());
            p = node.next as usize;
            steps += 1;
        }
        out.push(0xFF);
    }
}

pub const INSERT: u32 = 1;
pub const REMOVE: u32 = 2;
pub const REMOVE_ENTRY: u32 = 3;
pub const GET_MUT: u32 = 4;
pub const ENTRY: u32 = 5;
pub const CLEAR: u32 = 6;
pub const WRITE_ALL: u32 = 7;
pub const REBUILD: u32 = 8;
/// insert `a` keys, `0, b, 2b, ...` modulo the universe
pub const FILL: u32 = 9;
/// remove `a` keys in the same order
pub const DRAIN: u32 = 10;
/// insert a new key `a` apart from the universe and remove another one
pub const SLIDE: u32 = 11;
/// the (empty, new) table becomes one that C++ might have made
pub const ADOPT: u32 = 12;

/// Bucket counts of tables made by C++: EASTL's `rehash` takes any, not only primes.
const ADOPT_COUNTS: [u32; 10] = [1, 2, 3, 4, 5, 6, 7, 8, 11, 23];
const ADOPT_FACTORS: [(f32, f32); 5] = [(1.0, 2.0), (0.5, 2.0), (2.0, 1.5), (4.0, 1.25), (0.75, 3.0)];
/// The shared empty array of the C++ side: EASTL has its own, at another address.
static CPP_EMPTY: [usize; 2] = [0, END];

fn shapes(m: &HModel, lim: HLim, out: &mut Vec<Op>) {
    let all = 1u32 << lim.u;
    for (i, &c) in ADOPT_COUNTS.iter().enumerate() {
        for f in 0..ADOPT_FACTORS.len() as u32 {
            for next in 0..3 {
                for keys in 0..if c == 1 { 1 } else { all } {
                    // one key of each class
                    let ks: Vec<u32> = (0..lim.u).filter(|k| keys >> k & 1 == 1).map(m.class).collect();
                    if (1..ks.len()).any(|i| ks[..i].contains(&ks[i])) {
                        continue;
                    }
                    for order in 0..if ks.len() > 1 { 2 } else { 1 } {
                        out.push(op(ADOPT, i as u32 | f << 8 | next << 16, keys | order << 16));
                    }
                }
            }
        }
    }
}

/// Gives a new table (whose storage is the shared empty array) the representation `o`.
unsafe fn adopt<T, K: Elem, V, A: TestAlloc>(t: &mut T, o: Op, id: u32, m: &mut HModel, mut value: impl FnMut(&mut HModel) -> (V, It)) {
    let c = ADOPT_COUNTS[o.a as usize & 0xFF];
    m.adopted = true;
    m.factors = ADOPT_FACTORS[o.a as usize >> 8 & 0xFF];
    let full = (c as f32 * m.factors.0).ceil() as u32;
    let keys: Vec<u32> = (0..16).filter(|k| o.b >> k & 1 == 1).collect();
    m.next_resize = if c == 1 { 0 } else { [0, full, keys.len() as u32][o.a as usize >> 16] };
    m.buckets = c;
    let r = RTable::mut_of(t);
    (r.count, r.len, r.next_resize) = (c, keys.len() as u32, m.next_resize);
    (r.mlf, r.growth) = m.factors;
    if c == 1 {
        r.buckets = CPP_EMPTY.as_ptr() as *mut usize;
        return;
    }
    let mut a = A::make(id);
    let b = tracked(A::GLOBAL, || a.allocate::<usize>(c as usize + 1));
    std::slice::from_raw_parts_mut(b, c as usize).fill(0);
    b.add(c as usize).write(END);
    r.buckets = b;
    for k in keys {
        let (key, ki) = K::mk(k);
        let (val, vi) = value(m);
        let node = tracked(A::GLOBAL, || a.allocate::<RNode<K, V>>(1));
        let mut at = b.add((m.hash)(ki.val) % c as usize);
        if o.b >> 16 == 1 {
            // at the end of its chain
            while *at != 0 {
                at = std::ptr::addr_of_mut!((*(*at as *mut RNode<K, V>)).next) as *mut usize;
            }
        }
        node.write(RNode { p: RPair { key, val }, next: *at as *const RNode<K, V> });
        at.write(node as usize);
        m.idx.insert((m.class)(ki.val), m.items.len());
        m.items.push((ki, vi));
    }
}

#[derive(Clone, Copy)]
pub struct HLim {
    /// keys `0..u`
    pub u: u32,
    /// at most this many entries
    pub len: usize,
    /// iterator conversions after every number of consumed entries
    pub iters: bool,
}

const SRC: [&[u32]; 5] = [&[], &[2], &[0, 1, 2], &[3, 3, 1], &[4, 1, 4, 2, 0, 3]];
/// The keys a table is rebuilt from.
fn src_keys(b: u32, u: u32) -> Vec<u32> {
    match SRC.get(b as usize) {
        Some(s) => s.to_vec(),
        None => (0..b).map(|i| i * 37 % u.min(b * 3 / 4 + 1)).collect(),
    }
}
const ENTRY_MODES: [&str; 6] = ["or_insert", "or_insert_with", "and_modify, or_insert", "dropped", "and_modify", "and_modify, or_insert_with"];

fn show_op(o: Op) -> String {
    match o.c {
        INSERT => format!("insert key {}", o.a),
        REMOVE => format!("remove key {}", o.a),
        REMOVE_ENTRY => format!("remove_entry key {}", o.a),
        GET_MUT => format!("get_mut key {}, replacing the value", o.a),
        ENTRY => format!("entry of key {}: {}", o.a, ENTRY_MODES[o.b as usize % 6]),
        CLEAR => "clear".into(),
        WRITE_ALL => "replace every value through iter_mut".into(),
        REBUILD if o.b >= SRC.len() as u32 => format!("replace by from_iter of {} keys, some twice", o.b),
        REBUILD => format!("replace by {} of keys {:?}", ["new", "default", "from_iter"][o.a as usize % 3], SRC[o.b as usize % SRC.len()]),
        FILL => format!("insert {} keys in steps of {}", o.a, o.b),
        DRAIN => format!("remove {} keys in steps of {}", o.a, o.b),
        SLIDE => format!("{} times: insert a further key, remove another", o.a),
        ADOPT => {
            let (mlf, growth) = ADOPT_FACTORS[o.a as usize >> 8 & 0xFF];
            let next = ["0", "where the load factor is reached", "where it stands"][o.a as usize >> 16];
            format!(
                "as C++ may hand it over: {} buckets, keys {:?} chained {}, load factor {mlf}, growth {growth}, next resize {next}",
                ADOPT_COUNTS[o.a as usize & 0xFF],
                (0..16).filter(|k| o.b >> k & 1 == 1).collect::<Vec<u32>>(),
                if o.b >> 16 == 1 { "in order" } else { "in reverse" }
            )
        }
        _ => "-".into(),
    }
}

fn hops(m: &HModel, lim: HLim, lvl: u8, map: bool, ctors: bool, out: &mut Vec<Op>) {
    if m.new {
        return shapes(m, lim, out);
    }
    let room = m.items.len() < lim.len;
    if lvl == 3 {
        // the first key found, the last one, one in between, and some that are absent
        let n = m.items.len();
        let mut keys: Vec<u32> = [0, 1, n / 2, n.wrapping_sub(1)].iter().filter_map(|i| m.items.get(*i)).map(|k| k.0.val).collect();
        let absent: Vec<u32> = (0..lim.u).chain(lim.u + 5_000_000..).filter(|k| m.find(*k).is_none()).take(3).collect();
        keys.extend(absent);
        keys.dedup();
        for k in keys {
            out.push(op(INSERT, k, 0));
            out.push(op(REMOVE, k, 0));
            if map {
                out.push(op(REMOVE_ENTRY, k, 0));
                out.push(op(GET_MUT, k, 0));
                for mode in 0..6 {
                    out.push(op(ENTRY, k, mode));
                }
            }
        }
        out.push(op(CLEAR, 0, 0));
        out.push(op(DRAIN, n as u32 / 2, 1));
        out.push(op(DRAIN, lim.u, 1));
        out.push(op(SLIDE, 2 * n as u32 + 7, 0));
        out.push(op(FILL, 100, 3));
        if map {
            out.push(op(WRITE_ALL, 0, 0));
        }
        if ctors {
            out.push(op(REBUILD, 2, n as u32 + 6));
        }
        return;
    }
    let keys: Vec<u32> = if lvl == 1 && lim.u > 4 { (0..lim.u).step_by(lim.u as usize / 4).collect() } else { (0..lim.u).collect() };
    for &k in &keys {
        let hit = m.find(k).is_some();
        if hit || room {
            out.push(op(INSERT, k, 0));
        }
        if map {
            out.push(op(REMOVE_ENTRY, k, 0));
        } else {
            out.push(op(REMOVE, k, 0));
        }
        if lvl == 1 {
            continue;
        }
        if map {
            out.push(op(REMOVE, k, 0));
            out.push(op(GET_MUT, k, 0));
            for mode in 0..6 {
                if hit || room || mode == 3 || mode == 4 {
                    out.push(op(ENTRY, k, mode));
                }
            }
        }
    }
    out.push(op(CLEAR, 0, 0));
    if map && lvl == 0 {
        out.push(op(WRITE_ALL, 0, 0));
    }
    if ctors && lvl == 0 {
        out.push(op(REBUILD, 0, 0));
        out.push(op(REBUILD, 1, 0));
        for (j, s) in SRC.iter().enumerate() {
            if s.len() <= lim.len && s.iter().all(|&k| k < lim.u) {
                out.push(op(REBUILD, 2, j as u32));
            }
        }
    }
}

pub struct MCtors<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> {
    new: fn() -> HashMap<K, V, A, H, E>,
    default: fn() -> HashMap<K, V, A, H, E>,
    from_iter: fn(&mut Vec<Option<(K, V)>>) -> HashMap<K, V, A, H, E>,
}

pub struct MapSys<K: Elem + PartialEq, V: Elem, A: TestAlloc, H: HFn<K>, E: EFn<K>> {
    t: HashMap<K, V, A, H, E>,
    m: HModel,
    lim: HLim,
    ctors: Option<MCtors<K, V, A, H, E>>,
}

fn hmodel(class: fn(u32) -> u32, hash: fn(u32) -> usize, owner: u32) -> HModel {
    HModel { items: vec![], idx: Default::default(), buckets: 1, next_resize: 0, factors: (1.0, 2.0), new: false, adopted: false, class, hash, next: 1000, owner }
}

impl<K: Elem + PartialEq, V: Elem, A: TestAlloc, H: HFn<K>, E: EFn<K>> MapSys<K, V, A, H, E> {
    pub fn new(lim: HLim) -> Box<dyn System> {
        let owner = if A::GLOBAL { 0xD0 } else { 5 };
        Box::new(MapSys { t: unsafe { HashMap::<K, V, A, H, E>::new_in(A::make(5)) }, m: hmodel(E::class, H::h, owner), lim, ctors: None })
    }
    /// starts from what C++ may hand over
    pub fn adopting(lim: HLim) -> Box<dyn System> {
        let owner = if A::GLOBAL { 0xD0 } else { 5 };
        Box::new(MapSys {
            t: unsafe { HashMap::<K, V, A, H, E>::new_in(A::make(5)) },
            m: HModel { new: true, ..hmodel(E::class, H::h, owner) },
            lim,
            ctors: None,
        })
    }
    pub fn name() -> String {
        format!("HashMap of {} to {}, {}, {}, {}", K::NAME, V::NAME, H::NAME, E::NAME, A::NAME)
    }

    fn full(&mut self) {
        let n = self.m.items.len();
        let m = &mut self.m;
        check!(self.t.len() == n, Semantic, "len is {} instead of {n}", self.t.len());
        check!(self.t.is_empty() == (n == 0), Semantic, "is_empty is {} with {n} entries", self.t.is_empty());
        let probes: Vec<u32> = if self.lim.u <= 40 { (0..self.lim.u + 3).collect() } else { (0..self.lim.u + 3).step_by(5.max(self.lim.u as usize / 300)).collect() };
        for p in probes {
            let k = K::make(p);
            let i = m.find(k.value());
            lent("get", self.t.get(&k), i.map(|i| &mut m.items[i].1));
            check!(self.t.contains_key(&k) == i.is_some(), Semantic, "contains_key({p}) is {}", i.is_none());
            if lvl_small(n) {
                lent("get_mut", self.t.get_mut(&k).map(|v| &*v), i.map(|i| &mut m.items[i].1));
            }
        }
        let t = unsafe { RTable::of(&self.t) };
        unsafe { decode::<K, V>(&t, m, Some(|v, it| v.is(it))) };
        self.iterate(t);
        if n <= 4 {
            let want = format!("{{{}}}", self.t.iter().map(|(k, v)| format!("{k:?}: {v:?}")).collect::<Vec<_>>().join(","));
            let got = format!("{:?}", self.t);
            check!(got == want, Semantic, "Debug prints {got} instead of {want}");
        }
    }

    fn iterate(&mut self, t: RTable) {
        let m = &mut self.m;
        let n = m.items.len();
        let mut order: Vec<usize> = vec![];
        {
            let mut it = self.t.iter();
            let mut seen = vec![false; n];
            for step in 0..n {
                match it.next() {
                    None => {
                        bad!(Iter, "iteration ends after {step} of {n} entries");
                        return;
                    }
                    Some((k, v)) => match m.shown(k).filter(|&j| v.is(&m.items[j].1)) {
                        Some(j) if !seen[j] => {
                            seen[j] = true;
                            order.push(k as *const K as usize);
                        }
                        Some(j) => bad!(Iter, "iteration yields the key {} twice", m.items[j].0.val),
                        None => {
                            bad!(Iter, "iteration yields an entry that is not in the map");
                            return;
                        }
                    },
                }
            }
            for _ in 0..3 {
                check!(it.next().is_none(), Iter, "iteration goes on after {n} entries");
            }
        }
        let mut c = 0;
        for (k, v) in self.t.iter_mut() {
            if c >= n || k as *const K as usize != order[c] || !m.shown(k).is_some_and(|j| v.is(&m.items[j].1)) {
                bad!(Iter, "iter_mut differs from iter at entry {c}");
                break;
            }
            c += 1;
        }
        check!(c == n, Iter, "iter_mut yields {c} of {n} entries");
        if self.lim.iters || n <= 3 {
            super::inherited("iter()", &order, &mut || self.t.iter(), &|(k, _)| k as *const K as usize);
            let t = &mut self.t as *mut HashMap<K, V, A, H, E>;
            super::inherited("iter_mut()", &order, &mut || unsafe { (*t).iter_mut() }, &|(k, _)| k as *const K as usize);
        }
        let at: Vec<usize> = if self.lim.iters || n <= 2 { (0..=n).collect() } else { vec![0, n / 2, n] };
        for p in at {
            unsafe { self.convert(&t, p, &order) };
        }
        unsafe {
            // the pairs EASTL itself makes
            let (bn, bb) = begin(&t);
            let end = (END, t.buckets.add(t.count as usize) as usize);
            let mut it = <eastl_rs::hash_map::iter::Iter<K, V>>::from_compat(std::mem::transmute((bn, bb)), std::mem::transmute(end));
            let got: Vec<usize> = it.by_ref().take(n + 1).map(|(k, _)| k as *const K as usize).collect();
            check!(got == order, Compat, "from EASTL's begin() and end(), {} entries are yielded instead of the {n} in order", got.len());
            if got.len() <= n {
                check!(it.next().is_none(), Compat, "an iterator made from EASTL's pair goes on after its end");
            }
            let mut it = <eastl_rs::hash_map::iter::IterMut<K, V>>::from_compat(std::mem::transmute((bn, bb)), std::mem::transmute(end));
            let got: Vec<usize> = it.by_ref().take(n + 1).map(|(k, _)| k as *const K as usize).collect();
            check!(got == order, Compat, "IterMut from EASTL's begin() and end() yields {} entries instead of the {n} in order", got.len());
            let it = <eastl_rs::hash_map::iter::Iter<K, V>>::from_compat(std::mem::transmute(end), std::mem::transmute(end));
            check!(it.count() == 0, Compat, "an iterator made from EASTL's end() twice yields something");
            // every pair EASTL's own iteration passes through
            if self.lim.iters {
                let (mut node, mut b) = (bn, bb);
                for j in 0..=n {
                    let it = <eastl_rs::hash_map::iter::Iter<K, V>>::from_compat(std::mem::transmute((node, b)), std::mem::transmute(end));
                    let got: Vec<usize> = it.take(n + 1).map(|(k, _)| k as *const K as usize).collect();
                    check!(got == order[j.min(n)..], Compat, "from EASTL's iterator after {j} steps, {} entries are yielded instead of {}", got.len(), n - j);
                    if node == END {
                        break;
                    }
                    node = (*(node as *const RNode<K, V>)).next as usize;
                    while node == 0 {
                        b += 8;
                        node = *(b as *const usize);
                    }
                }
            }
        }
    }

    /// After `p` entries: clone, the binary pair, and back.
    unsafe fn convert(&mut self, t: &RTable, p: usize, order: &[usize]) {
        let n = order.len();
        let rest = &order[p..];
        let mut it = self.t.iter();
        for _ in 0..p {
            it.next();
        }
        let got: Vec<usize> = it.clone().take(n + 1).map(|(k, _)| k as *const K as usize).collect();
        check!(got == rest, Iter, "after {p} of {n} entries, a clone of the iterator yields {} instead of {}", got.len(), rest.len());
        let mut a = it.clone();
        a.next();
        check!(it.clone().take(n + 1).count() == rest.len(), Iter, "advancing a clone advances the original");
        let (b, e) = it.into_compat();
        let (bn, bb): (usize, usize) = std::mem::transmute(b);
        let (en, eb): (usize, usize) = std::mem::transmute(e);
        check!(
            en == END && eb == t.buckets.add(t.count as usize) as usize,
            Compat,
            "after {p} of {n} entries, the end of the pair is not EASTL's end()"
        );
        if bb < t.buckets as usize || bb > t.buckets.add(t.count as usize) as usize {
            bad!(Compat, "after {p} of {n} entries, the begin of the pair points outside the bucket array");
            return;
        }
        if !(bn == END && rest.is_empty()) && cx().live_block_at(bn).is_none() {
            bad!(Compat, "after {p} of {n} entries, the begin of the pair points to no node");
            return;
        }
        match walk::<K, V>(t, bn, bb, n) {
            Err(m) => bad!(Compat, "after {p} of {n} entries: {m}"),
            Ok(w) => check!(w == rest, Compat, "after {p} of {n} entries, EASTL sees {} entries in the pair instead of {}", w.len(), rest.len()),
        }
        // and back
        let it = <eastl_rs::hash_map::iter::Iter<K, V>>::from_compat(std::mem::transmute((bn, bb)), std::mem::transmute((en, eb)));
        let got: Vec<usize> = it.take(n + 1).map(|(k, _)| k as *const K as usize).collect();
        check!(got == rest, Compat, "after {p} of {n} entries, the pair converted back yields {} entries instead of {}", got.len(), rest.len());
        // mutable iterators
        for mode in 0..2 {
            let mut it = self.t.iter_mut();
            for _ in 0..p {
                it.next();
            }
            if mode == 0 {
                let (b, e) = it.into_compat_mut();
                let (b, e): ((usize, usize), (usize, usize)) = (std::mem::transmute(b), std::mem::transmute(e));
                check!((bn, bb, en, eb) == (b.0, b.1, e.0, e.1), Compat, "after {p} of {n} entries, into_compat_mut differs from into_compat");
                let it = <eastl_rs::hash_map::iter::Iter<K, V>>::from_compat_mut(std::mem::transmute(b), std::mem::transmute(e));
                let got: Vec<usize> = it.take(n + 1).map(|(k, _)| k as *const K as usize).collect();
                check!(got == rest, Compat, "after {p} of {n} entries, from_compat_mut yields {} entries instead of {}", got.len(), rest.len());
            } else {
                let (b, e) = it.into_compat();
                let it = <eastl_rs::hash_map::iter::IterMut<K, V>>::from_compat(b, e);
                let got: Vec<usize> = it.take(n + 1).map(|(k, _)| k as *const K as usize).collect();
                check!(got == rest, Compat, "after {p} of {n} entries, a mutable iterator converted forth and back yields {} entries instead of {}", got.len(), rest.len());
            }
        }
    }
}

fn lvl_small(n: usize) -> bool {
    n <= 16
}

macro_rules! building {
    ($($k:ty),*) => {$(
        impl<V: Elem, A: TestAlloc> MapSys<$k, V, A, DefaultHash<$k>, EqualTo<$k>> {
            /// with the constructors that only the default functions have
            pub fn building(lim: HLim) -> Box<dyn System> {
                Box::new(MapSys {
                    t: HashMap::<$k, V, A>::new(),
                    m: hmodel(|v| v, |v| v as usize, if A::GLOBAL { 0xD0 } else { 0 }),
                    lim,
                    ctors: Some(MCtors { new: HashMap::new, default: Default::default, from_iter: |v| v.iter_mut().map(|x| x.take().unwrap()).collect() }),
                })
            }
        }
        impl<A: TestAlloc> SetSys<$k, A, DefaultHash<$k>, EqualTo<$k>> {
            pub fn building(lim: HLim) -> Box<dyn System> {
                Box::new(SetSys {
                    t: HashSet::<$k, A>::new(),
                    m: hmodel(|v| v, |v| v as usize, if A::GLOBAL { 0xD0 } else { 0 }),
                    lim,
                    ctors: Some(SCtors { new: HashSet::new, default: Default::default, from_iter: |v| v.iter_mut().map(|x| x.take().unwrap()).collect() }),
                })
            }
        }
    )*};
}
building!(T4, T8, T12, A16, P1, P4, P16);

impl<K: Elem + PartialEq, V: Elem, A: TestAlloc, H: HFn<K>, E: EFn<K>> System for MapSys<K, V, A, H, E> {
    fn ops(&self, lvl: u8, out: &mut Vec<Op>) {
        hops(&self.m, self.lim, lvl, true, self.ctors.is_some(), out);
    }

    fn step(&mut self, o: Op, full: bool) {
        let g = A::GLOBAL;
        op_start();
        self.m.new = false;
        match o.c {
            ADOPT => unsafe { adopt::<_, K, V, A>(&mut self.t, o, 5, &mut self.m, |m| m.fresh::<V>()) },
            INSERT => {
                let (k, ki) = K::mk(o.a);
                let (v, vi) = self.m.fresh::<V>();
                let got = must("insert", || tracked(g, || self.t.insert(k, v)));
                let want = self.m.insert(ki, vi);
                handed("insert", got.flatten(), want);
            }
            REMOVE | REMOVE_ENTRY => {
                let k = K::make(o.a);
                let want = self.m.find(k.value()).map(|i| self.m.take(i));
                if o.c == REMOVE {
                    let got = must("remove", || tracked(g, || self.t.remove(&k)));
                    handed("remove", got.flatten(), want.map(|w| w.1));
                } else {
                    let (a, b) = must("remove_entry", || tracked(g, || self.t.remove_entry(&k))).flatten().map_or((None, None), |(a, b)| (Some(a), Some(b)));
                    handed("remove_entry (key)", a, want.map(|w| w.0));
                    handed("remove_entry (value)", b, want.map(|w| w.1));
                }
            }
            GET_MUT => {
                let k = K::make(o.a);
                let (v, vi) = self.m.fresh::<V>();
                let old = self.t.get_mut(&k).map(|s| std::mem::replace(s, v));
                let want = self.m.find(k.value()).map(|i| std::mem::replace(&mut self.m.items[i].1, vi));
                handed("get_mut", old, want);
            }
            ENTRY => {
                let (k, ki) = K::mk(o.a);
                let hit = self.m.find(ki.val);
                let (v, vi) = self.m.fresh::<V>();
                let (v2, vi2) = self.m.fresh::<V>();
                let made = std::cell::Cell::new(0);
                let modified = std::cell::Cell::new(0);
                let m = &mut self.m;
                let t = &mut self.t;
                let modify = std::cell::RefCell::new(Some(v2));
                let old = std::cell::RefCell::new(None);
                let write = |s: &mut V| {
                    modified.set(modified.get() + 1);
                    if let Some(v2) = modify.borrow_mut().take() {
                        *old.borrow_mut() = Some(std::mem::replace(s, v2));
                    }
                };
                let mk = || {
                    made.set(made.get() + 1);
                    v
                };
                let shown: Option<&mut V> = match o.b {
                    0 => {
                        let v = mk();
                        must("entry.or_insert", || tracked(g, || t.entry(k).or_insert(v)))
                    }
                    1 => must("entry.or_insert_with", || tracked(g, || t.entry(k).or_insert_with(mk))),
                    2 => {
                        let v = mk();
                        must("entry.and_modify.or_insert", || tracked(g, || t.entry(k).and_modify(write).or_insert(v)))
                    }
                    5 => must("entry.and_modify.or_insert_with", || tracked(g, || t.entry(k).and_modify(write).or_insert_with(mk))),
                    4 => {
                        must("entry.and_modify", || tracked(g, || drop(t.entry(k).and_modify(write))));
                        None
                    }
                    _ => {
                        must("entry", || tracked(g, || drop(t.entry(k))));
                        None
                    }
                };
                let modifies = matches!(o.b, 2 | 4 | 5) && hit.is_some();
                check!(modified.get() == modifies as u32, Semantic, "and_modify ran its closure {} times on {} entry", modified.get(), if hit.is_some() { "an occupied" } else { "a vacant" });
                if matches!(o.b, 1 | 5) {
                    check!(made.get() == hit.is_none() as u32, Semantic, "or_insert_with ran its closure {} times on {} entry", made.get(), if hit.is_some() { "an occupied" } else { "a vacant" });
                }
                let mut want_old = None;
                match hit {
                    Some(i) => {
                        if modifies {
                            want_old = Some(std::mem::replace(&mut m.items[i].1, vi2));
                        }
                        if let Some(s) = shown {
                            lent("or_insert on an occupied entry", Some(&*s), Some(&mut m.items[i].1));
                        }
                    }
                    None if !matches!(o.b, 3 | 4) => {
                        m.insert(ki, vi);
                        if let Some(s) = shown {
                            lent("or_insert on a vacant entry", Some(&*s), Some(&mut vi.clone()));
                        }
                    }
                    None => {}
                }
                handed("and_modify", old.into_inner(), want_old);
            }
            CLEAR => {
                must("clear", || tracked(g, || self.t.clear()));
                self.m.clear();
            }
            WRITE_ALL => {
                let mut c = 0;
                for (k, v) in self.t.iter_mut() {
                    c += 1;
                    let Some(i) = self.m.shown(k) else {
                        bad!(Iter, "iter_mut yields a key that is not in the map");
                        return;
                    };
                    self.m.next += 1;
                    let (n, ni) = V::mk(self.m.next);
                    let old = std::mem::replace(v, n);
                    let want = std::mem::replace(&mut self.m.items[i].1, ni);
                    handed("iter_mut", Some(old), Some(want));
                }
                check!(c == self.m.items.len(), Iter, "iter_mut yields {c} of {} entries", self.m.items.len());
            }
            REBUILD => {
                let f = self.ctors.as_ref().unwrap();
                let mut its = vec![];
                let new = match o.a {
                    0 => must("new", || tracked(A::GLOBAL, f.new)),
                    1 => must("default", || tracked(A::GLOBAL, f.default)),
                    _ => {
                        let mut src = vec![];
                        for k in src_keys(o.b, self.lim.u) {
                            let (k, ki) = K::mk(k);
                            let (v, vi) = self.m.fresh::<V>();
                            src.push(Some((k, v)));
                            its.push((ki, vi));
                        }
                        must("from_iter", || tracked(A::GLOBAL, || (f.from_iter)(&mut src)))
                    }
                };
                let Some(new) = new else { return };
                let old = std::mem::replace(&mut self.t, new);
                tracked(A::GLOBAL, || drop(old));
                self.m.owner = if A::GLOBAL { 0xD0 } else { 0 };
                self.m.clear();
                self.m.buckets = 1;
                self.m.factors = (1.0, 2.0);
                self.m.next_resize = 0;
                for (k, v) in its {
                    self.m.insert(k, v);
                }
            }
            FILL | DRAIN | SLIDE => {
                let mut k = 0;
                for j in 0..o.a {
                    if o.c != DRAIN {
                        let (key, ki) = K::mk(if o.c == SLIDE { self.lim.u + 10 + j } else { k });
                        let (v, vi) = self.m.fresh::<V>();
                        let got = must("insert", || tracked(g, || self.t.insert(key, v)));
                        let want = self.m.insert(ki, vi);
                        handed("insert", got.flatten(), want);
                    }
                    if o.c != FILL {
                        let key = K::make(if o.c == SLIDE && self.m.items.len() > 1 { self.m.items[j as usize % self.m.items.len()].0.val } else { k });
                        let want = self.m.find(key.value()).map(|i| self.m.take(i));
                        let got = must("remove", || tracked(g, || self.t.remove(&key)));
                        handed("remove", got.flatten(), want.map(|w| w.1));
                    }
                    k = (k + o.b) % self.lim.u;
                }
            }
            _ => {}
        }
        if full {
            self.full();
        }
    }

    fn key(&self, out: &mut Vec<u8>) {
        unsafe { chain_key::<K, V>(&RTable::of(&self.t), out) };
        self.m.more_key(out);
    }

    fn end(self: Box<Self>) {
        let t = self.t;
        tracked(A::GLOBAL, || drop(t));
    }

    fn show(&self, o: Op) -> String {
        show_op(o)
    }
}

pub struct SCtors<K: PartialEq, A: Allocator, H: Hash<K>, E: Equals<K>> {
    new: fn() -> HashSet<K, A, H, E>,
    default: fn() -> HashSet<K, A, H, E>,
    from_iter: fn(&mut Vec<Option<K>>) -> HashSet<K, A, H, E>,
}

pub struct SetSys<K: Elem + PartialEq, A: TestAlloc, H: HFn<K>, E: EFn<K>> {
    t: HashSet<K, A, H, E>,
    m: HModel,
    lim: HLim,
    ctors: Option<SCtors<K, A, H, E>>,
}

impl<K: Elem + PartialEq, A: TestAlloc, H: HFn<K>, E: EFn<K>> SetSys<K, A, H, E> {
    pub fn new(lim: HLim) -> Box<dyn System> {
        let owner = if A::GLOBAL { 0xD0 } else { 5 };
        Box::new(SetSys { t: unsafe { HashSet::<K, A, H, E>::new_in(A::make(5)) }, m: hmodel(E::class, H::h, owner), lim, ctors: None })
    }
    /// starts from what C++ may hand over
    pub fn adopting(lim: HLim) -> Box<dyn System> {
        let owner = if A::GLOBAL { 0xD0 } else { 5 };
        Box::new(SetSys {
            t: unsafe { HashSet::<K, A, H, E>::new_in(A::make(5)) },
            m: HModel { new: true, ..hmodel(E::class, H::h, owner) },
            lim,
            ctors: None,
        })
    }
    pub fn name() -> String {
        format!("HashSet of {}, {}, {}, {}", K::NAME, H::NAME, E::NAME, A::NAME)
    }

    fn full(&mut self) {
        let m = &mut self.m;
        let n = m.items.len();
        check!(self.t.len() == n, Semantic, "len is {} instead of {n}", self.t.len());
        check!(self.t.is_empty() == (n == 0), Semantic, "is_empty is {} with {n} keys", self.t.is_empty());
        let probes: Vec<u32> = if self.lim.u <= 40 { (0..self.lim.u + 3).collect() } else { (0..self.lim.u + 3).step_by(5.max(self.lim.u as usize / 300)).collect() };
        for p in probes {
            let k = K::make(p);
            let i = m.find(k.value());
            lent("get", self.t.get(&k), i.map(|i| &mut m.items[i].0));
            check!(self.t.contains_key(&k) == i.is_some(), Semantic, "contains_key({p}) is {}", i.is_none());
        }
        let t = unsafe { RTable::of(&self.t) };
        unsafe { decode::<K, ()>(&t, m, None) };
        let mut order: Vec<usize> = vec![];
        let mut it = self.t.iter();
        let mut seen = vec![false; n];
        for step in 0..n {
            match it.next() {
                None => {
                    bad!(Iter, "iteration ends after {step} of {n} keys");
                    return;
                }
                Some(k) => match m.shown(k) {
                    Some(j) if !seen[j] => {
                        seen[j] = true;
                        order.push(k as *const K as usize);
                    }
                    _ => {
                        bad!(Iter, "iteration yields a key twice or one that is not in the set");
                        return;
                    }
                },
            }
        }
        for _ in 0..3 {
            check!(it.next().is_none(), Iter, "iteration goes on after {n} keys");
        }
        if self.lim.iters || n <= 3 {
            super::inherited("iter()", &order, &mut || self.t.iter(), &|k| k as *const K as usize);
        }
        let at: Vec<usize> = if self.lim.iters || n <= 2 { (0..=n).collect() } else { vec![0, n / 2, n] };
        let end = unsafe { (END, t.buckets.add(t.count as usize) as usize) };
        for p in at {
            let mut it = self.t.iter();
            for _ in 0..p {
                it.next();
            }
            let rest = &order[p..];
            let (b, e) = it.into_compat();
            unsafe {
                let b: (usize, usize) = std::mem::transmute(b);
                let e: (usize, usize) = std::mem::transmute(e);
                check!(e == end, Compat, "after {p} of {n} keys, the end of the pair is not EASTL's end()");
                if b.1 < t.buckets as usize || b.1 > end.1 || (b.0 != END && cx().live_block_at(b.0).is_none()) {
                    bad!(Compat, "after {p} of {n} keys, the begin of the pair points nowhere");
                    return;
                }
                match walk::<K, ()>(&t, b.0, b.1, n) {
                    Err(m) => bad!(Compat, "after {p} of {n} keys: {m}"),
                    Ok(w) => check!(w == rest, Compat, "after {p} of {n} keys, EASTL sees {} keys in the pair instead of {}", w.len(), rest.len()),
                }
                let it = eastl_rs::hash_set::iter::Iter::<K>::from_compat(std::mem::transmute(b), std::mem::transmute(e));
                let got: Vec<usize> = it.take(n + 1).map(|k| k as *const K as usize).collect();
                check!(got == rest, Compat, "after {p} of {n} keys, the pair converted back yields {} keys instead of {}", got.len(), rest.len());
            }
        }
        unsafe {
            let it = eastl_rs::hash_set::iter::Iter::<K>::from_compat(std::mem::transmute(begin(&t)), std::mem::transmute(end));
            let got: Vec<usize> = it.take(n + 1).map(|k| k as *const K as usize).collect();
            check!(got == order, Compat, "from EASTL's begin() and end(), {} keys are yielded instead of {n}", got.len());
            // every pair EASTL's own iteration passes through
            if self.lim.iters {
                let (mut node, mut b) = begin(&t);
                for j in 0..=n {
                    let it = eastl_rs::hash_set::iter::Iter::<K>::from_compat(std::mem::transmute((node, b)), std::mem::transmute(end));
                    let got: Vec<usize> = it.take(n + 1).map(|k| k as *const K as usize).collect();
                    check!(got == order[j.min(n)..], Compat, "from EASTL's iterator after {j} steps, {} keys are yielded instead of {}", got.len(), n - j);
                    if node == END {
                        break;
                    }
                    node = (*(node as *const RNode<K, ()>)).next as usize;
                    while node == 0 {
                        b += 8;
                        node = *(b as *const usize);
                    }
                }
            }
        }
        if n <= 4 {
            let want = format!("{{{}}}", self.t.iter().map(|k| format!("{k:?}")).collect::<Vec<_>>().join(","));
            let got = format!("{:?}", self.t);
            check!(got == want, Semantic, "Debug prints {got} instead of {want}");
        }
    }
}

impl<K: Elem + PartialEq, A: TestAlloc, H: HFn<K>, E: EFn<K>> System for SetSys<K, A, H, E> {
    fn ops(&self, lvl: u8, out: &mut Vec<Op>) {
        hops(&self.m, self.lim, lvl, false, self.ctors.is_some(), out);
    }

    fn step(&mut self, o: Op, full: bool) {
        let g = A::GLOBAL;
        op_start();
        let none = It { ser: 0, val: 0 };
        let insert = |t: &mut HashSet<K, A, H, E>, m: &mut HModel, k: u32| {
            let (k, ki) = K::mk(k);
            let hit = m.find(ki.val).is_some();
            let got = must("insert", || tracked(g, || t.insert(k)));
            if let Some(got) = got {
                check!(got != hit, Semantic, "insert of {} key returned {got}", if hit { "a present" } else { "an absent" });
            }
            m.insert(ki, none);
        };
        let remove = |t: &mut HashSet<K, A, H, E>, m: &mut HModel, k: u32| {
            let k = K::make(k);
            let want = m.find(k.value()).map(|i| m.take(i));
            let got = must("remove", || tracked(g, || t.remove(&k)));
            handed("remove", got.flatten(), want.map(|w| w.0));
        };
        self.m.new = false;
        match o.c {
            ADOPT => unsafe { adopt::<_, K, (), A>(&mut self.t, o, 5, &mut self.m, |_| ((), none)) },
            INSERT => insert(&mut self.t, &mut self.m, o.a),
            REMOVE => remove(&mut self.t, &mut self.m, o.a),
            CLEAR => {
                must("clear", || tracked(g, || self.t.clear()));
                self.m.clear();
            }
            REBUILD => {
                let f = self.ctors.as_ref().unwrap();
                let mut its = vec![];
                let new = match o.a {
                    0 => must("new", || tracked(A::GLOBAL, f.new)),
                    1 => must("default", || tracked(A::GLOBAL, f.default)),
                    _ => {
                        let mut src = vec![];
                        for k in src_keys(o.b, self.lim.u) {
                            let (k, ki) = K::mk(k);
                            src.push(Some(k));
                            its.push(ki);
                        }
                        must("from_iter", || tracked(A::GLOBAL, || (f.from_iter)(&mut src)))
                    }
                };
                let Some(new) = new else { return };
                let old = std::mem::replace(&mut self.t, new);
                tracked(A::GLOBAL, || drop(old));
                self.m.owner = if A::GLOBAL { 0xD0 } else { 0 };
                self.m.clear();
                self.m.buckets = 1;
                self.m.factors = (1.0, 2.0);
                self.m.next_resize = 0;
                for k in its {
                    self.m.insert(k, none);
                }
            }
            FILL | DRAIN | SLIDE => {
                let mut k = 0;
                for j in 0..o.a {
                    if o.c != DRAIN {
                        let x = if o.c == SLIDE { self.lim.u + 10 + j } else { k };
                        insert(&mut self.t, &mut self.m, x);
                    }
                    if o.c != FILL {
                        let x = if o.c == SLIDE && self.m.items.len() > 1 { self.m.items[j as usize % self.m.items.len()].0.val } else { k };
                        remove(&mut self.t, &mut self.m, x);
                    }
                    k = (k + o.b) % self.lim.u;
                }
            }
            _ => {}
        }
        if full {
            self.full();
        }
    }

    fn key(&self, out: &mut Vec<u8>) {
        unsafe { chain_key::<K, ()>(&RTable::of(&self.t), out) };
        self.m.more_key(out);
    }

    fn end(self: Box<Self>) {
        let t = self.t;
        tracked(A::GLOBAL, || drop(t));
    }

    fn show(&self, o: Op) -> String {
        show_op(o)
    }
}

/// The growth policy at every prime and around every threshold, for several load and growth
/// factors, read off what one insertion into a table with these counts does. Case: index of the
/// bucket count (0: the empty table) times the factors.
pub const FACTORS: [(f32, f32); 12] = [
    (1.0, 2.0), (1.0, 1.5), (1.0, 3.0), (1.0, 1.0), (0.5, 2.0), (0.75, 2.0), (2.0, 2.0), (4.0, 1.25), (0.25, 1.1), (1.5, 4.0), (0.3, 2.7), (10.0, 2.0),
];

type PolicyTable = HashMap<P4, [u8; 4200], crate::alloc::TrackAlloc, Const, Same>;

pub fn policy_cases() -> u64 {
    (1 + 240) * FACTORS.len() as u64
}

pub fn growth_policy(lo: u64, hi: u64) -> u64 {
    let mut evals = 0;
    for case in lo..hi {
        let (mlf, growth) = FACTORS[case as usize % FACTORS.len()];
        let bi = case as usize / FACTORS.len();
        let bc = if bi == 0 { 1 } else { PRIMES[bi - 1] };
        let full = (bc as f32 * mlf).ceil() as u64;
        let mut counts: Vec<u64> = if bc < 400 { (0..=(full + 3).min(bc as u64 * 3)).collect() } else { vec![] };
        for c in [full as i64, bc as i64, bc as i64 / 2, (bc as f32 * growth) as i64, (bc as f32 * growth * mlf) as i64] {
            for d in -3..=3 {
                counts.push((c + d).max(0) as u64);
            }
        }
        // around every prime a count could lead to
        if bc < 4 {
            for p in PRIMES.iter().take(244) {
                for d in -2i64..=2 {
                    counts.push((*p as f64 * mlf as f64) as i64 as u64 + (d + 2) as u64);
                }
            }
        }
        counts.sort_unstable();
        counts.dedup();
        for count in counts {
            // beyond this EASTL's own arithmetic leaves the prime table
            if count as f32 / mlf > 3.0e9 || growth * bc as f32 > 3.0e9 || count > 3_000_000_000 || p_over(bc, count as u32, mlf, growth) {
                continue;
            }
            for next in [0u32, full.min(u32::MAX as u64) as u32, (count as u32).wrapping_add(1), count as u32] {
                evals += 1;
                crate::rt::reset_keep_violations();
                let mut t: std::mem::ManuallyDrop<PolicyTable> = std::mem::ManuallyDrop::new(unsafe { HashMap::new_in(crate::alloc::TrackAlloc::new(1)) });
                let mut arr: [usize; 16] = [0; 16];
                let node = size_of::<RNode<P4, [u8; 4200]>>();
                let mut want_next = next;
                let want = policy(bc, count as u32, &mut want_next, mlf, growth);
                // small tables grow in earnest; of large ones only the request is seen, and refused
                let served = bc <= 3000 && want.map_or(true, |p| p <= 3000);
                unsafe {
                    let r = RTable::mut_of(&mut *t);
                    // every key goes to bucket 7 % bc; the array is never looked at elsewhere before the request
                    r.buckets = arr.as_mut_ptr();
                    if served && bc > 1 {
                        let p = cx().alloc((bc as usize + 1) * 8, 8, 1) as *mut usize;
                        p.write_bytes(0, bc as usize);
                        p.add(bc as usize).write(usize::MAX);
                        r.buckets = p;
                    }
                    r.count = bc;
                    r.len = count as u32;
                    r.mlf = mlf;
                    r.growth = growth;
                    r.next_resize = next;
                }
                if !served {
                    cx().serve_only = Some(node);
                }
                op_start();
                let _ = crate::rt::catch(|| t.insert(P4(7), [0; 4200]));
                let asked: Vec<(usize, usize)> = cx().allocs.iter().copied().filter(|a| a.0 != node).collect();
                cx().serve_only = None;
                let want_req: Vec<(usize, usize)> = want.iter().map(|&p| ((p as usize + 1) * 8, 8)).collect();
                check!(
                    asked == want_req,
                    Buckets,
                    "{bc} buckets, {count} entries, threshold {next}, load factor {mlf}, growth {growth}: asked for {asked:?}, EASTL's policy asks for {want_req:?}"
                );
                let got_next = unsafe { RTable::of(&*t).next_resize };
                check!(
                    got_next == want_next || !served && want.is_some() && got_next == next,
                    Buckets,
                    "{bc} buckets, {count} entries, threshold {next}, load factor {mlf}, growth {growth}: next threshold {got_next}, EASTL's policy says {want_next}"
                );
            }
        }
    }
    evals
}

fn p_over(bc: u32, count: u32, mlf: f32, growth: f32) -> bool {
    let b = if bc == 1 { 0 } else { bc };
    let min = (count.saturating_add(1) as f32 / mlf).max(growth * b as f32);
    min >= 4.0e9
}
