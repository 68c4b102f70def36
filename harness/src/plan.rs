//! Which spaces decide which property.
#![cfg_attr(feature = "nightly", allow(dead_code, unused_imports))]

use crate::alloc::{TestAlloc, TrackAlloc};
use crate::explore::{op, Op, Spec};
use crate::rt::Kind::{self, *};
#[cfg(feature = "hooks")]
use crate::sys::pool;
use crate::sys::{borrow, deque, fault, hash, hashes, list, oom, requests, shared, string, threads, tree, unlawful, vector, vmap};
use crate::tok::*;
use eastl_rs::compare::{Greater, Less};
use eastl_rs::DefaultAllocator;

pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20",
    "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33", "C34",
];

pub struct Plan {
    pub specs: Vec<Spec>,
    pub kinds: Vec<Kind>,
    pub assumptions: Vec<&'static str>,
}

/// How far a space goes: the share of a property about all containers, the check of every change,
/// or the deepest.
#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub enum B {
    Light,
    Quick,
    Deep,
}
use B::*;

impl B {
    fn pick<T>(self, light: T, quick: T, deep: T) -> T {
        match self {
            Light => light,
            Quick => quick,
            Deep => deep,
        }
    }

    /// For the spaces of long histories, which no property gets a smaller share of: the sizes at
    /// which something happens are the same for all.
    fn long(self) -> B {
        if self == Deep { Deep } else { Quick }
    }
}

type S = Vec<Spec>;
type Track = TrackAlloc;
type Def = DefaultAllocator;

/// The properties whose spaces include the containers of the nightly feature.
pub fn wants_nightly(pid: &str) -> bool {
    matches!(pid, "C16" | "C20" | "C21" | "C24")
}

pub fn plan(pid: &str, thorough: bool) -> Plan {
    let mut s: S = Vec::new();
    let t = if thorough { Deep } else { Quick };
    let part = if thorough { Quick } else { Light };
    #[cfg(feature = "nightly")]
    {
        // this build exists for the conformant FixedList only
        let _ = pid;
        conformant_lists(&mut s, t);
        let _ = part;
    }
    #[cfg(not(feature = "nightly"))]
    match pid {
        "C01" | "C02" => vectors(&mut s, t),
        "C03" => vector_iterators(&mut s, t),
        "C04" => deques(&mut s, t),
        "C05" => deque_iterators(&mut s, t),
        "C06" => queues(&mut s, t),
        "C07" => hash_maps(&mut s, t),
        "C08" => hash_sets(&mut s, t),
        "C09" => {
            hash_iterators(&mut s, t);
        }
        "C10" => {
            hash_buckets(&mut s, t);
            s.push(Spec::cases("growth policy at every prime, around every threshold, 12 pairs of factors", hash::policy_cases(), 4, hash::growth_policy));
        }
        "C11" => vector_maps(&mut s, t),
        "C12" | "C13" | "C14" => strings(&mut s, t),
        "C15" => lists(&mut s, t),
        "C16" => fixed_lists(&mut s, t),
        "C17" => fixed_vectors(&mut s, t),
        "C18" => trees(&mut s, t),
        "C19" => {
            trees(&mut s, t);
            fixed_trees(&mut s, t);
        }
        "C20" | "C21" | "C24" => {
            vectors(&mut s, t);
            vector_iterators(&mut s, t);
            fixed_vectors(&mut s, t);
            deques(&mut s, part);
            deque_iterators(&mut s, part);
            queues(&mut s, part);
            strings(&mut s, part);
            lists(&mut s, t);
            fixed_lists(&mut s, part);
            hash_maps(&mut s, t);
            hash_sets(&mut s, t);
            vector_maps(&mut s, t);
            trees(&mut s, part);
            fixed_trees(&mut s, part);
        }
        "C22" => faults(&mut s, t),
        "C23" => {
            use hashes::*;
            s.push(Spec::cases("every bool and 8- and 16-bit integer", 1, 1, small));
            s.push(Spec::cases("every 32-bit pattern as i32, u32 and f32", 1 << 32, 1 << 20, words));
            s.push(Spec::cases("64- and 128-bit integers around every boundary", WIDE, 1 << 12, wide));
            s.push(Spec::cases("doubles of every exponent, boundary mantissas", DOUBLES, 256, doubles));
            s.push(Spec::cases("byte strings of up to three bytes", 65536, 64, strings3));
            s.push(Spec::cases("strings of every character", 0x110000, 1024, chars));
            s.push(Spec::cases("strings of every length up to 4096", 4097, 16, lengths));
            s.push(Spec::cases("strings around every power of two up to 2^20", 36, 1, long_lengths));
            s.push(Spec::cases("tables keyed by every hashable type", 1, 1, tables));
        }
        "C25" => {
            s.push(Spec::cases("requests of every size below 5000 and every alignment up to 4096", 5000, 16, requests::sizes));
            s.push(Spec::cases("requests around every boundary up to 16 MiB with alignments up to 4 MiB, and around those that cannot be described", requests::large_cases(), 64, requests::large_sizes));
            s.push(Spec::cases("typed requests", 1, 1, requests::typed_all));
            let n = if thorough { 5 } else { 4 };
            s.push(Spec::bfs(format!("histories of requests and releases, up to {n} blocks"), 0, move || requests::DefSys::new(n)));
            s.push(Spec::cases("memory exhausted at every request of every container's history", oom::OOM, 1, oom::oom));
        }
        "C26" => pools(&mut s, t),
        "C27" => {
            s.push(Spec::cases("capacities around every boundary, vectors", requests::VECTORS, 1, requests::vectors));
            s.push(Spec::cases("capacities around every boundary, strings and vector maps", 1, 1, requests::strings));
            s.push(Spec::cases("vectors of enormous length", 6, 1, requests::enormous_all));
        }
        "C28" => custom_functions(&mut s, t),
        "C29" => {
            s.push(Spec::cases("every container and iterator over every combination of contents that may be sent, shared, both or neither", 1, 1, threads::threads));
            readers(&mut s, t);
        }
        "C30" => s.push(Spec::cases("every program of two calls that borrow, change, move or drop a container, judged by the compiler", 1, 1, borrow::borrows)),
        "C31" => from_cpp(&mut s, t),
        "C32" => contradictions(&mut s, t),
        "C33" => destructors(&mut s, t),
        "C34" => refusals(&mut s, t),
        _ => panic!("no such property"),
    }
    Plan { specs: s, kinds: kinds(pid), assumptions: assumptions(pid) }
}

fn kinds(pid: &str) -> Vec<Kind> {
    match pid {
        "C01" => vec![Semantic, Iter, Element],
        "C02" => vec![Capacity],
        "C03" => vec![Iter, Element, LeakE, Alloc],
        "C04" => vec![Semantic, Element],
        "C05" => vec![Iter, Compat],
        "C06" => vec![Semantic, Iter],
        "C07" | "C08" => vec![Semantic, Element],
        "C09" => vec![Iter, Compat],
        "C10" => vec![Buckets],
        "C11" => vec![Semantic, Element, Iter],
        "C12" => vec![Semantic],
        "C13" => vec![Nul],
        "C14" => vec![Utf8],
        "C15" => vec![Semantic, Iter, Layout, Capacity],
        "C16" => vec![Semantic, Pool, Iter, Layout, Capacity, Alloc],
        "C17" => vec![Semantic, Pool, Capacity, Element, LeakE, Alloc, Iter],
        "C18" => vec![Semantic, Iter, Layout],
        "C19" => vec![Alloc, Element, LeakE, Pool, Cleared],
        "C20" => vec![Alloc],
        "C21" => vec![Element, LeakE],
        "C22" => vec![Fault, Element, Alloc],
        "C33" | "C34" => vec![Fault, Element, Alloc, Pool],
        "C23" => vec![Hash],
        "C24" => vec![Layout],
        "C25" => vec![Alloc, Request],
        "C26" => vec![Pool, Layout, Alloc],
        "C27" => vec![Request],
        "C28" => vec![Semantic, Iter, Element],
        "C29" => vec![Shared, Threads],
        "C30" => vec![Borrow],
        "C32" => vec![Semantic, Element, LeakE, Alloc, Utf8, Nul],
        "C31" => vec![Semantic, Iter, Compat, Layout, Alloc, Buckets, Element, LeakE, Capacity, Pool, Cleared],
        _ => vec![],
    }
}

fn assumptions(pid: &str) -> Vec<&'static str> {
    let mut a = vec![
        "x86-64 Linux, 64-bit pointers; one thread",
        "element types: the sizes and alignments named in the spaces; element code is the harness's own",
        "two executions that reach the same canonical state (lengths, capacities, positions in blocks, keys, links) behave alike from there on, which the spaces of unmerged histories cross-check",
    ];
    match pid {
        "C10" => a.push("EASTL's prime table and policy as the harness states them independently of the crate"),
        "C18" | "C19" => a.push("trees are built by the harness as C++ leaves them; the anchor's first link is read as the lowest node, as the crate names it"),
        "C22" => a.push("panicking destructors are the matter of C33, panicking allocators of C34; a panic of a stored key's hash during growth may lose entries, never memory safety"),
        "C29" => a.push("readers switch at element code, iterator steps and formatter pieces; as reads write nothing to protected memory, any finer interleaving shows the same"),
        "C30" => a.push("rustc's verdict on a program; a signature's lifetimes do not depend on the element type, so that one owning and one borrowing type stand for all"),
        "C31" => a.push("the representations are the ones EASTL's own constructors, rehash, set_max_load_factor, set_capacity and moves leave behind, written down by the harness"),
        "C32" => a.push("the functions' answers do not depend on anything; after the answers enumerated for an operation, only noes; an operation may refuse to go on by a panic"),
        "C25" => a.push("malloc is replaced by an accounting stand-in in front of the system's"),
        _ => {}
    }
    if cfg!(not(feature = "hooks")) {
        a.push("the build with the hooks failed: fixed maps were not explored");
    }
    a
}

// ---- containers that C++ made

fn from_cpp(s: &mut S, b: B) {
    fn vecs<E: Elem, A: TestAlloc>(s: &mut S, cap: usize, depth: usize) {
        s.push(
            Spec::bfs(format!("Vector of {}, {}, of any length and capacity up to {cap}, made by C++; {depth} operations on it", E::NAME, A::NAME), 0, move || {
                vector::VecSys::<E, A>::adopting(vector::Lim { len: 2 * cap, cap: 2 * cap })
            })
            .depth(depth + 1),
        );
    }
    fn fixed<E: Elem, const N: usize, A: TestAlloc>(s: &mut S, depth: usize) {
        s.push(
            Spec::bfs(format!("FixedVector of {N} x {}, {}, inline or with any other storage, made by C++; {depth} operations on it", E::NAME, A::NAME), 0, move || {
                vector::FixedSys::<E, N, A>::adopting(vector::Lim { len: 4 * N, cap: 4 * N })
            })
            .depth(depth + 1),
        );
    }
    fn deqs<E: Elem, A: TestAlloc>(s: &mut S, len: usize, ptrs: usize, depth: usize) {
        s.push(
            Spec::bfs(format!("Deque of {}, {}, with a map of 8 to {ptrs} slots, any part of it in use, made by C++; {depth} operation(s) on it", E::NAME, A::NAME), 0, move || {
                deque::DeqSys::<E, A>::new(deque::Lim { len, ptrs, mode: deque::Mode::Adopt })
            })
            .depth(depth + 1),
        );
    }
    fn queue<E: Elem, A: TestAlloc>(s: &mut S, len: usize, ptrs: usize, depth: usize) {
        s.push(
            Spec::bfs(format!("Queue of {}, {}, with a map of 8 to {ptrs} slots, any part of it in use, made by C++; {depth} operation(s) on it", E::NAME, A::NAME), 0, move || {
                deque::QueueSys::<E, A>::new(deque::Lim { len, ptrs, mode: deque::Mode::Adopt })
            })
            .depth(depth + 1),
        );
    }
    fn maps<K: Elem + PartialEq, V: Elem, A: TestAlloc, H: hash::HFn<K>, E: hash::EFn<K>>(s: &mut S, u: u32, depth: usize) {
        s.push(
            Spec::bfs(format!("{}, of any of 10 bucket counts, 5 pairs of factors, {u} keys, made by C++; {depth} operation(s) on it", hash::MapSys::<K, V, A, H, E>::name()), 2, move || {
                hash::MapSys::<K, V, A, H, E>::adopting(hash::HLim { u, len: 9, iters: false })
            })
            .depth(depth + 1),
        );
    }
    fn sets<K: Elem + PartialEq, A: TestAlloc, H: hash::HFn<K>, E: hash::EFn<K>>(s: &mut S, u: u32, depth: usize) {
        s.push(
            Spec::bfs(format!("{}, of any of 10 bucket counts, 5 pairs of factors, {u} keys, made by C++; {depth} operation(s) on it", hash::SetSys::<K, A, H, E>::name()), 2, move || {
                hash::SetSys::<K, A, H, E>::adopting(hash::HLim { u, len: 9, iters: false })
            })
            .depth(depth + 1),
        );
    }
    fn vmaps<K: Elem + PartialOrd, V: Elem, A: TestAlloc, C: vmap::Cmp<K>>(s: &mut S, u: u32, depth: usize) {
        s.push(
            Spec::bfs(format!("VectorMap of {} to {}, {}, {}, of any keys below {u} in any capacity, made by C++; {depth} operation(s) on it", K::NAME, V::NAME, C::NAME, A::NAME), 0, move || {
                vmap::VMapSys::<K, V, A, C>::adopting(u, u as usize + 2)
            })
            .depth(depth + 1),
        );
    }
    let d = b.pick(1, 2, 3);
    vecs::<T8, Track>(s, b.pick(4, 6, 10), d);
    vecs::<A64, Def>(s, b.pick(4, 6, 8), d);
    vecs::<P3, Track>(s, 5, d);
    fixed::<T8, 3, Track>(s, d);
    fixed::<P1, 5, Def>(s, d);
    fixed::<A16, 2, Track>(s, d);
    let e = b.pick(1, 1, 2);
    let wide = b.pick(8, 18, 18);
    deqs::<T40, Track>(s, 1000, wide, e);
    if b >= Quick {
        deqs::<A64, Track>(s, 28, 8, e + 1);
        queue::<T24, Def>(s, 40, b.pick(8, 9, 11), e);
    }
    deqs::<P16, Def>(s, 1000, b.pick(8, 9, 18), e);
    queue::<T40, Track>(s, 1001, wide, e);
    queue::<P1, Def>(s, 1000, b.pick(8, 8, 11), e);
    maps::<T4, T8, Track, hash::Ident, hash::Same>(s, 4, d);
    maps::<P16, P1, Def, hash::Mod2, hash::Same>(s, 3, d);
    maps::<T4, T4, Track, hash::HalfHash, hash::HalfEq>(s, b.pick(3, 4, 5), e);
    sets::<T8, Track, hash::Mod3, hash::Same>(s, 4, d);
    sets::<P4, Def, hash::High, hash::Same>(s, 3, d);
    vmaps::<T4, T8, Track, Less<T4>>(s, 5, d);
    vmaps::<P16, P1, Def, vmap::Val>(s, 4, d);
    vmaps::<T4, T4, Track, vmap::Third>(s, b.pick(4, 6, 8), e);
    trees(s, Light);
}

// ---- vectors

fn vec_space<E: Elem, A: TestAlloc>(s: &mut S, len: usize, cap: usize) {
    s.push(Spec::bfs(
        format!("Vector of {}, {}: every state up to length {len} and capacity {cap}", E::NAME, A::NAME),
        0,
        move || vector::VecSys::<E, A>::new(vector::Lim { len, cap }),
    ));
}
fn vec_cloning<E: Elem>(s: &mut S, len: usize, cap: usize) {
    s.push(Spec::bfs(
        format!("Vector of {} with clones: every state up to length {len} and capacity {cap}", E::NAME),
        0,
        move || vector::VecSys::<E, Track>::cloning(vector::Lim { len, cap }),
    ));
}

/// Lengths at, below and beyond every power of two, and some others.
fn lengths(max: u32) -> Vec<u32> {
    let mut v: Vec<u32> = (0..32).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1, 3 << k >> 1]).filter(|n| *n <= max as u64 + 1).map(|n| n as u32).collect();
    v.extend([5, 10, 20, 100, 1000, 5000, 10_000].iter().filter(|n| **n <= max));
    v.sort();
    v.dedup();
    v
}

fn vec_seeds(max: u32) -> Vec<Vec<Op>> {
    use vector::*;
    let mut v: Vec<Vec<Op>> = lengths(max).into_iter().map(|n| vec![op(FILL, n, 0)]).collect();
    for n in [33, 129, 1000, 4097] {
        if n <= max {
            v.push(vec![op(FILL, n, 0), op(DRAIN, n / 2, 0)]);
            v.push(vec![op(RESERVE, n, 0), op(FILL, n - 1, 0)]);
            v.push(vec![op(FILL, n, 0), op(CLEAR, 0, 0), op(FILL, n + 1, 0)]);
            v.push(vec![op(APPEND, n, 0), op(PUSH, 0, 0), op(ASSIGN, 2 * n + 3, 0)]);
        }
    }
    v
}
fn vec_large<E: Elem, A: TestAlloc>(s: &mut S, max: u32, depth: usize) {
    s.push(Spec::seeded(
        format!("Vector of {}, {}: all histories of {depth} operation(s) from chosen lengths up to {max}", E::NAME, A::NAME),
        3,
        depth,
        vec_seeds(max),
        move || vector::VecSys::<E, A>::new(vector::Lim { len: 1 << 22, cap: 1 << 22 }),
    ));
}
/// Every operation at chosen lengths, for many more element sizes.
macro_rules! vec_sizes {
    ($s:expr, $max:expr, $($n:literal)*) => {$( vec_large::<Bytes<$n>, Track>($s, $max, 1); )*};
}

fn vectors(s: &mut S, b: B) {
    vec_large::<T8, Track>(s, b.pick(300, 66_000, 300_000), 1);
    vec_large::<T8, Def>(s, b.pick(33, 130, 520), 2);
    if b >= Quick {
        vec_large::<P1, Def>(s, b.pick(0, 66_000, 1_100_000), 1);
        vec_large::<T40, Track>(s, b.pick(0, 4100, 33_000), 1);
        vec_large::<A64, Track>(s, b.pick(0, 2050, 33_000), 1);
        let cl = b.pick(0, 5000, 70_000);
        s.push(Spec::seeded(format!("Vector of 8 bytes aligned 8, with clones, from chosen lengths up to {cl}"), 3, 1, vec_seeds(cl), || {
            vector::VecSys::<A8, Track>::cloning(vector::Lim { len: 1 << 22, cap: 1 << 22 })
        }));
        vec_sizes!(s, b.pick(0, 140, 2100), 3 5 6 7 9 10 12 15 17 24 31 32 33 48 63 65 100 128 255 256 257 1000);
    }
    let (l, c) = b.pick((8, 16), (24, 64), (40, 128));
    let (m, d) = b.pick((5, 10), (14, 32), (24, 64));
    vec_cloning::<T8>(s, l, c);
    vec_space::<T12, Track>(s, l + 1, c);
    vec_space::<A64, Def>(s, m, d);
    vec_space::<P1, Track>(s, m + 1, d);
    if b >= Quick {
        vec_cloning::<T4>(s, m, d);
        vec_cloning::<A16>(s, m, d);
        vec_space::<P2, Def>(s, m, d);
        vec_space::<P3, Track>(s, m, d);
        vec_space::<P4, Track>(s, m, d);
        vec_space::<P16, Track>(s, m, d);
        vec_space::<T24, Def>(s, m + 1, d);
        vec_space::<T40, Track>(s, m, d);
    }
    let lim = vector::Lim { len: m, cap: d };
    s.push(Spec::bfs("Vector of 8 bytes, tracked: freed blocks are used again at once", 0, move || vector::VecSys::<T8, Track>::cloning(lim)).reuse());
    let k = b.pick(3, 5, 7);
    s.push(Spec::all(format!("Vector of 8 bytes, tracked: all histories of {k} operations, unmerged"), 1, k, || {
        vector::VecSys::<T8, Track>::new(vector::Lim { len: 9, cap: 18 })
    }));
}

fn vector_iterators(s: &mut S, b: B) {
    let (l, c) = b.pick((5, 8), (9, 18), (12, 32));
    fn one<E: Elem, A: TestAlloc>(s: &mut S, len: usize, cap: usize) {
        s.push(Spec::bfs(
            format!("Vector of {}, {}: owning iterator from every state up to length {len}, every order of calls, dropped at every point", E::NAME, A::NAME),
            2,
            move || vector::VecSys::<E, A>::new(vector::Lim { len, cap }),
        ));
    }
    one::<T8, Track>(s, l, c);
    one::<A16, Def>(s, l - 1, c);
    if b >= Quick {
        one::<P1, Track>(s, l, c);
        one::<T4, Def>(s, l, c);
        one::<T40, Track>(s, l, c);
        one::<A64, Track>(s, l, c);
        one::<P3, Track>(s, l, c);
    }
}

fn fixed_large<E: Elem, const N: usize, A: TestAlloc>(s: &mut S, b: B, depth: usize) {
    use vector::*;
    let n = N as u32;
    let mut seeds = vec![];
    for k in [0, 1, n / 2, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 4 * n + 1] {
        seeds.push(vec![op(FILL, k, 0)]);
        if k > 0 {
            seeds.push(vec![op(FILL, k, 0), op(MOVE, 0, 0), op(DRAIN, k / 2, 0)]);
            seeds.push(vec![op(FILL, k, 0), op(CLEAR, 0, 0), op(FILL, n, 0)]);
            seeds.push(vec![op(APPEND, k, 0), op(MOVE, 0, 0), op(RESERVE, 1, 0)]);
        }
    }
    if b == Deep {
        for k in [1000, 10_000, 70_000] {
            seeds.push(vec![op(FILL, k, 0), op(MOVE, 0, 0)]);
        }
    }
    s.push(Spec::seeded(
        format!("FixedVector of {N} x {}, {}: all histories of {depth} operation(s) from lengths around the capacity and its multiples", E::NAME, A::NAME),
        3,
        depth,
        seeds,
        move || FixedSys::<E, N, A>::new(Lim { len: 1 << 22, cap: 1 << 22 }),
    ));
}

fn fixed_vectors(s: &mut S, b: B) {
    fixed_large::<T8, 8, Track>(s, b, b.pick(1, 2, 2));
    fixed_large::<P1, 300, Def>(s, b, 1);
    if b >= Quick {
        fixed_large::<T12, 64, Track>(s, b, 1);
        fixed_large::<A64, 33, Track>(s, b, 1);
        fixed_large::<Bytes<7>, 100, Track>(s, b, 1);
        fixed_large::<Bytes<257>, 17, Track>(s, b, 1);
        fixed_large::<T8, 9000, Track>(s, b, 1);
        fixed_large::<P4, 1, Track>(s, b, 1);
    }
    fn one<E: Elem, const N: usize, A: TestAlloc>(s: &mut S, len: usize, cap: usize) {
        s.push(Spec::bfs(
            format!("FixedVector of {N} x {}, {}: every state up to length {len} and capacity {cap}", E::NAME, A::NAME),
            0,
            move || vector::FixedSys::<E, N, A>::new(vector::Lim { len, cap }),
        ));
    }
    let (l, c) = b.pick((6, 10), (14, 32), (24, 64));
    one::<T8, 4, Track>(s, l, c);
    one::<A64, 3, Def>(s, l, c);
    one::<P1, 5, Track>(s, l + 1, c);
    if b >= Quick {
        one::<T8, 1, Track>(s, l, c);
        one::<T12, 2, Def>(s, l, c);
        one::<T4, 8, Track>(s, l, c);
        one::<A16, 4, Track>(s, l + 1, c);
        one::<T40, 3, Track>(s, l, c);
    }
    s.push(
        Spec::bfs("FixedVector of 3 x 8 bytes, tracked: freed blocks are used again at once", 0, || {
            vector::FixedSys::<T8, 3, Track>::new(vector::Lim { len: 7, cap: 14 })
        })
        .reuse(),
    );
    s.push(Spec::bfs("FixedVector of 3 x 8 bytes, with a cloneable allocator: the vector inside cloned", 0, || {
        vector::FixedSys::<T8, 3, TrackAlloc>::cloning(vector::Lim { len: 7, cap: 14 })
    }));
    s.push(
        Spec::bfs("FixedVector of 3 x 8 bytes, with a cloneable allocator: the vector inside cloned, freed blocks are used again at once", 0, || {
            vector::FixedSys::<T8, 3, TrackAlloc>::cloning(vector::Lim { len: 7, cap: 14 })
        })
        .reuse(),
    );
    let k = b.pick(3, 5, 7);
    s.push(Spec::all(format!("FixedVector of 2 x 8 bytes, tracked: all histories of {k} operations, unmerged"), 1, k, || {
        vector::FixedSys::<T8, 2, Track>::new(vector::Lim { len: 7, cap: 14 })
    }));
}

// ---- deques

fn deq<E: Elem, A: TestAlloc>(s: &mut S, what: &str, len: usize, ptrs: usize, mode: deque::Mode) {
    s.push(Spec::bfs(
        format!("Deque of {}, {}: {what}, every state up to length {len} and {ptrs} map slots", E::NAME, A::NAME),
        0,
        move || deque::DeqSys::<E, A>::new(deque::Lim { len, ptrs, mode }),
    ));
}

fn deq_seeds<E>(blocks: &[u32]) -> Vec<Vec<Op>> {
    use deque::*;
    let sub = subarray::<E>() as u32;
    let mut v = vec![vec![]];
    for &k in blocks {
        for n in [k * sub - 1, k * sub, k * sub + 1, k * sub + sub / 2] {
            v.push(vec![op(FILL_B, n, 0)]);
            v.push(vec![op(FILL_F, n, 0)]);
            v.push(vec![op(FILL_B, n, 0), op(DRAIN_F, n - 2, 0)]);
            v.push(vec![op(FILL_F, n, 0), op(DRAIN_B, n - 2, 0)]);
            v.push(vec![op(FILL_B, n / 2, 0), op(FILL_F, n, 0), op(DRAIN_B, n, 0), op(FILL_B, n, 0)]);
            v.push(vec![op(REBUILD, n, 0), op(SLIDE, sub + 1, 0), op(SLIDE_R, 3 * sub, 0)]);
        }
    }
    v
}
fn deq_large<E: Elem, A: TestAlloc>(s: &mut S, blocks: &[u32], depth: usize) {
    s.push(Spec::seeded(
        format!("Deque of {}, {}: all histories of {depth} operation(s) from fillings of {blocks:?} blocks", E::NAME, A::NAME),
        0,
        depth,
        deq_seeds::<E>(blocks),
        move || deque::DeqSys::<E, A>::new(deque::Lim { len: 1 << 22, ptrs: 1 << 22, mode: deque::Mode::Large }),
    ));
}
/// More than 2^16 elements.
const HUGE: u32 = 66_000;
fn deq_huge<E: Elem, A: TestAlloc>(s: &mut S) {
    use deque::*;
    let seeds = vec![
        vec![op(FILL_B, HUGE, 0)],
        vec![op(FILL_F, HUGE, 0)],
        vec![op(FILL_B, HUGE, 0), op(FILL_F, HUGE, 0), op(DRAIN_B, HUGE - 2, 0)],
        vec![op(REBUILD, HUGE, 0), op(DRAIN_F, HUGE / 2, 0)],
    ];
    s.push(Spec::seeded(format!("Deque of {}, {}: every kind of operation beyond 2^16 elements", E::NAME, A::NAME), 0, 1, seeds, || {
        DeqSys::<E, A>::new(Lim { len: 1 << 22, ptrs: 1 << 22, mode: Mode::Large })
    }));
}
macro_rules! deq_sizes {
    ($s:expr, $blocks:expr, $($n:literal)*) => {$( deq_large::<Bytes<$n>, Track>($s, $blocks, 1); )*};
}
fn deques_large(s: &mut S, b: B) {
    let few: &[u32] = b.pick(&[1, 6], &[1, 3, 6, 8, 20], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 20, 50]);
    let many: &[u32] = b.pick(&[20], &[50, 150, 400], &[50, 100, 200, 400, 1000]);
    deq_large::<T32, Track>(s, few, 1);
    deq_large::<T40, Track>(s, few, b.pick(1, 2, 2));
    if b >= Quick {
        deq_large::<T12, Def>(s, few, 1);
        deq_large::<A8, Track>(s, few, 1);
        deq_large::<A16, Def>(s, few, 1);
        deq_large::<T40, Def>(s, many, 1);
        deq_large::<T16, Track>(s, many, 1);
        deq_large::<P2, Track>(s, many, 1);
        deq_huge::<T40, Track>(s);
        deq_huge::<P4, Def>(s);
        deq_sizes!(s, few, 1 3 5 6 7 8 9 12 15 16 17 24 31 32 33 40 48 64 100 128 129 255 256 257 1000);
    } else {
        deq_sizes!(s, &[1, 6], 5 9 17 33);
    }
}

fn deques(s: &mut S, b: B) {
    use deque::Mode::*;
    deques_large(s, b.long());
    let (l, p) = b.pick((14, 8), (36, 18), (60, 38));
    deq::<T40, Track>(s, "all operations", l, p, Remove);
    deq::<T24, Def>(s, "all operations", b.pick(10, 20, 40), 8, Remove);
    let (l, p) = b.pick((28, 18), (80, 38), (160, 78));
    deq::<T40, Track>(s, "both ends", l, p, Ends);
    if b >= Quick {
        deq::<T16, Track>(s, "both ends", b.pick(0, 60, 120), b.pick(0, 8, 18), Ends);
        deq::<T8, Def>(s, "both ends", b.pick(0, 70, 140), 8, Ends);
        deq::<T4, Track>(s, "both ends", b.pick(0, 71, 200), 8, Ends);
        deq::<P1, Def>(s, "both ends", b.pick(0, 70, 140), 8, Ends);
        deq::<A64, Track>(s, "all operations", b.pick(0, 12, 24), 8, Remove);
        deq::<P16, Track>(s, "all operations", b.pick(0, 20, 36), 8, Remove);
    }
    s.push(
        Spec::bfs("Deque of 40 bytes, tracked: freed blocks are used again at once", 0, || {
            deque::DeqSys::<T40, Track>::new(deque::Lim { len: 13, ptrs: 8, mode: Remove })
        })
        .reuse(),
    );
    let k = b.pick(6, 9, 11);
    s.push(Spec::all(format!("Deque of 40 bytes, tracked: all histories of {k} operations, unmerged"), 0, k, move || {
        deque::DeqSys::<T40, Track>::new(deque::Lim { len: 13, ptrs: 8, mode: Few })
    }));
}

fn deque_iterators(s: &mut S, b: B) {
    use deque::Mode::*;
    if b >= Quick {
        deques_large(s, if b == Deep { Quick } else { Light });
    }
    let (l, p) = b.pick((5, 8), (9, 8), (14, 8));
    deq::<T40, Track>(s, "iterators, every order of calls", l, p, Iterate);
    if b >= Quick {
        deq::<A64, Def>(s, "iterators, every order of calls", l, p, Iterate);
        deq::<T24, Track>(s, "iterators, every order of calls", b.pick(0, 18, 26), 8, Iterate);
        deq::<T40, Def>(s, "iterators", b.pick(0, 34, 44), 18, Iterate);
        if b == Deep {
            deq::<P1, Track>(s, "iterators", 66, 8, Iterate);
        }
    }
}

fn queues(s: &mut S, b: B) {
    fn one<E: Elem, A: TestAlloc>(s: &mut S, len: usize) {
        s.push(Spec::bfs(format!("Queue of {}, {}: every state up to length {len}", E::NAME, A::NAME), 0, move || {
            deque::QueueSys::<E, A>::new(deque::Lim { len, ptrs: 8, mode: deque::Mode::Ends })
        }));
    }
    one::<T40, Track>(s, b.pick(10, 50, 120));
    fn large<E: Elem>(s: &mut S, blocks: &[u32]) {
        use deque::*;
        let sub = subarray::<E>() as u32;
        let seeds = blocks
            .iter()
            .flat_map(|&k| [k * sub - 1, k * sub, k * sub + 1])
            .flat_map(|n| [vec![op(FILL_B, n, 0)], vec![op(FILL_B, n, 0), op(DRAIN_F, n / 2, 0), op(SLIDE, 2 * n, 0)], vec![op(REBUILD, n, 0), op(DRAIN_F, n - 1, 0)]])
            .collect();
        s.push(Spec::seeded(format!("Queue of {}: all histories of one operation from fillings of {blocks:?} blocks", E::NAME), 0, 1, seeds, || {
            QueueSys::<E, Track>::new(Lim { len: 1 << 22, ptrs: 1 << 22, mode: Mode::Large })
        }));
    }
    large::<T32>(s, b.long().pick(&[], &[1, 6, 20, 200], &[1, 2, 3, 4, 5, 6, 7, 8, 20, 50, 200, 1000]));
    {
        let few: &[u32] = b.long().pick(&[], &[1, 6, 20], &[1, 2, 5, 6, 7, 8, 20, 50]);
        fn huge<E: Elem, A: TestAlloc>(s: &mut S) {
            use deque::*;
            let seeds = vec![vec![op(FILL_B, HUGE, 0)], vec![op(FILL_B, HUGE, 0), op(SLIDE, HUGE / 2, 0), op(FILL_B, HUGE, 0)], vec![op(REBUILD, HUGE, 0), op(DRAIN_F, HUGE / 2, 0)]];
            s.push(Spec::seeded(format!("Queue of {}, {}: every kind of operation beyond 2^16 elements", E::NAME, A::NAME), 0, 1, seeds, || {
                QueueSys::<E, A>::new(Lim { len: 1 << 22, ptrs: 1 << 22, mode: Mode::Large })
            }));
        }
        huge::<T40, Track>(s);
        huge::<P1, Def>(s);
        large::<T8>(s, few);
        large::<T4>(s, few);
        large::<Bytes<1>>(s, few);
        large::<Bytes<5>>(s, few);
        large::<Bytes<9>>(s, few);
        large::<Bytes<16>>(s, few);
        large::<Bytes<17>>(s, few);
        large::<Bytes<33>>(s, few);
        large::<Bytes<256>>(s, few);
        large::<Bytes<300>>(s, few);
    }
    if b >= Quick {
        one::<T24, Def>(s, b.pick(0, 60, 120));
        one::<T16, Track>(s, b.pick(0, 60, 160));
        one::<T8, Def>(s, b.pick(0, 80, 200));
        one::<P1, Track>(s, b.pick(0, 140, 300));
        one::<A64, Track>(s, b.pick(0, 24, 60));
        let n = b.pick(0, 400, 4000);
        let seeds = (0..12u32).map(|k| vec![op(deque::FILL_B, k, 0), op(deque::SLIDE, n, 0)]).collect();
        s.push(Spec::seeded(format!("Queue of 40 bytes, tracked: windows of up to 11 elements sliding {n} times"), 0, 2, seeds, || {
            deque::QueueSys::<T40, Track>::new(deque::Lim { len: 16, ptrs: 8, mode: deque::Mode::Few })
        }));
    }
    let k = b.pick(6, 10, 13);
    s.push(Spec::all(format!("Queue of 40 bytes, tracked: all histories of {k} operations, unmerged"), 0, k, || {
        deque::QueueSys::<T40, Track>::new(deque::Lim { len: 20, ptrs: 8, mode: deque::Mode::Few })
    }));
}

// ---- strings

fn strings(s: &mut S, b: B) {
    use string::*;
    fn one<A: TestAlloc>(s: &mut S, chars: usize, cap: usize, alpha: usize) {
        s.push(Spec::bfs(
            format!("String, {}: every content of up to {chars} of {alpha} characters, capacities up to {cap}", A::NAME),
            0,
            move || StrSys::<A>::new(Lim { chars, cap, alpha, few: false, large: false }),
        ));
    }
    let (n, cap, alpha) = b.pick((2, 10, 4), (3, 24, 5), (4, 32, 5));
    s.push(Spec::bfs(format!("String with clones: every content of up to {n} of {alpha} characters, capacities up to {cap}"), 0, move || {
        StrSys::<Track>::cloning(Lim { chars: n, cap, alpha, few: false, large: false })
    }));
    one::<Def>(s, b.pick(2, 3, 3), b.pick(8, 16, 32), b.pick(3, 4, 5));
    if b >= Quick {
        one::<Track>(s, 2, b.pick(0, 17, 33), 9);
        one::<Track>(s, b.pick(0, 6, 9), b.pick(0, 16, 24), 2);
    }
    {
        let max = b.long().pick(0, 5000, 70_000);
        let mut seeds = vec![];
        for n in lengths(max) {
            seeds.push(vec![op(FILL, n, 0)]);
            if n > 8 {
                seeds.push(vec![op(ASSIGN_LONG, n / 2, 3)]);
                seeds.push(vec![op(FILL, n / 3, 2), op(DRAIN, n / 7, 0), op(INSERT, 0, 1), op(RESERVE, 1, 0)]);
            }
        }
        s.push(Spec::seeded(format!("String with clones: every operation at chosen places of chosen lengths up to {max}"), 0, 1, seeds, || {
            StrSys::<Track>::cloning(Lim { chars: 1 << 22, cap: 1 << 23, alpha: 4, few: false, large: true })
        }));
    }
    {
        let seeds = vec![vec![op(FILL, HUGE, 0)], vec![op(ASSIGN_LONG, HUGE, 3)], vec![op(ASSIGN_LONG, 2 * HUGE, 1), op(DRAIN, HUGE / 2, 0)]];
        s.push(Spec::seeded("String with clones: every operation at chosen places beyond 2^16 bytes", 0, 1, seeds, || {
            StrSys::<Track>::cloning(Lim { chars: 1 << 22, cap: 1 << 23, alpha: 4, few: false, large: true })
        }));
    }
    let k = b.pick(4, 5, 7);
    s.push(Spec::all(format!("String: all histories of {k} operations, unmerged"), 0, k, || {
        StrSys::<Track>::new(Lim { chars: 8, cap: 64, alpha: 2, few: true, large: false })
    }));
    if b >= Quick {
        s.push(Spec::cases("every character: push, insert, remove, pop, assign", 0x110000, 2048, every_char));
        s.push(Spec::cases("every pair of texts of up to 3 of 8 characters, alone and within longer ones: equality and hashes", PAIRS, 8, every_pair));
    }
}

// ---- lists

fn lst<E: Elem, A: TestAlloc, L: list::Lst<E, A>>(s: &mut S, max: usize) {
    s.push(Spec::bfs(format!("{}: every state up to length {max}", list::ListSys::<E, A, L>::name()), 0, move || {
        list::ListSys::<E, A, L>::new(max)
    }));
}
fn lst_all<E: Elem, A: TestAlloc, L: list::Lst<E, A>>(s: &mut S, max: usize, k: usize) {
    s.push(Spec::all(format!("{}: all histories of {k} operations, unmerged", list::ListSys::<E, A, L>::name()), 0, k, move || {
        list::ListSys::<E, A, L>::new(max)
    }));
}
fn lst_reuse<E: Elem, A: TestAlloc, L: list::Lst<E, A>>(s: &mut S, max: usize) {
    s.push(
        Spec::bfs(format!("{}: freed blocks are used again at once, length up to {max}", list::ListSys::<E, A, L>::name()), 0, move || {
            list::ListSys::<E, A, L>::new(max)
        })
        .reuse(),
    );
}

/// Every operation at chosen long lengths.
fn lst_large<E: Elem, A: TestAlloc, L: list::Lst<E, A>>(s: &mut S, lens: &[u32], depth: usize) {
    use list::*;
    let mut seeds = vec![];
    for &n in lens {
        for w in 0..3 {
            seeds.push(vec![op(FILL, n, w)]);
            seeds.push(vec![op(FILL, n, w), op(DRAIN, n / 2 + 1, (w + 1) % 3), op(FILL, n / 2 + 3, (w + 2) % 3)]);
        }
        seeds.push(vec![op(FILL, n, 0), op(CLEAR, 0, 0), op(FILL, n, 1)]);
    }
    s.push(Spec::seeded(
        format!("{}: all histories of {depth} operation(s) from chosen lengths up to {}", ListSys::<E, A, L>::name(), lens.iter().max().unwrap()),
        3,
        depth,
        seeds,
        || ListSys::<E, A, L>::new(1 << 24),
    ).stack(256 << 10));
}

fn lists(s: &mut S, b: B) {
    use list::Plain;
    let ls = lengths(b.pick(65, 4100, 70_000));
    lst_large::<T8, Track, Plain<_, _>>(s, &ls, 1);
    if b >= Quick {
        lst_large::<P4, Def, Plain<_, _>>(s, &ls, 1);
        lst_large::<T8, Track, Plain<_, _>>(s, &[HUGE], 1);
        lst_large::<Bytes<33>, Track, Plain<_, _>>(s, &[63, 255, 257], 1);
        lst_large::<T12, Track, Plain<_, _>>(s, &lengths(40), b.pick(1, 2, 2));
    }
    let n = b.pick(6, 16, 30);
    lst::<T8, Track, Plain<_, _>>(s, n);
    lst::<P4, Track, Plain<_, _>>(s, n + 1);
    lst::<A64, Def, Plain<_, _>>(s, n);
    if b >= Quick {
        lst::<P1, Def, Plain<_, _>>(s, n + 1);
        lst::<A16, Track, Plain<_, _>>(s, n);
        lst::<T24, Track, Plain<_, _>>(s, n + 1);
        lst::<P16, Track, Plain<_, _>>(s, n);
    }
    lst_reuse::<T8, Track, Plain<_, _>>(s, b.pick(4, 7, 9));
    lst_all::<T8, Track, Plain<_, _>>(s, 8, b.pick(3, 5, 6));
}

fn fixed_lists(s: &mut S, b: B) {
    use eastl_rs::FixedList as F;
    let n = b.pick(4, 7, 8);
    lst_large::<T8, Track, F<_, 8, _>>(s, &[1, 7, 8, 9, 16, 17], b.pick(1, 2, 2));
    lst_large::<P1, Def, F<_, 300, _>>(s, &[1, 255, 256, 257, 299, 300, 301, 600], 1);
    {
        lst_large::<T12, Track, F<_, 100, _>>(s, &[1, 50, 99, 100, 101, 300], 1);
        lst_large::<A64, Track, F<_, 33, _>>(s, &[1, 32, 33, 34, 100], 1);
        lst_large::<A16, Track, F<_, 64, _>>(s, &[1, 63, 64, 65, 200], 1);
        lst_large::<Bytes<7>, Track, F<_, 65, _>>(s, &[64, 65, 66], 1);
        lst_large::<T4, Track, F<_, 2000, _>>(s, &[1000, 1999, 2000, 2001, 5000], 1);
        lst_large::<T12, Track, F<_, 4000, _>>(s, &[3999, 4000, 4001, 9000], 1);
    }
    lst::<T8, Track, F<_, 3, _>>(s, n);
    lst::<A64, Track, F<_, 2, _>>(s, n);
    lst::<T12, Def, F<_, 1, _>>(s, n + 1);
    if b >= Quick {
        lst::<T8, Track, F<_, 4, _>>(s, n + 1);
        lst::<A16, Def, F<_, 3, _>>(s, n);
        lst::<P1, Track, F<_, 3, _>>(s, n);
        lst::<P1, Def, F<_, 0, _>>(s, n);
        lst::<T24, Track, F<_, 2, _>>(s, n + 1);
        lst::<T4, Track, F<_, 5, _>>(s, n);
    }
    lst_reuse::<T8, Track, F<_, 2, _>>(s, 5);
    lst_all::<T8, Track, F<_, 2, _>>(s, 6, b.pick(3, 5, 6));
}

#[cfg(feature = "nightly")]
fn conformant_lists(s: &mut S, b: B) {
    use list::CFixedList as F;
    let n = b.pick(4, 7, 8);
    lst_large::<T8, Track, F<_, 8, _>>(s, &[1, 7, 8, 9, 16, 17], b.pick(1, 2, 2));
    lst_large::<A16, Track, F<_, 33, _>>(s, &[1, 32, 33, 34, 100], 1);
    lst_large::<P1, Track, F<_, 100, _>>(s, &[1, 50, 99, 100, 101, 300], 1);
    lst_large::<T4, Track, F<_, 1000, _>>(s, &[500, 999, 1000, 1001, 5000], 1);
    lst::<T8, Track, F<_, 3, _>>(s, n);
    lst::<T8, Track, F<_, 4, _>>(s, n + 1);
    lst::<T8, Track, F<_, 1, _>>(s, n);
    lst::<T4, Track, F<_, 3, _>>(s, n);
    lst::<A16, Track, F<_, 3, _>>(s, n);
    lst::<A64, Track, F<_, 3, _>>(s, n);
    lst::<P1, Track, F<_, 3, _>>(s, n);
    lst::<T24, Track, F<_, 3, _>>(s, n);
    lst::<T8, Def, F<_, 3, _>>(s, n);
    lst::<A64, Def, F<_, 2, _>>(s, n);
    lst_reuse::<T8, Track, F<_, 2, _>>(s, 5);
    lst_all::<T8, Track, F<_, 2, _>>(s, 6, b.pick(3, 5, 6));
}

// ---- hash containers

use hash::{Const, HFn, EFn, HLim, HalfEq, HalfHash, High, Ident, MapSys, Max, Mod2, Mod3, Mult, Same, SetSys, ThirdEq, ThirdHash};

fn hm<K: Elem + PartialEq, V: Elem, A: TestAlloc, H: HFn<K>, Q: EFn<K>>(s: &mut S, l: HLim) {
    s.push(Spec::bfs(format!("{}: every state over {} keys, up to {} entries", MapSys::<K, V, A, H, Q>::name(), l.u, l.len), 0, move || {
        MapSys::<K, V, A, H, Q>::new(l)
    }));
}
fn hs<K: Elem + PartialEq, A: TestAlloc, H: HFn<K>, Q: EFn<K>>(s: &mut S, l: HLim) {
    s.push(Spec::bfs(format!("{}: every state over {} keys, up to {} entries", SetSys::<K, A, H, Q>::name(), l.u, l.len), 0, move || {
        SetSys::<K, A, H, Q>::new(l)
    }));
}
macro_rules! hm_building {
    ($s:expr, $l:expr, $($k:ty, $v:ty, $a:ty);*) => {$({
        let l: HLim = $l;
        $s.push(Spec::bfs(
            format!("{}, all constructors: every state over {} keys, up to {} entries", MapSys::<$k, $v, $a, eastl_rs::hash::DefaultHash<$k>, eastl_rs::equals::EqualTo<$k>>::name(), l.u, l.len),
            0,
            move || MapSys::<$k, $v, $a, _, _>::building(l),
        ));
    })*};
}
macro_rules! hs_building {
    ($s:expr, $l:expr, $($k:ty, $a:ty);*) => {$({
        let l: HLim = $l;
        $s.push(Spec::bfs(
            format!("{}, all constructors: every state over {} keys, up to {} entries", SetSys::<$k, $a, eastl_rs::hash::DefaultHash<$k>, eastl_rs::equals::EqualTo<$k>>::name(), l.u, l.len),
            0,
            move || SetSys::<$k, $a, _, _>::building(l),
        ));
    })*};
}

/// Tables filled to just below, at and just beyond each growth threshold, drained and slid.
fn large_seeds(b: B) -> Vec<Vec<Op>> {
    let primes: &[u32] = b.pick(&[5, 11], &[2, 3, 5, 7, 11, 13, 23, 29, 47, 97, 199], &[2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 47, 59, 97, 127, 199, 257, 409, 541, 823]);
    primes
        .iter()
        .flat_map(|&n| {
            let mut v = vec![
                vec![op(hash::FILL, n - 1, 1)],
                vec![op(hash::FILL, n, 1)],
                vec![op(hash::FILL, n + 1, 7), op(hash::DRAIN, n / 2, 3), op(hash::SLIDE, n, 1)],
            ];
            if b == Deep {
                v.push(vec![op(hash::FILL, n, 11), op(hash::DRAIN, n, 11), op(hash::FILL, n, 13)]);
                v.push(vec![op(hash::FILL, n, 3), op(hash::CLEAR, 0, 0), op(hash::FILL, n / 2 + 1, 1)]);
            }
            v
        })
        .collect()
}
fn hm_large<K: Elem + PartialEq, V: Elem, A: TestAlloc, H: HFn<K>, Q: EFn<K>>(s: &mut S, b: B) {
    let u = b.pick(60, 210, 830);
    s.push(Spec::seeded(format!("{}: around every growth threshold up to {u} entries", MapSys::<K, V, A, H, Q>::name()), 1, 1, large_seeds(b), move || {
        MapSys::<K, V, A, H, Q>::new(HLim { u, len: u as usize + 70, iters: false })
    }));
}
fn hs_large<K: Elem + PartialEq, A: TestAlloc, H: HFn<K>, Q: EFn<K>>(s: &mut S, b: B) {
    let u = b.pick(60, 210, 830);
    s.push(Spec::seeded(format!("{}: around every growth threshold up to {u} entries", SetSys::<K, A, H, Q>::name()), 1, 1, large_seeds(b), move || {
        SetSys::<K, A, H, Q>::new(HLim { u, len: u as usize + 70, iters: false })
    }));
}
/// All histories, unmerged.
fn hm_all(s: &mut S, b: B) {
    let k = b.pick(3, 4, 5);
    s.push(Spec::all(format!("HashMap of 8 bytes to 12 bytes, tracked, values modulo 2: all histories of {k} operations over 3 keys, unmerged"), 0, k, || {
        MapSys::<T8, T12, Track, Mod2, Same>::new(HLim { u: 3, len: 3, iters: false })
    }));
}
fn hs_all(s: &mut S, b: B) {
    let k = b.pick(5, 6, 8);
    s.push(Spec::all(format!("HashSet of 8 bytes, tracked, values modulo 2: all histories of {k} operations over 4 keys, unmerged"), 1, k, || {
        SetSys::<T8, Track, Mod2, Same>::new(HLim { u: 4, len: 4, iters: false })
    }));
}

/// Every kind of operation in tables of thousands of entries.
fn sizes(b: B) -> Vec<Vec<Op>> {
    let max = b.pick(200, 6000, 60_000);
    lengths(max)
        .into_iter()
        .filter(|n| *n > 3)
        .flat_map(|n| [vec![op(hash::FILL, n, 1)], vec![op(hash::FILL, n, 7919), op(hash::DRAIN, n / 2, 7919), op(hash::SLIDE, n / 3, 0)]])
        .collect()
}
const BIG: HLim = HLim { u: 1 << 20, len: 1 << 24, iters: false };
fn hm_sizes<K: Elem + PartialEq, V: Elem, A: TestAlloc, H: HFn<K>, Q: EFn<K>>(s: &mut S, b: B) {
    s.push(Spec::seeded(format!("{}: every kind of operation at chosen sizes", MapSys::<K, V, A, H, Q>::name()), 3, 1, sizes(b), || MapSys::<K, V, A, H, Q>::new(BIG)));
}
fn hs_sizes<K: Elem + PartialEq, A: TestAlloc, H: HFn<K>, Q: EFn<K>>(s: &mut S, b: B) {
    s.push(Spec::seeded(format!("{}: every kind of operation at chosen sizes", SetSys::<K, A, H, Q>::name()), 3, 1, sizes(b), || SetSys::<K, A, H, Q>::new(BIG)));
}

fn huge_seeds() -> Vec<Vec<Op>> {
    vec![vec![op(hash::FILL, HUGE, 1)], vec![op(hash::FILL, 2 * HUGE, 5), op(hash::DRAIN, HUGE / 2, 5), op(hash::SLIDE, HUGE / 3, 0)]]
}
fn hm_huge<K: Elem + PartialEq, V: Elem, A: TestAlloc, H: HFn<K>, Q: EFn<K>>(s: &mut S) {
    s.push(Spec::seeded(format!("{}: every kind of operation beyond 2^16 entries", MapSys::<K, V, A, H, Q>::name()), 3, 1, huge_seeds(), || MapSys::<K, V, A, H, Q>::new(BIG)));
}
fn hs_huge<K: Elem + PartialEq, A: TestAlloc, H: HFn<K>, Q: EFn<K>>(s: &mut S) {
    s.push(Spec::seeded(format!("{}: every kind of operation beyond 2^16 entries", SetSys::<K, A, H, Q>::name()), 3, 1, huge_seeds(), || SetSys::<K, A, H, Q>::new(BIG)));
}

/// One bucket that holds everything, on a stack that one frame for each node would overflow.
fn chain(s: &mut S, b: B, what: &str, make: impl Fn() -> Box<dyn crate::explore::System> + Send + Sync + 'static) {
    let n = b.pick(3000, 3000, 10_000);
    let seeds = vec![vec![op(hash::FILL, n, 1)], vec![op(hash::FILL, n, 1), op(hash::DRAIN, n / 2, 1)]];
    s.push(Spec::seeded(format!("{what}, every hash the same: every kind of operation on {n} and {} entries, on 64 KiB of stack", n / 2), 3, 1, seeds, make).stack(64 << 10));
}

fn hash_maps(s: &mut S, b: B) {
    hm_sizes::<T8, T12, Track, Ident, Same>(s, b);
    if b >= Quick {
        hm_sizes::<P4, P1, Def, Mult, Same>(s, b);
        hm_huge::<P4, P1, Track, Mult, Same>(s);
        s.push(Spec::seeded("HashMap, default functions, all constructors: every kind of operation at chosen sizes", 3, 1, sizes(b), || MapSys::<T12, A16, Track, _, _>::building(BIG)));
    }
    let n = b.pick(4, 7, 8);
    let l = HLim { u: n, len: n as usize, iters: b >= Quick };
    let m = HLim { u: n - 1, len: n as usize - 1, iters: false };
    hm::<T8, T12, Track, Ident, Same>(s, l);
    hm::<T4, A16, Track, Const, Same>(s, l);
    hm_building!(s, HLim { u: 5, len: 5, iters: false }, T8, T4, Track);
    if b >= Quick {
        hm::<T8, P1, Def, Mod2, Same>(s, l);
        hm::<A64, T8, Track, Mod3, Same>(s, m);
        hm::<T24, T8, Def, High, Same>(s, m);
        hm::<T8, T40, Track, Max, Same>(s, m);
        hm::<T8, T8, Track, Mult, Same>(s, m);
        hm::<Never8, T4, Track, HalfHash, HalfEq>(s, l);
        hm_building!(s, HLim { u: 5, len: 5, iters: false }, P1, P16, Def; A16, T8, Track; P16, P1, Track; T12, T24, Def);
    }
    chain(s, b, "HashMap", || MapSys::<T8, P1, Track, Const, Same>::new(BIG));
    hm_large::<T8, T4, Track, Ident, Same>(s, b);
    if b >= Quick {
        hm_large::<P4, P8, Def, Mult, Same>(s, b);
        hm_large::<T8, A16, Track, Mod3, Same>(s, if b == Deep { Quick } else { Light });
    }
    s.push(
        Spec::bfs("HashMap of 8 bytes to 12 bytes, tracked: freed blocks are used again at once", 0, || {
            MapSys::<T8, T12, Track, Mod2, Same>::new(HLim { u: 4, len: 4, iters: false })
        })
        .reuse(),
    );
    hm_all(s, b);
}

fn hash_sets(s: &mut S, b: B) {
    hs_sizes::<T8, Track, Ident, Same>(s, b);
    if b >= Quick {
        hs_sizes::<P4, Def, Mult, Same>(s, b);
        hs_huge::<T8, Def, Ident, Same>(s);
        s.push(Spec::seeded("HashSet, default functions, all constructors: every kind of operation at chosen sizes", 3, 1, sizes(b), || SetSys::<T12, Track, _, _>::building(BIG)));
    }
    let n = b.pick(4, 8, 10);
    let l = HLim { u: n, len: n as usize, iters: b >= Quick };
    hs::<T8, Track, Mod2, Same>(s, l);
    hs::<A16, Def, Ident, Same>(s, l);
    hs_building!(s, HLim { u: 5, len: 5, iters: b >= Quick }, T4, Track);
    if b >= Quick {
        hs::<T8, Track, Const, Same>(s, HLim { u: n - 1, ..l });
        hs::<A64, Track, Mod3, Same>(s, l);
        hs::<T24, Def, High, Same>(s, l);
        hs::<P1, Track, Max, Same>(s, l);
        hs::<Odd8, Track, HalfHash, HalfEq>(s, l);
        hs_building!(s, HLim { u: 6, len: 6, iters: true }, P16, Def; T12, Track; P1, Def);
    }
    chain(s, b, "HashSet", || SetSys::<T8, Track, Const, Same>::new(BIG));
    hs_large::<T8, Track, Ident, Same>(s, b);
    if b >= Quick {
        hs_large::<P16, Def, Mult, Same>(s, b);
    }
    s.push(
        Spec::bfs("HashSet of 8 bytes, tracked: freed blocks are used again at once", 0, || {
            SetSys::<T8, Track, Mod2, Same>::new(HLim { u: 4, len: 4, iters: false })
        })
        .reuse(),
    );
    hs_all(s, b);
}

fn hash_iterators(s: &mut S, b: B) {
    let n = b.pick(4, 7, 9);
    let l = HLim { u: n, len: n as usize, iters: true };
    hm::<T8, T12, Track, Ident, Same>(s, l);
    hm::<T8, A16, Def, Mod2, Same>(s, l);
    hm::<A64, P1, Track, Const, Same>(s, HLim { u: n - 1, ..l });
    hm::<T24, T8, Track, Mod3, Same>(s, l);
    hm_building!(s, HLim { u: 5, len: 5, iters: true }, P16, P1, Track; P1, P16, Def);
    hs::<T8, Track, Mod2, Same>(s, l);
    hs::<A64, Def, Ident, Same>(s, l);
    hs::<P1, Track, Mod3, Same>(s, l);
    hs::<T8, Track, High, Same>(s, l);
    hs_building!(s, HLim { u: 6, len: 6, iters: true }, A16, Def; P16, Track);
    let seeds = |b: B| -> Vec<Vec<Op>> { large_seeds(b) };
    s.push(Spec::seeded("HashMap of 8 bytes to 4 bytes: iterators converted at every point, around growth thresholds", 1, 1, seeds(if b == Deep { Quick } else { Light }), || {
        MapSys::<T8, T4, Track, Ident, Same>::new(HLim { u: 210, len: 280, iters: true })
    }));
    s.push(Spec::seeded("HashSet of 8 bytes: iterators converted at every point, around growth thresholds", 1, 1, seeds(if b == Deep { Quick } else { Light }), || {
        SetSys::<T8, Track, Mod3, Same>::new(HLim { u: 210, len: 280, iters: true })
    }));
}

fn hash_buckets(s: &mut S, b: B) {
    let n = b.pick(4, 8, 10);
    let l = HLim { u: n, len: n as usize, iters: false };
    hm::<T8, T12, Track, Ident, Same>(s, l);
    hm::<T8, A16, Def, Mod2, Same>(s, HLim { u: n - 1, ..l });
    hm::<T8, T8, Track, Mult, Same>(s, HLim { u: n - 1, ..l });
    hs::<T8, Track, Max, Same>(s, l);
    hs::<T24, Def, High, Same>(s, l);
    hs::<T4, Track, Const, Same>(s, HLim { u: n - 1, ..l });
    hm_large::<T8, T4, Track, Ident, Same>(s, b);
    hm_large::<P4, P8, Def, Mult, Same>(s, b);
    hs_large::<P4, Def, Max, Same>(s, b);
    let (max, step) = b.pick((0, 1), (3000, 250), (60_000, 5_000));
    let seeds = (1..=max / step).map(|i| vec![op(hash::FILL, i * step, 1)]).collect();
    s.push(Spec::seeded(format!("HashSet grown insert by insert to {max} entries"), 1, 1, seeds, move || {
        SetSys::<P4, Track, Mult, Same>::new(HLim { u: max, len: max as usize + 2, iters: false })
    }));
}

// ---- vector maps

fn vm<K: Elem + PartialOrd, V: Elem, A: TestAlloc, C: vmap::Cmp<K>>(s: &mut S, u: u32, cap: usize) {
    s.push(Spec::bfs(
        format!("VectorMap of {} to {}, {}, {}: every state over {u} keys", K::NAME, V::NAME, C::NAME, A::NAME),
        0,
        move || vmap::VMapSys::<K, V, A, C>::new(u, cap),
    ));
}

fn vector_maps(s: &mut S, b: B) {
    use vmap::*;
    let u = b.pick(5, 9, 11);
    s.push(Spec::bfs(format!("VectorMap of 8 bytes to 12 bytes, tracked, Less, all constructors: every state over {u} keys"), 0, move || {
        VMapSys::<T8, T12, Track, Less<T8>>::building(u, 16)
    }));
    vm::<T8, A16, Def, Greater<T8>>(s, u + 1, 16);
    if b >= Quick {
        vm::<P1, A64, Track, Greater<P1>>(s, u, 16);
        vm::<A64, P1, Def, Less<A64>>(s, u, 16);
        vm::<Never8, T12, Track, Half>(s, u + 1, 16);
        vm::<Odd8, T12, Track, Rot>(s, u, 16);
        vm::<T8, T4, Track, EvenOdd>(s, u, 16);
        vm::<Always8, T24, Def, Third>(s, u + 1, 16);
        vm::<P16, T8, Track, Val>(s, u, 16);
        let seeds = [15u32, 16, 17, 31, 32, 33, 64, 65, 100].iter().flat_map(|&n| [vec![op(FILL, n, 1)], vec![op(FILL, n, 7)], vec![op(FILL, n, 97)]]).collect();
        s.push(Spec::seeded("VectorMap of 8 bytes to 12 bytes: up to 100 entries, filled in three orders", 1, 1, seeds, || {
            VMapSys::<T8, T12, Track, Less<T8>>::building(100, 256)
        }));
    }
    if b >= Quick {
        let seeds = |max: u32| -> Vec<Vec<Op>> { lengths(max).into_iter().flat_map(|n| [1u32, 7, 4561, 5002].map(|st| vec![op(FILL, n, st)])).collect() };
        let max = b.pick(0, 2100, 4500);
        s.push(Spec::seeded(format!("VectorMap of 8 bytes to 12 bytes, all constructors: every kind of operation at chosen sizes up to {max}"), 3, 1, seeds(max), || {
            VMapSys::<T8, T12, Track, Less<T8>>::building(5003, 1 << 20)
        }));
        let huge = vec![vec![op(FILL, HUGE, 1)]];
        s.push(Spec::seeded("VectorMap of 8 bytes to 12 bytes, all constructors: every kind of operation beyond 2^16 entries", 3, 1, huge, || {
            VMapSys::<T8, T12, Track, Less<T8>>::building(HUGE + 3, 1 << 20)
        }));
        s.push(Spec::seeded("VectorMap of 4 bytes to 1 byte, Greater: every kind of operation at chosen sizes up to 600", 3, 1, seeds(600), || {
            VMapSys::<P4, P1, Def, Greater<P4>>::new(5003, 1 << 20)
        }));
        s.push(Spec::seeded("VectorMap, halves: every kind of operation at chosen sizes up to 300", 3, 1, seeds(300), || {
            VMapSys::<Never8, A64, Track, Half>::new(5003, 1 << 20)
        }));
    }
    let k = b.pick(3, 4, 5);
    s.push(Spec::all(format!("VectorMap of 8 bytes to 12 bytes: all histories of {k} operations over 3 keys, unmerged"), 0, k, || {
        VMapSys::<T8, T12, Track, Less<T8>>::new(3, 8)
    }));
}

// ---- trees

fn tr<K: Elem + PartialEq, V: Elem, C: vmap::Cmp<K>, T: tree::Tree<K, V>>(s: &mut S, n: usize, orders: u32) {
    let sh = tree::shapes(1, n);
    s.push(Spec::bfs(
        format!("{}: all {} red-black trees of up to {n} nodes", tree::TreeSys::<K, V, C, T>::name(), sh.len()),
        0,
        move || tree::TreeSys::<K, V, C, T>::new(sh.clone(), orders),
    ).stack(256 << 10));
}

fn tr_large<K: Elem + PartialEq, V: Elem, C: vmap::Cmp<K>, T: tree::Tree<K, V>>(s: &mut S, max: u32, orders: u32) {
    let sh = tree::large_shapes(max as usize, &lengths(max));
    let mut seeds = vec![];
    for i in 0..sh.len() {
        for o in 0..orders {
            seeds.push(vec![op(tree::BUILD, i as u32, o)]);
        }
    }
    s.push(Spec::seeded(
        format!("{}: all histories of two operations from {} chosen red-black trees of up to {max} nodes", tree::TreeSys::<K, V, C, T>::name(), sh.len()),
        3,
        2,
        seeds,
        move || tree::TreeSys::<K, V, C, T>::new(sh.clone(), orders),
    ));
}
fn tr_huge<K: Elem + PartialEq, V: Elem, C: vmap::Cmp<K>, T: tree::Tree<K, V>>(s: &mut S) {
    let sh = tree::huge_shapes(HUGE as usize);
    let seeds = (0..sh.len() as u32).map(|i| vec![op(tree::BUILD, i, 0)]).collect();
    s.push(Spec::seeded(
        format!("{}: every kind of operation on {} red-black trees of more than 2^16 nodes", tree::TreeSys::<K, V, C, T>::name(), sh.len()),
        3,
        1,
        seeds,
        move || tree::TreeSys::<K, V, C, T>::new(sh.clone(), 1),
    ));
}
/// A pool filled to its last node.
#[cfg(feature = "hooks")]
fn tr_full<K: Elem + PartialEq, V: Elem, C: vmap::Cmp<K>, T: tree::Tree<K, V>>(s: &mut S, n: u32) {
    let sh: Vec<tree::Shape> = tree::large_shapes(n as usize, &[n - 1, n]).iter().filter(|s: &&tree::Shape| s.n + 1 >= n as usize).cloned().collect();
    let sh = std::sync::Arc::new(sh);
    let seeds = (0..sh.len() as u32).map(|i| vec![op(tree::BUILD, i, 0)]).collect();
    s.push(Spec::seeded(format!("{}: trees of all {n} nodes of the pool and one fewer", tree::TreeSys::<K, V, C, T>::name()), 3, 1, seeds, move || tree::TreeSys::<K, V, C, T>::new(sh.clone(), 1)));
}
fn trees(s: &mut S, b: B) {
    use eastl_rs::{Map, Set};
    use vmap::*;
    let n = b.pick(7, 13, 16);
    let m = b.pick(5, 10, 13);
    tr_large::<T8, A16, Less<T8>, Map<T8, A16, Track, Less<T8>>>(s, b.long().pick(0, 4200, 70_000), 1);
    tr_large::<A64, (), Greater<A64>, Set<A64, Def, Greater<A64>>>(s, b.long().pick(0, 1030, 20_000), 1);
    tr::<T8, A16, Less<T8>, Map<T8, A16, Track, Less<T8>>>(s, n, 1);
    tr::<A64, (), Greater<A64>, Set<A64, Def, Greater<A64>>>(s, m, 1);
    tr_huge::<T8, A16, Less<T8>, Map<T8, A16, Track, Less<T8>>>(s);
    tr_huge::<P4, (), Greater<P4>, Set<P4, Def, Greater<P4>>>(s);
    if b >= Quick {
        tr::<P1, A64, Less<P1>, Map<P1, A64, Def, Less<P1>>>(s, m, 1);
        tr::<P16, T4, Greater<P16>, Map<P16, T4, Track, Greater<P16>>>(s, m, 1);
        tr::<T24, P1, Less<T24>, Map<T24, P1, Track, Less<T24>>>(s, m, 1);
        tr::<T4, T4, Less<T4>, Map<T4, T4, Def, Less<T4>>>(s, m, 1);
        tr::<Odd8, P1, Rot, Map<Odd8, P1, Def, Rot>>(s, m, 1);
        tr::<Never8, (), Half, Set<Never8, Track, Half>>(s, m, 1);
        tr::<T8, (), Less<T8>, Set<T8, Track, Less<T8>>>(s, n, 1);
        tr::<P1, (), Greater<P1>, Set<P1, Track, Greater<P1>>>(s, m, 1);
    }
}

#[cfg(feature = "hooks")]
fn fixed_trees(s: &mut S, b: B) {
    use eastl_rs::{DefaultFixedMapWithOverflow, FixedMap, FixedMapWithOverflow};
    let n = b.pick(4, 6, 8);
    let l = b.long().pick(0, 300, 5000);
    tr_large::<T8, T8, Less<T8>, FixedMap<T8, T8, 5000, Less<T8>>>(s, l.min(5000), 1);
    tr_large::<T8, A16, Greater<T8>, FixedMapWithOverflow<T8, A16, 33, Track, Greater<T8>>>(s, l, 3);
    tr_large::<T8, A64, Less<T8>, DefaultFixedMapWithOverflow<T8, A64, 100, Less<T8>>>(s, l, 1);
    tr::<T8, T8, Less<T8>, FixedMap<T8, T8, 5, Less<T8>>>(s, 5, 3);
    tr::<T8, A16, Greater<T8>, FixedMapWithOverflow<T8, A16, 3, Track, Greater<T8>>>(s, n, 3);
    tr::<T8, A64, Greater<T8>, DefaultFixedMapWithOverflow<T8, A64, 3, Greater<T8>>>(s, n, 3);
    tr_full::<T8, T8, Less<T8>, FixedMap<T8, T8, 5000, Less<T8>>>(s, 5000);
    if b >= Quick {
        tr::<P1, P1, Less<P1>, FixedMap<P1, P1, 6, Less<P1>>>(s, 6, 3);
        tr::<T8, T24, Less<T8>, FixedMapWithOverflow<T8, T24, 1, Track, Less<T8>>>(s, n, 3);
        tr::<A64, P1, Less<A64>, FixedMapWithOverflow<A64, P1, 4, Track, Less<A64>>>(s, n, 3);
        tr::<T8, T4, Less<T8>, FixedMapWithOverflow<T8, T4, 5, Track, Less<T8>>>(s, n, 3);
    }
}

#[cfg(not(feature = "hooks"))]
fn fixed_trees(_: &mut S, _: B) {}

// ---- pools

#[cfg(not(feature = "hooks"))]
fn pools(_: &mut S, _: B) {
    eprintln!("the pools are private; this check needs the hooks");
    std::process::exit(2)
}

#[cfg(feature = "hooks")]
fn pools(s: &mut S, b: B) {
    use eastl_rs::verif_hooks::*;
    use pool::*;
    fn one<P: Pool>(s: &mut S, nodes: usize, over: usize) {
        s.push(Spec::bfs(
            format!("{}: blocks of every length up to {nodes} nodes, every misalignment, every order of requests and returns", PoolSys::<P>::name()),
            0,
            move || PoolSys::<P>::new(nodes, over),
        ));
    }
    one::<FixedPool<N8>>(s, b.pick(3, 4, 5), 1);
    one::<FixedPool<N24>>(s, b.pick(2, 3, 4), 1);
    one::<FixedPool<N40>>(s, b.pick(2, 3, 4), 1);
    one::<FixedPool<N16>>(s, b.pick(2, 3, 4), 1);
    one::<FixedPool<N48>>(s, b.pick(2, 2, 3), 1);
    one::<FixedPool<N64>>(s, b.pick(2, 3, 3), 1);
    one::<FixedPool<N128>>(s, b.pick(2, 2, 3), 1);
    one::<FixedPoolWithOverflow<N8, Adjacent>>(s, b.pick(2, 3, 4), 2);
    one::<FixedPoolWithOverflow<N16, Adjacent>>(s, b.pick(2, 3, 3), 3);
    one::<FixedPoolWithOverflow<N24, Adjacent>>(s, b.pick(2, 3, 3), 3);
    one::<FixedPoolWithOverflow<N64, Adjacent>>(s, 2, 2);
    // one after another, as they share the addresses
    s.push(Spec::cases("overflow nodes at every distance from the pool up to 2^45 bytes, every order of returns", 1, 1, |_, _| {
        far::<N8>() + far::<N24>() + far::<N16>() + far::<N64>()
    }));
}

// ---- panics

fn faults(s: &mut S, b: B) {
    use eastl_rs::{Map, Set};
    use fault::*;
    use vmap::{Half, Rot, Val};
    let (f, d) = b.pick((1, 2), (2, 4), (3, 5));
    fn one<V: Victim>(s: &mut S, what: &str, f: usize, d: usize) {
        s.push(Spec::bfs(
            format!("{what}: {f} operation(s) cut short at every call into caller-supplied code, {d} in all, from every size"),
            0,
            move || FaultSys::<V>::new(f, d),
        ));
    }
    one::<VecVictim<T8>>(s, "Vector of 8 bytes", f, d);
    one::<VecVictim<A64>>(s, "Vector of 64 bytes", f, d);
    one::<FixedVecVictim<T8, 4>>(s, "FixedVector of 4 x 8 bytes", f, d);
    one::<FixedVecVictim<A16, 2>>(s, "FixedVector of 2 x 16 bytes", f, d);
    one::<DequeVictim<T40>>(s, "Deque of 40 bytes", f, d);
    one::<ListVictim<T8, list::Plain<T8, Track>>>(s, "List of 8 bytes", f, d);
    one::<ListVictim<T8, eastl_rs::FixedList<T8, 3, Track>>>(s, "FixedList of 3 x 8 bytes", f, d);
    one::<MapVictim<T8, A16, Ident, Same>>(s, "HashMap, hash: the value", f, d);
    one::<MapVictim<T8, A16, Const, Same>>(s, "HashMap, hash: constant", f, d);
    one::<MapVictim<T8, A16, HalfHash, HalfEq>>(s, "HashMap, value / 2", f, d);
    one::<SetVictim<T8, Mod2, Same>>(s, "HashSet, hash: modulo 2", f, d);
    one::<SetVictim<T8, Const, Same>>(s, "HashSet, hash: constant", f, d);
    one::<CollectVictim>(s, "collecting into every container", 1, 1);
    one::<VMapVictim<T8, A16, Val>>(s, "VectorMap, own less", f, d);
    one::<VMapVictim<T8, A16, Half>>(s, "VectorMap, value / 2", f, d);
    one::<VMapVictim<T8, A16, Rot>>(s, "VectorMap, rotated", f, d);
    one::<StrVictim>(s, "String", f, d);
    fn cut<K: Elem + PartialEq, V: Elem, C: vmap::Cmp<K>, T: tree::Tree<K, V>>(s: &mut S, n: usize) {
        let sh = tree::shapes(1, n);
        s.push(Spec::bfs(
            format!("{}: every lookup cut short at every comparison, trees of up to {n} nodes", tree::TreeSys::<K, V, C, T>::name()),
            1,
            move || tree::TreeSys::<K, V, C, T>::new(sh.clone(), 1),
        ));
    }
    cut::<T8, A16, Rot, Map<T8, A16, Track, Rot>>(s, b.pick(5, 9, 12));
    cut::<T8, (), Half, Set<T8, Track, Half>>(s, b.pick(5, 7, 10));
    #[cfg(feature = "hooks")]
    cut::<T8, T8, Less<T8>, eastl_rs::FixedMap<T8, T8, 4, Less<T8>>>(s, 4);
    // large sizes, and operations on many elements
    fn many<V: Victim>(s: &mut S, what: &str, sizes: &'static [u32], d: usize) {
        s.push(Spec::bfs(
            format!("{what}: an operation on up to 257 elements cut short at every call into caller-supplied code, {d} in all, from sizes up to {}", sizes[sizes.len() - 1]),
            0,
            move || FaultSys::<V>::large(sizes, d),
        ));
    }
    const SIZES: &[u32] = &[0, 1, 11, 12, 16, 17, 32, 33, 64, 65, 129, 257];
    const FEW: &[u32] = &[11, 12, 13, 16, 17, 33, 46, 47];
    let d = b.pick(1, 1, 2);
    many::<VecVictim<T8>>(s, "Vector of 8 bytes", SIZES, d);
    many::<VecVictim<A64>>(s, "Vector of 64 bytes", SIZES, d);
    many::<FixedVecVictim<T8, 16>>(s, "FixedVector of 16 x 8 bytes", SIZES, d);
    many::<FixedVecVictim<T12, 64>>(s, "FixedVector of 64 x 12 bytes", SIZES, d);
    many::<DequeVictim<T40>>(s, "Deque of 40 bytes", &[0, 1], d);
    many::<ListVictim<T8, list::Plain<T8, Track>>>(s, "List of 8 bytes", SIZES, d);
    many::<ListVictim<T8, eastl_rs::FixedList<T8, 16, Track>>>(s, "FixedList of 16 x 8 bytes", SIZES, d);
    many::<MapVictim<T8, A16, Ident, Same>>(s, "HashMap, hash: the value", FEW, d);
    many::<MapVictim<T8, A16, Ident, Same>>(s, "HashMap, hash: the value", &[96, 97, 256, 257], 1);
    many::<MapVictim<T8, A16, HalfHash, HalfEq>>(s, "HashMap, value / 2", FEW, d);
    many::<MapVictim<T8, A16, Const, Same>>(s, "HashMap, hash: constant", FEW, d);
    many::<SetVictim<T8, Mod2, Same>>(s, "HashSet, hash: modulo 2", FEW, d);
    many::<CollectVictim>(s, "collecting into every container", &[0], 1);
    many::<VMapVictim<T8, A16, Val>>(s, "VectorMap, own less", SIZES, d);
    many::<VMapVictim<T8, A16, Half>>(s, "VectorMap, value / 2", SIZES, d);
    many::<StrVictim>(s, "String", &[0, 15, 16, 64, 257], d);
    // states are merged by what they show; this is the same unmerged
    let (f, d) = b.pick((1, 1), (1, 2), (2, 3));
    fn all<V: Victim>(s: &mut S, what: &str, f: usize, d: usize) {
        s.push(Spec::all(format!("{what}: {f} operation(s) cut short, {d} in all, unmerged"), 0, d + 1, move || FaultSys::<V>::new(f, d)));
    }
    all::<VecVictim<T8>>(s, "Vector of 8 bytes", f, d);
    all::<DequeVictim<T40>>(s, "Deque of 40 bytes", f, d);
    all::<MapVictim<T8, A16, Const, Same>>(s, "HashMap, hash: constant", f, d);
    all::<SetVictim<T8, Mod2, Same>>(s, "HashSet, hash: modulo 2", f, d);
    all::<VMapVictim<T8, A16, Half>>(s, "VectorMap, value / 2", f, d);
}

// ---- destructors that panic

fn destructors(s: &mut S, b: B) {
    use eastl_rs::{Map, Set};
    use fault::*;
    use vmap::{Half, Val};
    let (f, d) = b.pick((1, 2), (1, 2), (2, 3));
    fn one<V: Victim>(s: &mut S, what: &str, f: usize, d: usize) {
        s.push(Spec::all(
            format!("{what}: {f} operation(s) with a destructor that panics, whichever it is, {d} in all, from every size"),
            0,
            d + 1,
            move || FaultSys::<V>::destructors(f, d),
        ));
    }
    one::<VecVictim<T8>>(s, "Vector of 8 bytes", f, d);
    one::<VecVictim<A64>>(s, "Vector of 64 bytes", f, d);
    one::<FixedVecVictim<T8, 4>>(s, "FixedVector of 4 x 8 bytes", f, d);
    one::<FixedVecVictim<A16, 2>>(s, "FixedVector of 2 x 16 bytes", f, d);
    one::<DequeVictim<T40>>(s, "Deque of 40 bytes", f, d);
    one::<DequeVictim<T8>>(s, "Deque of 8 bytes", f, d);
    one::<ListVictim<T8, list::Plain<T8, Track>>>(s, "List of 8 bytes", f, d);
    one::<ListVictim<T8, eastl_rs::FixedList<T8, 3, Track>>>(s, "FixedList of 3 x 8 bytes", f, d);
    one::<MapVictim<T8, A16, Ident, Same>>(s, "HashMap, hash: the value", f, d.min(2));
    one::<MapVictim<T8, A16, Const, Same>>(s, "HashMap, hash: constant", f, d.min(2));
    one::<SetVictim<T8, Mod2, Same>>(s, "HashSet, hash: modulo 2", f, d);
    one::<SetVictim<T8, Const, Same>>(s, "HashSet, hash: constant", f, d);
    one::<CollectVictim>(s, "collecting into every container", 1, 1);
    one::<VMapVictim<T8, A16, Val>>(s, "VectorMap, own less", f, d.min(2));
    one::<VMapVictim<T8, A16, Half>>(s, "VectorMap, value / 2", f, d.min(2));
    fn many<V: Victim>(s: &mut S, what: &str, sizes: &'static [u32]) {
        s.push(Spec::bfs(
            format!("{what}: an operation on up to 257 elements with a destructor that panics, whichever it is, from sizes up to {}", sizes[sizes.len() - 1]),
            0,
            move || FaultSys::<V>::destructors_large(sizes, 1),
        ));
    }
    const SIZES: &[u32] = &[11, 12, 16, 17, 33, 65, 129];
    many::<VecVictim<T8>>(s, "Vector of 8 bytes", SIZES);
    many::<FixedVecVictim<T8, 16>>(s, "FixedVector of 16 x 8 bytes", SIZES);
    many::<DequeVictim<T40>>(s, "Deque of 40 bytes", &[0, 17, 33, 65]);
    many::<ListVictim<T8, list::Plain<T8, Track>>>(s, "List of 8 bytes", SIZES);
    many::<ListVictim<T8, eastl_rs::FixedList<T8, 16, Track>>>(s, "FixedList of 16 x 8 bytes", SIZES);
    many::<MapVictim<T8, A16, Ident, Same>>(s, "HashMap, hash: the value", &[11, 12, 13, 17, 33, 47]);
    many::<MapVictim<T8, A16, Const, Same>>(s, "HashMap, hash: constant", &[11, 12, 17]);
    many::<SetVictim<T8, Mod2, Same>>(s, "HashSet, hash: modulo 2", &[11, 12, 13, 17, 33]);
    many::<VMapVictim<T8, A16, Val>>(s, "VectorMap, own less", &[11, 12, 17, 33]);
    fn torn<K: Elem + PartialEq, V: Elem, C: vmap::Cmp<K>, T: tree::Tree<K, V>>(s: &mut S, n: usize) {
        let sh = tree::shapes(1, n);
        s.push(Spec::cases(
            format!("{}: clearing and dropping trees of up to {n} nodes with a destructor that panics, whichever it is", tree::TreeSys::<K, V, C, T>::name()),
            sh.len() as u64,
            8,
            move |lo, hi| tree::TreeSys::<K, V, C, T>::torn(&sh, lo as usize, hi as usize),
        ));
    }
    torn::<T8, A16, Half, Map<T8, A16, Track, Half>>(s, b.pick(5, 9, 12));
    torn::<T8, (), Val, Set<T8, Track, Val>>(s, b.pick(5, 8, 10));
    #[cfg(feature = "hooks")]
    {
        torn::<T8, T8, Less<T8>, eastl_rs::FixedMap<T8, T8, 4, Less<T8>>>(s, 4);
        torn::<T8, T8, Less<T8>, eastl_rs::FixedMapWithOverflow<T8, T8, 3, Track, Less<T8>>>(s, b.pick(5, 7, 8));
    }
}

// ---- allocators that panic

fn refusals(s: &mut S, b: B) {
    use fault::*;
    use vmap::{Half, Val};
    let (f, d) = b.pick((1, 2), (2, 3), (3, 4));
    fn one<V: Victim>(s: &mut S, what: &str, f: usize, d: usize) {
        s.push(Spec::bfs(
            format!("{what}: {f} operation(s) with an allocator that panics, at every request, {d} in all, from every size"),
            0,
            move || FaultSys::<V>::refusals(f, d),
        ));
    }
    one::<VecVictim<T8>>(s, "Vector of 8 bytes", f, d);
    one::<VecVictim<A64>>(s, "Vector of 64 bytes", f, d);
    one::<FixedVecVictim<T8, 4>>(s, "FixedVector of 4 x 8 bytes", f, d);
    one::<FixedVecVictim<A16, 2>>(s, "FixedVector of 2 x 16 bytes", f, d);
    one::<DequeVictim<T40>>(s, "Deque of 40 bytes", f, d);
    one::<DequeVictim<T8>>(s, "Deque of 8 bytes", f, d);
    one::<ListVictim<T8, list::Plain<T8, Track>>>(s, "List of 8 bytes", f, d);
    one::<ListVictim<T8, eastl_rs::FixedList<T8, 3, Track>>>(s, "FixedList of 3 x 8 bytes", f, d);
    one::<MapVictim<T8, A16, Ident, Same>>(s, "HashMap, hash: the value", f, d);
    one::<MapVictim<T8, A16, Const, Same>>(s, "HashMap, hash: constant", f, d);
    one::<SetVictim<T8, Mod2, Same>>(s, "HashSet, hash: modulo 2", f, d);
    one::<SetVictim<T8, Ident, Same>>(s, "HashSet, hash: the value", f, d);
    one::<CollectVictim>(s, "collecting into every container", 1, 1);
    one::<VMapVictim<T8, A16, Val>>(s, "VectorMap, own less", f, d);
    one::<VMapVictim<T8, A16, Half>>(s, "VectorMap, value / 2", f, d);
    one::<StrVictim>(s, "String", f, d);
    fn all<V: Victim>(s: &mut S, what: &str, f: usize, d: usize) {
        s.push(Spec::all(
            format!("{what}: all histories of {f} operation(s) with an allocator that panics and {d} in all, unmerged"),
            0,
            d + 1,
            move || FaultSys::<V>::refusals(f, d),
        ));
    }
    let (f, d) = b.pick((1, 2), (2, 2), (2, 3));
    all::<VecVictim<T8>>(s, "Vector of 8 bytes", f, d);
    all::<FixedVecVictim<T8, 4>>(s, "FixedVector of 4 x 8 bytes", f, d);
    all::<DequeVictim<T40>>(s, "Deque of 40 bytes", f, d);
    all::<ListVictim<T8, list::Plain<T8, Track>>>(s, "List of 8 bytes", f, d);
    all::<ListVictim<T8, eastl_rs::FixedList<T8, 3, Track>>>(s, "FixedList of 3 x 8 bytes", f, d);
    all::<MapVictim<T8, A16, Ident, Same>>(s, "HashMap, hash: the value", f, d);
    all::<SetVictim<T8, Mod2, Same>>(s, "HashSet, hash: modulo 2", f, d);
    all::<VMapVictim<T8, A16, Val>>(s, "VectorMap, own less", f, d);
    all::<StrVictim>(s, "String", f, d);
    fn many<V: Victim>(s: &mut S, what: &str, sizes: &'static [u32], d: usize) {
        s.push(Spec::bfs(
            format!("{what}: an operation on up to 257 elements with an allocator that panics, at every request, {d} in all, from sizes up to {}", sizes[sizes.len() - 1]),
            0,
            move || FaultSys::<V>::refusals_large(sizes, d),
        ));
    }
    const SIZES: &[u32] = &[11, 12, 16, 17, 33, 65, 129, 256];
    let d = b.pick(1, 2, 3);
    many::<VecVictim<T8>>(s, "Vector of 8 bytes", SIZES, d);
    many::<FixedVecVictim<T8, 16>>(s, "FixedVector of 16 x 8 bytes", SIZES, d);
    many::<DequeVictim<T40>>(s, "Deque of 40 bytes", &[0, 1, 12, 15, 16, 17, 33, 65], d);
    many::<ListVictim<T8, list::Plain<T8, Track>>>(s, "List of 8 bytes", SIZES, d);
    many::<ListVictim<T8, eastl_rs::FixedList<T8, 16, Track>>>(s, "FixedList of 16 x 8 bytes", SIZES, d);
    many::<MapVictim<T8, A16, Ident, Same>>(s, "HashMap, hash: the value", &[5, 11, 12, 13, 23, 29, 33, 47], d);
    many::<MapVictim<T8, A16, Const, Same>>(s, "HashMap, hash: constant", &[11, 12, 13], d);
    many::<SetVictim<T8, Mod2, Same>>(s, "HashSet, hash: modulo 2", &[5, 11, 12, 13, 23, 29], d);
    many::<VMapVictim<T8, A16, Val>>(s, "VectorMap, own less", &[8, 16, 17, 32, 33], d);
    many::<StrVictim>(s, "String", &[1, 5, 60], d);
    many::<CollectVictim>(s, "collecting into every container", &[0], 1);
}

// ---- the container's own functions

fn custom_functions(s: &mut S, b: B) {
    use eastl_rs::{Map, Set};
    use vmap::*;
    let n = b.pick(4, 7, 9);
    let l = HLim { u: n, len: n as usize, iters: false };
    hm::<Never8, T4, Track, HalfHash, HalfEq>(s, l);
    hm::<Always8, T12, Track, Ident, Same>(s, l);
    hm::<Odd8, T8, Def, ThirdHash, ThirdEq>(s, HLim { u: 7, ..l });
    hm::<Always8, T8, Track, Const, Same>(s, HLim { u: n - 1, ..l });
    hm::<Never8, T8, Track, Const, HalfEq>(s, l);
    hs::<Never8, Track, HalfHash, HalfEq>(s, l);
    hs::<Always8, Track, Mod2, Same>(s, l);
    hs::<Odd8, Def, ThirdHash, ThirdEq>(s, HLim { u: 7, ..l });
    hs::<Always8, Track, Const, HalfEq>(s, l);
    hm_large::<Never8, T8, Track, Mult, Same>(s, if b == Deep { Quick } else { Light });
    let u = b.pick(5, 8, 10);
    vm::<Never8, T12, Track, Half>(s, u + 1, 16);
    vm::<Always8, T12, Track, Val>(s, u, 16);
    vm::<Odd8, T12, Track, Rot>(s, u, 16);
    vm::<Always8, T24, Def, Third>(s, u + 1, 16);
    vm::<Never8, T8, Def, EvenOdd>(s, u, 16);
    let m = b.pick(5, 8, 11);
    tr::<Odd8, P1, Rot, Map<Odd8, P1, Def, Rot>>(s, m, 1);
    tr::<Always8, T8, Val, Map<Always8, T8, Track, Val>>(s, m, 1);
    tr::<Never8, T8, Third, Map<Never8, T8, Track, Third>>(s, m, 1);
    tr::<Never8, (), Half, Set<Never8, Track, Half>>(s, m, 1);
    tr::<Odd8, (), EvenOdd, Set<Odd8, Track, EvenOdd>>(s, m, 1);
}

// ---- functions that contradict themselves

fn contradictions(s: &mut S, b: B) {
    use eastl_rs::equals::EqualTo;
    use eastl_rs::hash::DefaultHash;
    use eastl_rs::hash_map::HashMap;
    use eastl_rs::hash_set::HashSet;
    use eastl_rs::vector_map::VectorMap;
    use eastl_rs::{Map, Set};
    use unlawful::*;
    fn several<C: Asking>(s: &mut S, what: &str, max: usize, keys: u32) {
        s.push(Spec::bfs(format!("{}, {what}, {keys} key(s): every sequence of answers to every operation, up to {max} entries", C::name()), 0, move || AskSys::<C>::new(max, keys)));
    }
    fn one<C: Asking>(s: &mut S, what: &str, max: usize) {
        several::<C>(s, what, max, 1);
    }
    let n = b.pick(3, 7, 9);
    one::<HashMap<T8, A16, Track, AskHash, AskEq>>(s, "hash and equality contradicting themselves", n);
    several::<HashMap<T8, A16, Track, AskHash, hash::Same>>(s, "hash contradicting itself", b.pick(3, 4, 5), 2);
    several::<HashSet<T8, Track, AskHash, hash::Same>>(s, "hash contradicting itself", b.pick(3, 4, 5), 3);
    several::<HashMap<T8, A16, Track, hash::Ident, AskEq>>(s, "equality contradicting itself", b.pick(3, 4, 5), 3);
    one::<HashMap<T8, A16, Track, hash::Const, AskEq>>(s, "equality contradicting itself", n + 1);
    one::<HashMap<Ask8, A16, Track, DefaultHash<Ask8>, EqualTo<Ask8>>>(s, "default functions", n);
    one::<HashSet<T8, Track, AskHash, AskEq>>(s, "hash and equality contradicting themselves", n);
    one::<HashSet<Ask8, Track, DefaultHash<Ask8>, EqualTo<Ask8>>>(s, "default functions", n);
    let m = b.pick(5, 17, 40);
    one::<VectorMap<T8, A16, Track, AskLess>>(s, "comparator contradicting itself", m);
    one::<VectorMap<Ask8, A16, Track, Less<Ask8>>>(s, "default comparator", m);
    one::<AskTree<T8, A16, Map<T8, A16, Track, AskLess>>>(s, "comparator contradicting itself", TREE);
    one::<AskTree<Ask8, A16, Map<Ask8, A16, Track, Less<Ask8>>>>(s, "default comparator", TREE);
    one::<AskTree<T8, (), Set<T8, Track, AskLess>>>(s, "comparator contradicting itself", TREE);
    s.push(Spec::cases("every container made of or extended by sources with every kind of wrong hint, also going on after their end", SOURCES, 1, sources));
    s.push(Spec::cases("strings of texts that are another one at each look", FICKLE, 1, texts));
}

// ---- several readers

fn readers(s: &mut S, b: B) {
    use shared::{MapOf, SetOf, Shared, Subject};
    fn one<C: Subject>(s: &mut S, max: u32) {
        s.push(Spec::bfs(format!("{}: every reading operation in every state up to {max} and in large ones, in write-protected memory and with every other at each of its steps", C::name()), 0, move || {
            Shared::<C>::new(max)
        }));
    }
    use eastl_rs::deque::Deque;
    use eastl_rs::equals::EqualTo;
    use eastl_rs::fixed_list::FixedList;
    use eastl_rs::fixed_vector::FixedVector;
    use eastl_rs::hash::DefaultHash;
    use eastl_rs::hash_map::HashMap;
    use eastl_rs::hash_set::HashSet;
    use eastl_rs::list::List;
    use eastl_rs::queue::Queue;
    use eastl_rs::string::String as EString;
    use eastl_rs::vector::Vector;
    use eastl_rs::vector_map::VectorMap;
    let n = b.pick(4, 9, 16);
    one::<Vector<T8, Track>>(s, n);
    one::<Vector<A64, Track>>(s, n);
    one::<Vector<P1, Track>>(s, n);
    one::<FixedVector<T8, 3, Track>>(s, n);
    one::<FixedVector<P1, 2, Def>>(s, n);
    one::<EString<Track>>(s, b.pick(3, 5, 6));
    one::<Deque<'static, T32, Def>>(s, b.pick(8, 20, 36));
    one::<Deque<'static, P16, Track>>(s, b.pick(4, 9, 16));
    one::<Queue<'static, T32, Def>>(s, b.pick(8, 20, 36));
    one::<List<T8, Track>>(s, n);
    one::<List<P1, Def>>(s, n);
    one::<FixedList<T8, 3, Track>>(s, n);
    let k = b.pick(4, 7, 7);
    one::<HashMap<T8, A16, Track, hash::Ident, hash::Same>>(s, k);
    one::<HashMap<T8, T8, Def, hash::Mod2, hash::Same>>(s, k);
    one::<HashMap<P4, P16, Def, DefaultHash<P4>, EqualTo<P4>>>(s, k);
    one::<HashSet<T8, Track, hash::Mod3, hash::Same>>(s, k);
    one::<HashSet<P4, Def, DefaultHash<P4>, EqualTo<P4>>>(s, k);
    one::<VectorMap<T8, T16, Track, Less<T8>>>(s, b.pick(4, 7, 7));
    one::<VectorMap<P4, P1, Def, Less<P4>>>(s, b.pick(4, 7, 7));
    one::<MapOf<T8, A16, Track>>(s, 7);
    one::<SetOf<T8, Def>>(s, 7);
    #[cfg(feature = "hooks")]
    {
        use shared::TreeOf;
        one::<TreeOf<T8, T8, eastl_rs::FixedMap<T8, T8, 4, Less<T8>>>>(s, 4);
        one::<TreeOf<T8, T8, eastl_rs::FixedMapWithOverflow<T8, T8, 3, Track, Less<T8>>>>(s, 7);
    }
}
