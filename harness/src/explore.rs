//! The explorer: breadth-first search over canonical states of the real container (re-executing the
//! history that leads to a state), or all histories up to a depth without merging states.

use crate::rt::{self, cx, Caught, Kind, Violation};
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(C)]
pub struct Op {
    pub c: u32,
    pub a: u32,
    pub b: u32,
}
pub const fn op(c: u32, a: u32, b: u32) -> Op {
    Op { c, a, b }
}

pub trait System {
    /// The operations to try from the current state. `lvl` selects the alphabet.
    fn ops(&self, lvl: u8, out: &mut Vec<Op>);
    /// Runs one operation on the container and on the reference and compares what it returned; if
    /// `full`, also compares everything else that can be observed.
    fn step(&mut self, op: Op, full: bool);
    /// The canonical state of the container.
    fn key(&self, out: &mut Vec<u8>);
    /// Drops the container.
    fn end(self: Box<Self>);
    fn show(&self, op: Op) -> String;
}

pub type Make = Arc<dyn Fn() -> Box<dyn System> + Send + Sync>;
pub type CaseFn = Arc<dyn Fn(u64, u64) -> u64 + Send + Sync>;

pub enum Body {
    Sys { make: Make, seeds: Vec<Vec<Op>>, depth: usize, dedupe: bool, lvl: u8, reuse: bool },
    /// cases `0..count`, run in chunks; the function returns how many evaluations it made
    Cases { count: u64, chunk: u64, f: CaseFn },
}

pub struct Spec {
    pub name: String,
    pub body: Body,
    pub kinds: Option<Vec<Kind>>,
    /// bytes of stack for an execution
    pub stack: usize,
}

const STACK: usize = 64 << 20;

impl Spec {
    pub fn bfs(name: impl Into<String>, lvl: u8, make: impl Fn() -> Box<dyn System> + Send + Sync + 'static) -> Spec {
        Spec {
            name: name.into(),
            body: Body::Sys { make: Arc::new(make), seeds: vec![vec![]], depth: usize::MAX, dedupe: true, lvl, reuse: false },
            kinds: None,
            stack: STACK,
        }
    }
    pub fn all(name: impl Into<String>, lvl: u8, depth: usize, make: impl Fn() -> Box<dyn System> + Send + Sync + 'static) -> Spec {
        Spec {
            name: name.into(),
            body: Body::Sys { make: Arc::new(make), seeds: vec![vec![]], depth, dedupe: false, lvl, reuse: false },
            kinds: None,
            stack: STACK,
        }
    }
    pub fn seeded(name: impl Into<String>, lvl: u8, depth: usize, seeds: Vec<Vec<Op>>, make: impl Fn() -> Box<dyn System> + Send + Sync + 'static) -> Spec {
        Spec {
            name: name.into(),
            body: Body::Sys { make: Arc::new(make), seeds, depth, dedupe: false, lvl, reuse: false },
            kinds: None,
            stack: STACK,
        }
    }
    pub fn cases(name: impl Into<String>, count: u64, chunk: u64, f: impl Fn(u64, u64) -> u64 + Send + Sync + 'static) -> Spec {
        Spec { name: name.into(), body: Body::Cases { count, chunk: chunk.max(1), f: Arc::new(f) }, kinds: None, stack: STACK }
    }
    /// Runs everything on a stack this small.
    pub fn stack(mut self, bytes: usize) -> Spec {
        self.stack = bytes;
        self
    }
    pub fn depth(mut self, d: usize) -> Spec {
        if let Body::Sys { depth, .. } = &mut self.body {
            *depth = d;
        }
        self
    }
    pub fn reuse(mut self) -> Spec {
        if let Body::Sys { reuse, .. } = &mut self.body {
            *reuse = true;
        }
        self
    }
}

#[derive(Default, Clone)]
pub struct SpecReport {
    pub name: String,
    pub states: u64,
    pub transitions: u64,
    pub executions: u64,
    pub ops_executed: u64,
    pub max_depth: u64,
    pub complete: bool,
    pub wall_ms: u64,
    pub samples: Vec<String>,
    pub per_op: Vec<(u32, u64)>,
}

pub struct Found {
    pub spec: String,
    pub hist: Vec<Op>,
    pub shown: Vec<String>,
    pub violations: Vec<Violation>,
}

/// Where a worker thread notes what it is running, for the parent to read if the worker dies.
pub struct Slot {
    base: *mut u8,
}
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}
pub const SLOT_BYTES: usize = 1 << 20;
pub const SLOT_OPS: usize = (SLOT_BYTES - 64) / 12;

#[repr(C)]
pub struct SlotHead {
    pub seq: u64,
    pub busy: u32,
    pub spec: u32,
    pub len: u32,
    pub kind: u32,
    pub lo: u64,
    pub hi: u64,
}

impl Slot {
    pub fn at(base: *mut u8, i: usize) -> Slot {
        Slot { base: unsafe { base.add(i * SLOT_BYTES) } }
    }
    fn head(&self) -> *mut SlotHead {
        self.base.cast()
    }
    fn begin(&self, spec: usize, hist: &[Op]) {
        unsafe {
            let h = self.head();
            (*h).busy = 0;
            (*h).spec = spec as u32;
            (*h).kind = 0;
            let n = hist.len().min(SLOT_OPS);
            (*h).len = n as u32;
            std::ptr::copy_nonoverlapping(hist.as_ptr(), self.base.add(64).cast(), n);
            std::ptr::write_volatile(&mut (*h).seq, (*h).seq + 1);
            std::ptr::write_volatile(&mut (*h).busy, 1);
        }
    }
    fn begin_case(&self, spec: usize, lo: u64, hi: u64) {
        unsafe {
            let h = self.head();
            (*h).busy = 0;
            (*h).spec = spec as u32;
            (*h).kind = 1;
            (*h).lo = lo;
            (*h).hi = hi;
            std::ptr::write_volatile(&mut (*h).seq, (*h).seq + 1);
            std::ptr::write_volatile(&mut (*h).busy, 1);
        }
    }
    fn done(&self) {
        unsafe { std::ptr::write_volatile(&mut (*self.head()).busy, 0) }
    }
    pub fn read_head(&self) -> (SlotHead, ()) {
        unsafe { (std::ptr::read_volatile(self.head()), ()) }
    }
    pub fn read(&self) -> (SlotHead, Vec<Op>) {
        unsafe {
            let h = std::ptr::read_volatile(self.head());
            let n = (h.len as usize).min(SLOT_OPS);
            let mut v = vec![op(0, 0, 0); n];
            std::ptr::copy_nonoverlapping(self.base.add(64).cast(), v.as_mut_ptr(), n);
            (h, v)
        }
    }
}

pub struct Outcome {
    pub violations: Vec<Violation>,
    pub key: Vec<u8>,
    pub ops: Vec<Op>,
    pub ops_executed: u64,
}

/// Runs one history from the beginning, comparing everything after its last operation.
pub fn exec(make: &Make, hist: &[Op], reuse: bool, lvl: u8, want_ops: bool, want_key: bool, check_last: bool) -> Outcome {
    rt::reset(reuse);
    let before = cx().ops_executed;
    let mut key = Vec::new();
    let mut ops = Vec::new();
    let r = rt::catch(|| {
        let mut s = make();
        if hist.is_empty() && check_last {
            s.step(op(0, 0, 0), true);
        }
        for (i, &o) in hist.iter().enumerate() {
            s.step(o, check_last && i + 1 == hist.len());
        }
        cx().check_heap();
        if want_ops {
            s.ops(lvl, &mut ops);
        }
        if want_key {
            s.key(&mut key);
        }
        s.end();
    });
    match r {
        Caught::Ok(()) => cx().check_end(),
        Caught::Panicked(m) => rt::violate(Kind::Panic, format!("unexpected panic: {m}")),
        Caught::Refused(s, a) => rt::violate(Kind::Alloc, format!("unreasonable request of {s} bytes aligned {a}")),
        Caught::Injected => rt::violate(Kind::Panic, "an injected panic escaped"),
    }
    let c = cx();
    c.tracking_global = 0;
    Outcome { violations: std::mem::take(&mut c.violations), key, ops, ops_executed: c.ops_executed - before }
}

pub struct Explorer<'a> {
    pub specs: &'a [Spec],
    pub kinds: &'a [Kind],
    pub threads: usize,
    pub slots: *mut u8,
    pub deadline: Instant,
}
unsafe impl Sync for Explorer<'_> {}

/// Waits for the threads by joining them: to drop their handles is to detach them, and glibc's
/// pthread_detach reads the thread's memory after giving up its claim on it, when the thread may
/// have ended and taken its stack along.
fn finish(team: Vec<std::thread::ScopedJoinHandle<'_, ()>>) {
    for t in team {
        if let Err(p) = t.join() {
            std::panic::resume_unwind(p);
        }
    }
}

struct Leave;
impl Drop for Leave {
    fn drop(&mut self) {
        rt::leave();
    }
}

fn hash128(b: &[u8]) -> u128 {
    let (mut a, mut c) = (0xcbf29ce484222325u64, 0x9E3779B97F4A7C15u64);
    for &x in b {
        a = (a ^ x as u64).wrapping_mul(0x100000001b3);
        c = (c.rotate_left(7) ^ x as u64).wrapping_mul(0xff51afd7ed558ccd);
        c ^= c >> 29;
    }
    ((a as u128) << 64) | c as u128
}

struct Node {
    parent: u32,
    seed: u32,
    op: Op,
}

impl Explorer<'_> {
    fn own(&self, spec: &Spec, v: &[Violation]) -> bool {
        let kinds = spec.kinds.as_deref().unwrap_or(self.kinds);
        v.iter().any(|v| kinds.contains(&v.kind) || matches!(v.kind, Kind::Panic | Kind::Crash | Kind::Hang))
    }

    pub fn run_spec(&self, idx: usize) -> (SpecReport, Option<Found>) {
        let t0 = Instant::now();
        let spec = &self.specs[idx];
        let (mut rep, found) = match &spec.body {
            Body::Sys { .. } => self.run_sys(idx),
            Body::Cases { .. } => self.run_cases(idx),
        };
        rep.name = spec.name.clone();
        rep.wall_ms = t0.elapsed().as_millis() as u64;
        (rep, found)
    }

    fn run_cases(&self, idx: usize) -> (SpecReport, Option<Found>) {
        let spec = &self.specs[idx];
        let Body::Cases { count, chunk, f } = &spec.body else { unreachable!() };
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let evals = AtomicU64::new(0);
        let chunks = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let found: Mutex<Option<(u64, Found)>> = Mutex::new(None);
        std::thread::scope(|s| {
            let mut team = Vec::new();
            for t in 0..self.threads {
                let (next, done, evals, chunks, stop, found) = (&next, &done, &evals, &chunks, &stop, &found);
                let slot = Slot::at(self.slots, t);
                let h = std::thread::Builder::new().stack_size(spec.stack).spawn_scoped(s, move || { let _l = Leave; loop {
                    let lo = next.fetch_add(*chunk, Relaxed);
                    if lo >= *count || stop.load(Relaxed) || Instant::now() > self.deadline {
                        break;
                    }
                    let hi = (lo + chunk).min(*count);
                    slot.begin_case(idx, lo, hi);
                    let (n, v) = run_case(f, lo, hi);
                    slot.done();
                    done.fetch_add(hi - lo, Relaxed);
                    evals.fetch_add(n, Relaxed);
                    chunks.fetch_add(1, Relaxed);
                    if self.own(spec, &v) {
                        stop.store(true, Relaxed);
                        let mut g = found.lock().unwrap();
                        if g.as_ref().is_none_or(|(l, _)| lo < *l) {
                            *g = Some((lo, Found {
                                spec: spec.name.clone(),
                                hist: vec![op(u32::MAX, lo as u32, (lo >> 32) as u32), op(u32::MAX, hi as u32, (hi >> 32) as u32)],
                                shown: vec![format!("cases {lo}..{hi}")],
                                violations: v,
                            }));
                        }
                    }
                }}).unwrap();
                team.push(h);
            }
            finish(team);
        });
        let states = done.into_inner();
        let rep = SpecReport {
            states,
            transitions: evals.into_inner(),
            executions: chunks.into_inner(),
            complete: states == *count,
            samples: vec![format!("cases 0..{count}")],
            ..Default::default()
        };
        (rep, found.into_inner().unwrap().map(|f| f.1))
    }

    fn run_sys(&self, idx: usize) -> (SpecReport, Option<Found>) {
        let spec = &self.specs[idx];
        let Body::Sys { make, seeds, depth, dedupe, lvl, reuse } = &spec.body else { unreachable!() };
        let mut nodes: Vec<Node> = Vec::new();
        let mut visited: HashSet<u128> = HashSet::new();
        let mut rep = SpecReport { complete: true, ..Default::default() };
        let mut found: Option<Found> = None;
        let per_op: Mutex<std::collections::BTreeMap<u32, u64>> = Mutex::new(Default::default());

        let hist_of = |nodes: &Vec<Node>, mut i: usize| -> Vec<Op> {
            let mut h = Vec::new();
            while nodes[i].parent != u32::MAX {
                h.push(nodes[i].op);
                i = nodes[i].parent as usize;
            }
            h.extend(seeds[nodes[i].seed as usize].iter().rev());
            h.reverse();
            h
        };

        // the seeds themselves
        let slot0 = Slot::at(self.slots, 0);
        let mut frontier: Vec<u32> = Vec::new();
        let roots: Vec<(usize, Outcome)> = {
            let next = AtomicUsize::new(0);
            let out: Mutex<Vec<(usize, Outcome)>> = Mutex::new(Vec::new());
            std::thread::scope(|s| {
                let mut team = Vec::new();
                for t in 0..self.threads.min(seeds.len()) {
                    let (next, out) = (&next, &out);
                    let slot = Slot::at(self.slots, t);
                    let h = std::thread::Builder::new().stack_size(spec.stack).spawn_scoped(s, move || { let _l = Leave; loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= seeds.len() || Instant::now() > self.deadline {
                            break;
                        }
                        slot.begin(idx, &seeds[i]);
                        let o = exec(make, &seeds[i], *reuse, *lvl, false, true, true);
                        slot.done();
                        out.lock().unwrap().push((i, o));
                    }}).unwrap();
                    team.push(h);
                }
                finish(team);
            });
            let mut v = out.into_inner().unwrap();
            v.sort_by_key(|(i, _)| *i);
            v
        };
        let _ = slot0;
        if roots.len() < seeds.len() {
            rep.complete = false;
        }
        for (i, o) in roots {
            rep.executions += 1;
            rep.ops_executed += o.ops_executed;
            if self.own(spec, &o.violations) {
                if found.is_none() {
                    found = Some(self.found(spec, make, seeds[i].clone(), o.violations));
                }
                continue;
            }
            let fresh = visited.insert(hash128(&o.key));
            if fresh || !*dedupe {
                nodes.push(Node { parent: u32::MAX, seed: i as u32, op: op(0, 0, 0) });
                frontier.push(nodes.len() as u32 - 1);
            }
        }
        let mut level = 0usize;
        while found.is_none() && !frontier.is_empty() && level < *depth {
            let last = level + 1 == *depth;
            let next = AtomicUsize::new(0);
            type Rec = (u32, u32, Op, u128);
            let results: Mutex<Vec<Rec>> = Mutex::new(Vec::new());
            let bad: Mutex<Vec<(u32, u32, Vec<Op>, Vec<Violation>)>> = Mutex::new(Vec::new());
            let (execs, trans, opsx, cut) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicBool::new(false));
            std::thread::scope(|s| {
                let mut team = Vec::new();
                for t in 0..self.threads {
                    let (next, results, bad, nodes, frontier) = (&next, &results, &bad, &nodes, &frontier);
                    let (execs, trans, opsx, cut, hist_of, per_op) = (&execs, &trans, &opsx, &cut, &hist_of, &per_op);
                    let slot = Slot::at(self.slots, t);
                    let h = std::thread::Builder::new().stack_size(spec.stack).spawn_scoped(s, move || {
                        let _l = Leave;
                        let mut local: Vec<Rec> = Vec::new();
                        let mut counts: std::collections::BTreeMap<u32, u64> = Default::default();
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= frontier.len() {
                                break;
                            }
                            if Instant::now() > self.deadline {
                                cut.store(true, Relaxed);
                                break;
                            }
                            let node = frontier[i];
                            let mut h = hist_of(nodes, node as usize);
                            slot.begin(idx, &h);
                            let o = exec(make, &h, *reuse, *lvl, true, false, false);
                            slot.done();
                            execs.fetch_add(1, Relaxed);
                            opsx.fetch_add(o.ops_executed, Relaxed);
                            for (k, &x) in o.ops.iter().enumerate() {
                                h.push(x);
                                slot.begin(idx, &h);
                                let r = exec(make, &h, *reuse, *lvl, false, true, true);
                                slot.done();
                                execs.fetch_add(1, Relaxed);
                                trans.fetch_add(1, Relaxed);
                                opsx.fetch_add(r.ops_executed, Relaxed);
                                *counts.entry(x.c).or_default() += 1;
                                if self.own(spec, &r.violations) {
                                    let mut b = bad.lock().unwrap();
                                    if b.len() < 64 {
                                        b.push((i as u32, k as u32, h.clone(), r.violations));
                                    }
                                } else {
                                    local.push((node, k as u32, x, hash128(&r.key)));
                                }
                                h.pop();
                                if Instant::now() > self.deadline {
                                    cut.store(true, Relaxed);
                                    break;
                                }
                            }
                        }
                        results.lock().unwrap().extend(local);
                        let mut g = per_op.lock().unwrap();
                        for (k, v) in counts {
                            *g.entry(k).or_default() += v;
                        }
                    }).unwrap();
                    team.push(h);
                }
                finish(team);
            });
            rep.executions += execs.into_inner();
            rep.transitions += trans.into_inner();
            rep.ops_executed += opsx.into_inner();
            let mut b = bad.into_inner().unwrap();
            b.sort_by_key(|x| (x.2.len(), x.0, x.1));
            if let Some((_, _, h, v)) = b.into_iter().next() {
                found = Some(self.found(spec, make, h, v));
            }
            let mut res = results.into_inner().unwrap();
            res.sort_unstable_by_key(|r| (r.0, r.1));
            frontier.clear();
            for (parent, _, o, key) in res {
                let fresh = visited.insert(key);
                if (fresh || !*dedupe) && !(last && !*dedupe) {
                    nodes.push(Node { parent, seed: 0, op: o });
                    frontier.push(nodes.len() as u32 - 1);
                }
            }
            level += 1;
            if cut.into_inner() {
                rep.complete = false;
                break;
            }
        }
        rep.states = visited.len() as u64;
        rep.max_depth = level as u64;
        // sample histories: the last few nodes
        let k = nodes.len();
        for j in [k / 3, k.saturating_sub(1)] {
            if j < k && rep.samples.len() < 2 {
                let h = hist_of(&nodes, j);
                let s = show_hist(make, &h);
                let text = if s.len() > 24 {
                    format!("{} ... ({} operations) ... {}", s[..8].join("; "), s.len(), s[s.len() - 8..].join("; "))
                } else {
                    s.join("; ")
                };
                // the evidence is to be read by people
                rep.samples.push(match text.char_indices().nth(1500) {
                    Some((i, _)) => format!("{} ...", &text[..i]),
                    None => text,
                });
            }
        }
        rep.per_op = per_op.into_inner().unwrap().into_iter().collect();
        (rep, found)
    }

    fn found(&self, spec: &Spec, make: &Make, hist: Vec<Op>, violations: Vec<Violation>) -> Found {
        let kinds = spec.kinds.as_deref().unwrap_or(self.kinds);
        let mut v = violations;
        // this property's violations first
        v.sort_by_key(|v| !kinds.contains(&v.kind));
        Found { spec: spec.name.clone(), shown: show_hist(make, &hist), hist, violations: v }
    }
}

pub fn run_case(f: &CaseFn, lo: u64, hi: u64) -> (u64, Vec<Violation>) {
    rt::reset(false);
    let n = match rt::catch(|| f(lo, hi)) {
        Caught::Ok(n) => n,
        Caught::Panicked(m) => {
            rt::violate(Kind::Panic, format!("unexpected panic: {m}"));
            0
        }
        Caught::Refused(s, a) => {
            rt::violate(Kind::Alloc, format!("unreasonable request of {s} bytes aligned {a}"));
            0
        }
        Caught::Injected => {
            rt::violate(Kind::Panic, "an injected panic escaped");
            0
        }
    };
    cx().tracking_global = 0;
    (n, std::mem::take(&mut cx().violations))
}

pub fn show_hist(make: &Make, hist: &[Op]) -> Vec<String> {
    rt::reset(false);
    // showing needs an instance, whose construction may itself be what fails
    match rt::catch(|| {
        let s = make();
        let v: Vec<String> = hist.iter().map(|&o| s.show(o)).collect();
        s.end();
        v
    }) {
        Caught::Ok(v) => v,
        _ => hist.iter().map(|o| format!("{o:?}")).collect(),
    }
}
