//! Per-thread monitor: registry of every element and allocator ever created, the instrumented
//! arena behind `TrackAlloc`, injected faults, and the list of violations of the current execution.

use std::cell::UnsafeCell;
use std::mem::ManuallyDrop;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Kind {
    /// content, returned value or observer differs from the reference
    Semantic,
    /// owning or borrowing iterator differs from the reference
    Iter,
    /// binary-compatible iterator pair differs from EASTL's view
    Compat,
    /// capacity, growth, or stability of storage
    Capacity,
    /// raw memory does not decode to the content
    Layout,
    /// hash bucket structure or growth policy
    Buckets,
    /// NUL terminator missing
    Nul,
    /// content is not UTF-8
    Utf8,
    /// inline/overflow placement
    Pool,
    /// sizes, alignment, leaks, double frees, overruns
    Alloc,
    /// element dropped twice, garbage dropped, a slot read that holds no element
    Element,
    /// element never dropped
    LeakE,
    /// content after an injected panic
    Fault,
    /// a panic nobody injected, or a missing one
    Panic,
    /// process died
    Crash,
    /// did not terminate
    Hang,
    /// hash value differs
    Hash,
    /// not empty after clear
    Cleared,
    /// an impossible request is not refused
    Request,
    /// a reading operation writes, or shows another reader's doings
    Shared,
    /// the compiler accepts a clash of borrows, or rejects what is sound
    Borrow,
    /// may be sent to or shared with another thread though its content may not, or the reverse
    Threads,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: Kind,
    pub msg: String,
}

#[derive(Clone, Copy)]
pub struct Reg {
    pub val: u32,
    pub live: bool,
    pub adopted: bool,
}

#[derive(Clone, Copy)]
pub struct Block {
    pub ptr: usize,
    pub size: usize,
    pub align: usize,
    pub live: bool,
    pub owner: u32,
}

/// Payload of a panic injected into caller-supplied code.
pub struct InjectedFault;
/// Payload of the panic with which the arena refuses a request it cannot serve.
pub struct AllocRefused {
    pub size: usize,
    pub align: usize,
}

pub struct Ctx {
    pub regs: Vec<Reg>,
    pub violations: Vec<Violation>,
    pub blocks: Vec<Block>,
    pub arena: usize,
    pub arena_size: usize,
    pub bump: usize,
    pub live_blocks: usize,
    /// reuse freed blocks of the same size (last in, first out) instead of quarantining them
    pub reuse: bool,
    pub free_lists: Vec<(usize, usize, usize)>,
    /// an address, and how many bytes are free there, at which the next request that fits is to be
    /// served
    pub hint: Option<(usize, usize)>,
    /// requests and releases of the current operation
    pub allocs: Vec<(usize, usize)>,
    pub frees: Vec<(usize, usize)>,
    pub alloc_ops: u64,
    /// live allocator values: (id, live)
    pub allocators: Vec<bool>,
    /// remaining caller-supplied calls before the injected panic; negative: none
    pub fault_in: i64,
    pub calls: u64,
    pub faulted: bool,
    /// the calls that may panic are those of destructors, not of other code
    pub fault_drops: bool,
    /// allocators panic, not other code
    pub fault_allocs: bool,
    /// refuse any request larger than this
    pub max_request: usize,
    /// refuse any request of another size
    pub serve_only: Option<usize>,
    pub ops_executed: u64,
    pub tracking_global: u32,
    /// the how-many-th request from now on the process cannot serve; 0: none
    pub exhausted_in: u64,
    pub exhausted: bool,
    pub hash_calls: u64,
    pub clones: u64,
    pub drops: u64,
    /// what other readers do while this one is in the midst of its reading
    pub pause: Option<(*mut (), unsafe fn(*mut ()))>,
    /// the arena up to here is write-protected; addresses that were written nevertheless
    pub sealed: usize,
    pub breaches: usize,
    pub breach_at: usize,
}

pub const RZ: usize = 32;
const HDR: usize = 16;
const ARENA: usize = 1 << 32;
const RZ_BYTE: u8 = 0xFD;
const FRESH: u8 = 0xCD;
const FREED: u8 = 0xDD;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
    fn madvise(a: *mut u8, l: usize, advice: i32) -> i32;
}

thread_local! {
    static CTX: UnsafeCell<ManuallyDrop<Ctx>> = const { UnsafeCell::new(ManuallyDrop::new(Ctx {
        regs: Vec::new(), violations: Vec::new(), blocks: Vec::new(), arena: 0, arena_size: 0, bump: 0,
        live_blocks: 0, reuse: false, free_lists: Vec::new(), hint: None, allocs: Vec::new(), frees: Vec::new(),
        alloc_ops: 0, allocators: Vec::new(), fault_in: -1, calls: 0, faulted: false, fault_drops: false, fault_allocs: false,
        max_request: MAX_REQUEST, serve_only: None, ops_executed: 0, tracking_global: 0, exhausted_in: 0, exhausted: false, hash_calls: 0, clones: 0, drops: 0, pause: None, sealed: 0, breaches: 0, breach_at: 0,
    })) };
}

#[inline(always)]
pub fn cx() -> &'static mut Ctx {
    CTX.with(|c| unsafe { &mut **c.get() })
}

/// No container in this harness has a reason to ask for more than this at once.
const MAX_REQUEST: usize = 1 << 28;

/// Budget of allocator requests in one execution; beyond it the execution is declared runaway.
const ALLOC_BUDGET: u64 = 60_000_000;

pub fn reset(reuse: bool) {
    let c = cx();
    c.regs.clear();
    c.violations.clear();
    c.blocks.clear();
    if c.arena == 0 {
        if let Some(a) = ARENAS.lock().unwrap().pop() {
            c.arena = a;
            c.arena_size = ARENA;
        }
    }
    if c.arena == 0 {
        // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
        let p = unsafe { mmap(std::ptr::null_mut(), ARENA, 3, 0x2 | 0x20 | 0x4000, -1, 0) };
        assert!(p as isize != -1, "mmap failed");
        c.arena = p as usize;
        c.arena_size = ARENA;
    }
    if c.bump > 64 << 20 {
        // give big executions' memory back
        unsafe { madvise(c.arena as *mut u8, c.bump, 4) };
    }
    c.bump = 0;
    c.live_blocks = 0;
    c.reuse = reuse;
    c.free_lists.clear();
    c.hint = None;
    c.allocs.clear();
    c.frees.clear();
    c.alloc_ops = 0;
    c.allocators.clear();
    c.fault_in = -1;
    c.calls = 0;
    c.faulted = false;
    c.fault_drops = false;
    c.fault_allocs = false;
    c.max_request = MAX_REQUEST;
    c.serve_only = None;
    c.tracking_global = 0;
    c.exhausted_in = 0;
    c.exhausted = false;
    c.hash_calls = 0;
    c.clones = 0;
    c.drops = 0;
    c.pause = None;
    unseal();
}

/// A new execution within one case: the violations so far stay.
pub fn reset_keep_violations() {
    let v = std::mem::take(&mut cx().violations);
    reset(false);
    cx().violations = v;
}

static ARENAS: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());

/// Gives back what this thread's monitor holds; to be called by a thread that is about to end.
pub fn leave() {
    unseal();
    let c = cx();
    if c.arena != 0 {
        if c.bump > 1 << 20 {
            unsafe { madvise(c.arena as *mut u8, c.bump, 4) };
        }
        ARENAS.lock().unwrap().push(c.arena);
        c.arena = 0;
    }
    c.bump = 0;
    c.regs = Vec::new();
    c.violations = Vec::new();
    c.blocks = Vec::new();
    c.free_lists = Vec::new();
    c.allocs = Vec::new();
    c.frees = Vec::new();
    c.allocators = Vec::new();
}

#[cold]
pub fn violate(kind: Kind, msg: impl fmt::Display) {
    let c = cx();
    let t = std::mem::replace(&mut c.tracking_global, 0);
    if c.violations.len() < 64 {
        let v = Violation { kind, msg: msg.to_string() };
        cx().violations.push(v);
    }
    cx().tracking_global = t;
}

#[macro_export]
macro_rules! bad {
    ($k:ident, $($a:tt)*) => { $crate::rt::violate($crate::rt::Kind::$k, format!($($a)*)) };
}

/// `check!(cond, Kind, "message")`
#[macro_export]
macro_rules! check {
    ($c:expr, $k:ident, $($a:tt)*) => { if !$c { $crate::rt::violate($crate::rt::Kind::$k, format!($($a)*)) } };
}

/// Marks the start of one operation on the container under test.
pub fn op_start() {
    let c = cx();
    c.allocs.clear();
    c.frees.clear();
    c.ops_executed += 1;
}

/// A point inside of a reading operation, at which another reader may run.
#[inline]
pub fn pause() {
    if let Some((p, f)) = cx().pause {
        unsafe { f(p) }
    }
}

/// Write-protects all blocks there are; later ones are not protected.
pub fn seal() {
    watch();
    let c = cx();
    let n = (c.bump + 4095) & !4095;
    c.bump = n;
    c.sealed = n;
    c.breaches = 0;
    if n > 0 {
        assert_eq!(unsafe { mprotect(c.arena as *mut u8, n, 1) }, 0);
    }
}
pub fn unseal() {
    let c = cx();
    if c.sealed > 0 {
        unsafe { mprotect(c.arena as *mut u8, c.sealed, 3) };
        c.sealed = 0;
    }
}

/// Notes writes into sealed memory, and lets them happen.
fn watch() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    extern "C" fn handler(sig: i32, info: *const u8, _: *mut u8) {
        let at = unsafe { (info.add(16) as *const usize).read() };
        let c = cx();
        if c.sealed > 0 && at >= c.arena && at < c.arena + c.sealed {
            unsafe { mprotect(c.arena as *mut u8, c.sealed, 3) };
            c.sealed = 0;
            c.breaches += 1;
            c.breach_at = at;
        } else {
            // as if there were no handler: the instruction runs again
            unsafe { signal(sig, 0) };
        }
    }
    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, new: *const Action, old: *mut Action) -> i32;
    }
    ONCE.call_once(|| unsafe {
        // SA_SIGINFO | SA_ONSTACK
        let a = Action { handler: handler as extern "C" fn(i32, *const u8, *mut u8) as usize, mask: [0; 16], flags: 4 | 0x0800_0000, restorer: 0 };
        sigaction(11, &a, std::ptr::null_mut());
        sigaction(7, &a, std::ptr::null_mut());
    });
}

/// Every call from a container into caller-supplied code comes through here.
#[inline]
pub fn caller_code() {
    pause();
    let c = cx();
    c.calls += 1;
    if c.fault_in >= 0 && !c.fault_drops && !c.fault_allocs {
        if c.fault_in == 0 {
            c.fault_in = -1;
            c.faulted = true;
            std::panic::panic_any(InjectedFault);
        }
        c.fault_in -= 1;
    }
}

/// A destructor has done its work; it may panic.
#[inline]
pub fn destructor() {
    let c = cx();
    if c.fault_drops && c.fault_in >= 0 {
        if c.fault_in == 0 {
            c.fault_in = -1;
            c.faulted = true;
            std::panic::panic_any(InjectedFault);
        }
        c.fault_in -= 1;
    }
}

/// An allocator is asked for memory; it may panic instead.
#[inline]
pub fn request() {
    let c = cx();
    if c.fault_allocs && c.fault_in >= 0 {
        if c.fault_in == 0 {
            c.fault_in = -1;
            c.faulted = true;
            std::panic::panic_any(InjectedFault);
        }
        c.fault_in -= 1;
    }
}

impl Ctx {
    fn check_block_rz(&self, b: &Block) -> bool {
        unsafe {
            let lo = std::slice::from_raw_parts((b.ptr - RZ) as *const u8, RZ);
            let hi = std::slice::from_raw_parts((b.ptr + b.size) as *const u8, RZ);
            lo.iter().all(|&x| x == RZ_BYTE) && hi.iter().all(|&x| x == RZ_BYTE)
        }
    }

    pub fn alloc(&mut self, size: usize, align: usize, owner: u32) -> *mut u8 {
        self.alloc_ops += 1;
        if self.alloc_ops > ALLOC_BUDGET {
            violate(Kind::Hang, "runaway: the operation keeps allocating");
            std::panic::panic_any(AllocRefused { size, align });
        }
        self.allocs.push((size, align));
        if size == 0 {
            violate(Kind::Alloc, "zero-sized request to the allocator");
        }
        if align == 0 || !align.is_power_of_two() {
            violate(Kind::Alloc, format!("request with alignment {align}"));
            std::panic::panic_any(AllocRefused { size, align });
        }
        if self.serve_only.is_some_and(|s| s != size) || size > self.max_request || size > self.arena_size / 2 {
            std::panic::panic_any(AllocRefused { size, align });
        }
        if let Some((at, _)) = self.hint.filter(|&(at, room)| at % align == 0 && size + RZ <= room) {
            self.hint = None;
            self.put_block(at, size, align, owner);
            return at as *mut u8;
        }
        if self.reuse {
            if let Some(i) = self.free_lists.iter().rposition(|&(s, a, _)| s == size && a == align) {
                let (_, _, ptr) = self.free_lists.remove(i);
                self.put_block(ptr, size, align, owner);
                return ptr as *mut u8;
            }
        }
        let base = self.arena + self.bump + HDR + RZ;
        let a = align.max(16);
        let ptr = (base + a - 1) & !(a - 1);
        // an address that is not accidentally aligned to more than was asked for
        let ptr = if align < 16 { ptr + align } else if (ptr & align) == 0 { ptr + align } else { ptr };
        let ptr = (ptr + align - 1) & !(align - 1);
        let end = ptr + size + RZ;
        if end - self.arena > self.arena_size {
            std::panic::panic_any(AllocRefused { size, align });
        }
        self.bump = (end - self.arena + 15) & !15;
        self.put_block(ptr, size, align, owner);
        ptr as *mut u8
    }

    fn put_block(&mut self, ptr: usize, size: usize, align: usize, owner: u32) {
        unsafe {
            let idx = self.blocks.len() as u64;
            ((ptr - RZ - 8) as *mut u64).write_unaligned(idx ^ 0x5EED_5EED_0000_0000);
            std::ptr::write_bytes((ptr - RZ) as *mut u8, RZ_BYTE, RZ);
            std::ptr::write_bytes(ptr as *mut u8, FRESH, size);
            std::ptr::write_bytes((ptr + size) as *mut u8, RZ_BYTE, RZ);
        }
        self.blocks.push(Block { ptr, size, align, live: true, owner });
        self.live_blocks += 1;
    }

    /// The index of the block that starts at `p`.
    pub fn block_at(&self, p: usize) -> Option<usize> {
        if p < self.arena + RZ + 8 || p >= self.arena + self.bump {
            return None;
        }
        let idx = unsafe { ((p - RZ - 8) as *const u64).read_unaligned() } ^ 0x5EED_5EED_0000_0000;
        let idx = idx as usize;
        (idx < self.blocks.len() && self.blocks[idx].ptr == p).then_some(idx)
    }

    pub fn live_block_at(&self, p: usize) -> Option<Block> {
        self.block_at(p).map(|i| self.blocks[i]).filter(|b| b.live)
    }

    pub fn free(&mut self, p: usize, size: usize, align: usize, owner: u32) {
        self.alloc_ops += 1;
        self.frees.push((size, align));
        if let Some(i) = self.block_at(p) {
            let b = self.blocks[i];
            if !b.live {
                violate(Kind::Alloc, format!("block of {} bytes freed twice", b.size));
                return;
            }
            if b.size != size || b.align != align {
                violate(
                    Kind::Alloc,
                    format!("block requested as {} bytes aligned {} is released as {size} bytes aligned {align}", b.size, b.align),
                );
            }
            if b.owner != owner {
                violate(Kind::Alloc, format!("block of {} bytes released to another allocator than it came from", b.size));
            }
            if !self.check_block_rz(&b) {
                violate(Kind::Alloc, format!("bytes outside of a block of {} bytes were overwritten", b.size));
            }
            self.blocks[i].live = false;
            self.live_blocks -= 1;
            unsafe { std::ptr::write_bytes(p as *mut u8, FREED, b.size) };
            if self.reuse {
                self.free_lists.push((b.size, b.align, p));
            }
        } else {
            violate(Kind::Alloc, format!("release of {size} bytes aligned {align} that are no block of this allocator"));
        }
    }

    /// Checks the surroundings of all live blocks and the fill of all freed ones.
    pub fn check_heap(&mut self) {
        let mut msgs = Vec::new();
        let total = self.bump;
        for b in &self.blocks {
            if b.live {
                if !self.check_block_rz(b) {
                    msgs.push(format!("bytes outside of a block of {} bytes were overwritten", b.size));
                }
            } else if !self.reuse {
                let n = if total < (1 << 20) { b.size } else { b.size.min(64) };
                let s = unsafe { std::slice::from_raw_parts(b.ptr as *const u8, n) };
                if !s.iter().all(|&x| x == FREED) {
                    msgs.push(format!("block of {} bytes was written after its release", b.size));
                }
            }
        }
        for m in msgs.into_iter().take(4) {
            violate(Kind::Alloc, m);
        }
    }

    /// End of an execution: nothing may be left.
    pub fn check_end(&mut self) {
        self.check_heap();
        if self.faulted {
            // an operation cut short may leak
            return;
        }
        if self.live_blocks > 0 {
            let sizes: Vec<usize> = self.blocks.iter().filter(|b| b.live).map(|b| b.size).take(8).collect();
            violate(Kind::Alloc, format!("{} block(s) never released, of sizes {sizes:?}", self.live_blocks));
        }
        let leaked = self.regs.iter().filter(|r| r.live).count();
        if leaked > 0 {
            let vals: Vec<u32> = self.regs.iter().filter(|r| r.live).map(|r| r.val).take(8).collect();
            violate(Kind::LeakE, format!("{leaked} element(s) never dropped, with values {vals:?}"));
        }
        let a = self.allocators.iter().filter(|&&l| l).count();
        if a > 0 {
            violate(Kind::Alloc, format!("{a} allocator value(s) never dropped"));
        }
    }
}

/// Runs `f`, telling a normal return from a panic and its payload.
pub enum Caught<R> {
    Ok(R),
    Injected,
    Refused(usize, usize),
    Panicked(String),
}

pub fn catch<R>(f: impl FnOnce() -> R) -> Caught<R> {
    let t = cx().tracking_global;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Caught::Ok(r),
        Err(e) => {
            cx().tracking_global = t;
            if e.is::<InjectedFault>() {
                Caught::Injected
            } else if let Some(r) = e.downcast_ref::<AllocRefused>() {
                Caught::Refused(r.size, r.align)
            } else if let Some(s) = e.downcast_ref::<&str>() {
                Caught::Panicked(s.to_string())
            } else if let Some(s) = e.downcast_ref::<String>() {
                Caught::Panicked(s.clone())
            } else {
                Caught::Panicked("?".into())
            }
        }
    }
}

/// `f` must panic (by itself); returns whether it did.
pub fn must_panic<R>(what: &str, f: impl FnOnce() -> R) -> bool {
    match catch(f) {
        Caught::Panicked(_) => true,
        Caught::Ok(_) => {
            violate(Kind::Semantic, format!("{what}: must panic but returned"));
            false
        }
        Caught::Injected => false,
        Caught::Refused(s, a) => {
            violate(Kind::Semantic, format!("{what}: must be refused but asked the allocator for {s} bytes aligned {a}"));
            false
        }
    }
}
