//! `TrackAlloc`: the instrumented allocator given to the containers, and the process-wide
//! allocator, which records what `DefaultAllocator` asks of it.

use crate::rt::{cx, violate, Kind};
use eastl_rs::Allocator;
use std::alloc::{GlobalAlloc, Layout, System};

#[repr(C)]
pub struct TrackAlloc {
    pub id: u32,
    ser: u32,
    magic: u64,
}

const MAGIC: u64 = 0xA110_CA70_2A11_0CA7;

impl TrackAlloc {
    pub fn new(id: u32) -> Self {
        let c = cx();
        c.allocators.push(true);
        TrackAlloc { id, ser: c.allocators.len() as u32 - 1, magic: MAGIC ^ id as u64 }
    }
    fn ok(&self) -> bool {
        self.magic == MAGIC ^ self.id as u64 && cx().allocators.get(self.ser as usize) == Some(&true)
    }
}

impl Default for TrackAlloc {
    fn default() -> Self {
        Self::new(0)
    }
}

impl Clone for TrackAlloc {
    fn clone(&self) -> Self {
        if !self.ok() {
            violate(Kind::Alloc, "cloned a dead or uninitialized allocator");
        }
        Self::new(self.id)
    }
}

impl Drop for TrackAlloc {
    fn drop(&mut self) {
        if !self.ok() {
            violate(Kind::Alloc, "dropped a dead or uninitialized allocator");
        } else {
            cx().allocators[self.ser as usize] = false;
        }
        self.magic = 0xDEAD;
    }
}

unsafe impl Allocator for TrackAlloc {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        if !self.ok() {
            violate(Kind::Alloc, "request to a dead or uninitialized allocator");
        }
        crate::rt::request();
        cx().alloc(n, align, self.id).cast()
    }

    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        if !self.ok() {
            violate(Kind::Alloc, "release to a dead or uninitialized allocator");
        }
        cx().free(p as usize, n, align, self.id)
    }
}

/// The process-wide allocator: the system's, except that requests made while `tracking_global` is
/// set are served and checked by the arena.
pub struct Global;

unsafe impl GlobalAlloc for Global {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // thread-local with const init and no destructor: safe to touch from here
        let c = cx();
        if c.tracking_global > 0 && std::thread::panicking() {
            // what the panic machinery allocates is not the container's
            c.tracking_global = 0;
        }
        if c.tracking_global > 0 {
            c.tracking_global = 0;
            if c.exhausted_in == 1 {
                // stays so
                c.exhausted = true;
                return std::ptr::null_mut();
            }
            c.exhausted_in = c.exhausted_in.saturating_sub(1);
            let p = if l.size() > c.max_request { std::ptr::null_mut() } else { c.alloc(l.size(), l.align(), 0xD0) };
            c.tracking_global = 1;
            p
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let c = cx();
        let a = p as usize;
        if c.arena != 0 && a >= c.arena && a < c.arena + c.arena_size {
            let t = std::mem::replace(&mut c.tracking_global, 0);
            c.free(a, l.size(), l.align(), 0xD0);
            c.tracking_global = t;
        } else if c.tracking_global > 0 {
            let t = std::mem::replace(&mut c.tracking_global, 0);
            violate(Kind::Alloc, "release of memory that was not requested here");
            c.tracking_global = t;
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if cx().tracking_global > 0 && !std::thread::panicking() {
            let p = self.alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new_size: usize) -> *mut u8 {
        let c = cx();
        let a = p as usize;
        if c.arena != 0 && a >= c.arena && a < c.arena + c.arena_size {
            let n = self.alloc(Layout::from_size_align_unchecked(new_size, l.align()));
            std::ptr::copy_nonoverlapping(p, n, l.size().min(new_size));
            self.dealloc(p, l);
            n
        } else {
            System.realloc(p, l, new_size)
        }
    }
}

#[global_allocator]
static GLOBAL: Global = Global;

/// Runs `f` with the process-wide allocator recorded.
pub fn tracked<R>(on: bool, f: impl FnOnce() -> R) -> R {
    if on {
        cx().tracking_global = 1;
    }
    let r = f();
    cx().tracking_global = 0;
    r
}

/// What a container under test allocates with.
pub trait TestAlloc: Allocator + Default + 'static {
    const NAME: &'static str;
    const GLOBAL: bool;
    fn make(id: u32) -> Self;
}
impl TestAlloc for TrackAlloc {
    const NAME: &'static str = "tracked allocator";
    const GLOBAL: bool = false;
    fn make(id: u32) -> Self {
        TrackAlloc::new(id)
    }
}
impl TestAlloc for eastl_rs::DefaultAllocator {
    const NAME: &'static str = "default allocator";
    const GLOBAL: bool = true;
    fn make(_: u32) -> Self {
        eastl_rs::DefaultAllocator::default()
    }
}
