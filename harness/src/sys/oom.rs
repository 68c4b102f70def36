//! Memory running out: one process per history and failing request.

use crate::alloc::tracked;
use crate::rt::{cx, reset, reset_keep_violations};
use eastl_rs::{Allocator, DefaultAllocator};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

type D = DefaultAllocator;

/// Ends the child: the history finished without needing the failing request.
const FINISHED: i32 = 70;
/// The history went on although a request was not served.
const WENT_ON: i32 = 71;
/// The raw request itself returned null.
const NULL: i32 = 72;
/// A panic.
const PANICKED: i32 = 73;

/// Names and bodies of the histories. Elements are plain words, so that no other code allocates.
const HISTORIES: &[(&str, fn())] = &[
    ("allocate_raw_aligned(24, 8)", || null(DefaultAllocator::new().allocate_raw_aligned(24, 8) as usize)),
    ("allocate_raw_aligned(24, 64)", || null(DefaultAllocator::new().allocate_raw_aligned(24, 64) as usize)),
    ("allocate_raw(24)", || null(DefaultAllocator::new().allocate_raw(24) as usize)),
    ("allocate::<u64>(3)", || null(DefaultAllocator::new().allocate::<u64>(3) as usize)),
    ("growing a Vector", || {
        let mut v = eastl_rs::Vector::<u64, D>::default();
        (0..40).for_each(|i| v.push(i));
        v.append(&[1, 2, 3]);
        v.reserve(100);
        v.insert(0, 9);
        assert_eq!(v.len(), 44);
        v.clear();
        v.assign(&[4, 5, 6, 7, 8]);
    }),
    ("Vector::with_capacity", || {
        let mut v = eastl_rs::Vector::<u64, D>::with_capacity(10);
        v.push(1);
    }),
    ("Vector::from", || {
        let v = eastl_rs::Vector::<u64, D>::from(&[1u64, 2, 3][..]);
        assert_eq!(v[2], 3);
    }),
    ("growing a Deque at the back", || {
        let mut v = eastl_rs::Deque::<[u64; 5], D>::default();
        (0..60).for_each(|i| v.push_back([i; 5]));
        assert_eq!(v.len(), 60);
    }),
    ("growing a Deque at the front", || {
        let mut v = eastl_rs::Deque::<[u64; 5], D>::default();
        (0..60).for_each(|i| v.push_front([i; 5]));
        assert_eq!(v.len(), 60);
    }),
    ("growing a Queue", || {
        let mut v = eastl_rs::Queue::<[u64; 5], D>::default();
        (0..60).for_each(|i| {
            v.push([i; 5]);
            if i % 3 == 0 {
                v.pop();
            }
        });
    }),
    ("growing a List", || {
        moveit::moveit! { let mut v = unsafe { eastl_rs::List::<u64, D>::new_in(D::new()) }; }
        let v = unsafe { v.as_mut().get_unchecked_mut() };
        (0..6).for_each(|i| {
            v.push_back(i);
            v.push_front(i);
        });
        assert_eq!(v.size(), 12);
    }),
    ("growing a HashMap", || {
        let mut v = unsafe { eastl_rs::HashMap::<u64, u64, D>::new_in(D::new()) };
        (0..30).for_each(|i| {
            v.insert(i, i);
        });
        *v.entry(77).or_insert(1) += 1;
        assert_eq!(v.len(), 31);
    }),
    ("growing a HashSet", || {
        let mut v = unsafe { eastl_rs::HashSet::<u64, D>::new_in(D::new()) };
        (0..30).for_each(|i| {
            v.insert(i);
        });
        assert_eq!(v.len(), 30);
    }),
    ("growing a VectorMap", || {
        let mut v = eastl_rs::VectorMap::<u64, u64, D, eastl_rs::Less<u64>>::new_in(D::new(), Default::default());
        (0..20).for_each(|i| {
            v.insert(i * 7 % 20, i);
        });
        if let eastl_rs::vector_map::Entry::Vacant(e) = v.entry(77) {
            *e.insert(1) += 1;
        }
        assert_eq!(v.len(), 21);
    }),
    ("growing a String", || {
        let mut v = eastl_rs::String::<D>::new_in(D::new());
        (0..60).for_each(|_| v.push('x'));
        v.insert(3, 'é');
        v.reserve(300);
        let w = eastl_rs::String::<D>::from(v.as_str());
        v.assign("hello");
        assert_eq!(w.len(), 62);
    }),
    ("String::with_capacity", || {
        let mut v = eastl_rs::String::<D>::with_capacity(5);
        v.push('x');
    }),
    ("String::from", || {
        let v = eastl_rs::String::<D>::from("hello");
        assert_eq!(v.len(), 5);
    }),
    ("overflowing a FixedVector", || {
        moveit::moveit! { let mut v = unsafe { eastl_rs::fixed_vector::FixedVector::<u64, 4, D>::new() }; }
        let v = unsafe { v.as_mut().get_unchecked_mut() };
        (0..40).for_each(|i| v.push(i));
        assert_eq!(v.len(), 40);
    }),
    ("overflowing a FixedList", || {
        moveit::moveit! { let mut v = unsafe { eastl_rs::FixedList::<u64, 3, D>::new_in(D::new()) }; }
        let v = unsafe { v.as_mut().get_unchecked_mut() };
        (0..8).for_each(|i| v.push_back(i));
        assert_eq!(v.size(), 8);
    }),
];

fn null(p: usize) {
    if p == 0 {
        std::process::exit(NULL);
    }
}

/// Runs history `h` with its `k`-th request failing.
pub fn child(h: usize, k: u64) -> ! {
    reset(false);
    cx().exhausted_in = k;
    let r = std::panic::catch_unwind(|| tracked(true, HISTORIES[h].1));
    cx().tracking_global = 0;
    let code = match r {
        Err(_) => PANICKED,
        Ok(()) if cx().exhausted => WENT_ON,
        Ok(()) => FINISHED,
    };
    std::process::exit(code)
}

pub const OOM: u64 = HISTORIES.len() as u64;

pub fn oom(lo: u64, hi: u64) -> u64 {
    let me = std::env::current_exe().expect("own path");
    let mut n = 0;
    for h in lo..hi {
        reset_keep_violations();
        let name = HISTORIES[h as usize].0;
        for k in 1..200u64 {
            n += 1;
            let st = Command::new(&me)
                .args(["oom", &h.to_string(), &k.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status();
            let st = match st {
                Ok(s) => s,
                Err(e) => panic!("cannot start a process: {e}"),
            };
            match (st.code(), st.signal()) {
                // the process was told to abort, or the request was refused
                (_, Some(6)) | (Some(PANICKED | NULL), _) => {}
                (Some(FINISHED), _) => {
                    check!(k > 1, Request, "{name} makes no request");
                    break;
                }
                (Some(WENT_ON), _) => bad!(Request, "{name} goes on although request {k} is not served"),
                (_, Some(s)) => bad!(Request, "{name}: signal {s} when request {k} is not served"),
                (Some(c), _) => bad!(Request, "{name}: exit code {c} when request {k} is not served"),
                _ => {}
            }
        }
    }
    n
}
