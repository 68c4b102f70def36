//! Which containers may be sent to and shared with other threads, for every kind of content and
//! allocator.

use eastl_rs::compare::Compare;
use eastl_rs::deque::Deque;
use eastl_rs::equals::EqualTo;
use eastl_rs::fixed_list::FixedList;
use eastl_rs::fixed_vector::FixedVector;
use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::hash_map::HashMap;
use eastl_rs::hash_set::HashSet;
use eastl_rs::list::List;
use eastl_rs::queue::Queue;
use eastl_rs::string::String as EString;
use eastl_rs::vector::Vector;
use eastl_rs::vector_map::VectorMap;
use eastl_rs::{Allocator, Map, Set};
use std::cell::Cell;
use std::marker::PhantomData;
use std::sync::MutexGuard;

/// Whether a type may be sent, and shared, as the compiler sees it.
struct May<T: ?Sized>(PhantomData<T>);
trait NotSend {
    const SEND: bool = false;
}
trait NotSync {
    const SYNC: bool = false;
}
impl<T: ?Sized> NotSend for May<T> {}
impl<T: ?Sized> NotSync for May<T> {}
impl<T: ?Sized + Send> May<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> May<T> {
    const SYNC: bool = true;
}

macro_rules! content {
    ($n:ident, $inner:ty) => {
        /// an element, an allocator or a comparator
        #[derive(Default)]
        #[allow(dead_code)]
        pub struct $n(PhantomData<$inner>);
        impl PartialEq for $n {
            fn eq(&self, _: &Self) -> bool {
                true
            }
        }
        impl PartialOrd for $n {
            fn partial_cmp(&self, _: &Self) -> Option<std::cmp::Ordering> {
                None
            }
        }
        impl std::fmt::Debug for $n {
            fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                Ok(())
            }
        }
        impl Hash<$n> for DefaultHash<$n> {
            fn hash(_: &$n) -> usize {
                0
            }
        }
        impl<K> Compare<K> for $n {
            fn compare(_: &K, _: &K) -> bool {
                false
            }
        }
        unsafe impl Allocator for $n {
            fn allocate_raw_aligned(&mut self, _: usize, _: usize) -> *mut () {
                std::ptr::null_mut()
            }
            unsafe fn deallocate_raw_aligned(&mut self, _: *mut (), _: usize, _: usize) {}
        }
    };
}
content!(Both, u8);
content!(SendOnly, Cell<u8>);
content!(SyncOnly, MutexGuard<'static, u8>);
content!(Neither, *mut u8);

struct Row {
    name: String,
    send: bool,
    sync: bool,
    all_send: bool,
    all_sync: bool,
    /// the container is declared to be as its content is
    declared: bool,
}

/// What a type needs its parts to be: `own` parts it owns, `shared` parts it only refers to.
macro_rules! row {
    ($out:expr, $declared:expr, $t:ty, [$($p:ty),*]) => {
        $out.push(Row {
            name: std::any::type_name::<$t>().to_string(),
            send: May::<$t>::SEND,
            sync: May::<$t>::SYNC,
            all_send: true $(&& May::<$p>::SEND)*,
            all_sync: true $(&& May::<$p>::SYNC)*,
            declared: $declared,
        });
    };
}
/// A shared borrow may go to another thread only if what it leads to may be shared.
macro_rules! lent {
    ($out:expr, $t:ty, [$($p:ty),*]) => {
        $out.push(Row {
            name: std::any::type_name::<$t>().to_string(),
            send: May::<$t>::SEND,
            sync: May::<$t>::SYNC,
            all_send: true $(&& May::<$p>::SYNC)*,
            all_sync: true $(&& May::<$p>::SYNC)*,
            declared: false,
        });
    };
}

macro_rules! one_part {
    ($out:expr, $($a:ty)*) => {$(
        row!($out, true, EString<$a>, [$a]);
    )*};
}
macro_rules! two_parts {
    ($out:expr, $t:ty: $($a:ty)*) => {$(
        row!($out, true, Vector<$t, $a>, [$t, $a]);
        row!($out, true, FixedVector<$t, 2, $a>, [$t, $a]);
        row!($out, true, Deque<'static, $t, $a>, [$t, $a]);
        row!($out, true, Queue<'static, $t, $a>, [$t, $a]);
        row!($out, false, List<$t, $a>, [$t, $a]);
        row!($out, false, FixedList<$t, 2, $a>, [$t, $a]);
        row!($out, true, HashSet<$t, $a, DefaultHash<$t>, EqualTo<$t>>, [$t, $a]);
        row!($out, false, <Vector<$t, $a> as IntoIterator>::IntoIter, [$t, $a]);
        row!($out, false, eastl_rs::deque::iter::IntoIter<'static, $t, $a>, [$t, $a]);
    )*};
}
macro_rules! three_parts {
    ($out:expr, $k:ty, $v:ty: $($a:ty)*) => {$(
        row!($out, true, HashMap<$k, $v, $a, DefaultHash<$k>, EqualTo<$k>>, [$k, $v, $a]);
        row!($out, false, Set<$k, $a, $v>, [$k, $a, $v]);
    )*};
}
macro_rules! four_parts {
    ($out:expr, $k:ty, $v:ty, $a:ty: $($c:ty)*) => {$(
        row!($out, true, VectorMap<$k, $v, $a, $c>, [$k, $v, $a, $c]);
        row!($out, true, Map<$k, $v, $a, $c>, [$k, $v, $a, $c]);
    )*};
}

fn rows() -> Vec<Row> {
    let mut o = vec![];
    one_part!(o, Both SendOnly SyncOnly Neither);
    macro_rules! with_first {
        ($($t:ty)*) => {$(
            two_parts!(o, $t: Both SendOnly SyncOnly Neither);
            lent!(o, eastl_rs::deque::iter::Iter<'static, $t>, [$t]);
            row!(o, false, eastl_rs::deque::iter::IterMut<'static, $t>, [$t]);
            lent!(o, eastl_rs::hash_set::iter::Iter<'static, $t>, [$t]);
            with_second!($t: Both SendOnly SyncOnly Neither);
        )*};
    }
    macro_rules! with_second {
        ($k:ty: $($v:ty)*) => {$(
            three_parts!(o, $k, $v: Both SendOnly SyncOnly Neither);
            lent!(o, eastl_rs::hash_map::iter::Iter<'static, $k, $v>, [$k, $v]);
            row!(o, false, eastl_rs::hash_map::iter::IterMut<'static, $k, $v>, [$k, $v]);
            with_third!($k, $v: Both SendOnly SyncOnly Neither);
        )*};
    }
    macro_rules! with_third {
        ($k:ty, $v:ty: $($a:ty)*) => {$(
            four_parts!(o, $k, $v, $a: Both SendOnly SyncOnly Neither);
        )*};
    }
    with_first!(Both SendOnly SyncOnly Neither);
    o
}

pub fn threads(_: u64, _: u64) -> u64 {
    // the method must be able to tell
    assert!(May::<Both>::SEND && May::<Both>::SYNC && May::<SendOnly>::SEND && !May::<SendOnly>::SYNC);
    assert!(!May::<SyncOnly>::SEND && May::<SyncOnly>::SYNC && !May::<Neither>::SEND && !May::<Neither>::SYNC);
    let rows = rows();
    for r in &rows {
        let name = r.name.replace("mc::sys::threads::", "");
        check!(!r.send || r.all_send, Threads, "{name} may be sent to another thread, though not all it holds may be");
        check!(!r.sync || r.all_sync, Threads, "{name} may be shared between threads, though not all it holds may be");
        if r.declared {
            check!(r.send || !r.all_send, Threads, "{name} cannot be sent to another thread, though all it holds may be");
            check!(r.sync || !r.all_sync, Threads, "{name} cannot be shared between threads, though all it holds may be");
        }
    }
    2 * rows.len() as u64
}
