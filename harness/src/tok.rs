//! Element types. Tracked ones carry a serial number and verify on every use that they are a live
//! element; plain ones carry only a value.

use crate::rt::{caller_code, cx, violate, Kind, Reg};
use std::fmt;

/// An element as the reference model knows it.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct It {
    /// serial number, or `PENDING` for a clone the model has not seen yet
    pub ser: u32,
    pub val: u32,
}
pub const PENDING: u32 = u32::MAX;

impl It {
    pub fn cloned(self) -> It {
        It { ser: PENDING, val: self.val }
    }
}

pub trait Elem: Sized + Clone + fmt::Debug + 'static {
    const NAME: &'static str;
    const TRACKED: bool;
    /// number of distinct values (values are taken modulo this)
    const VALS: u64;
    fn make(val: u32) -> Self;
    /// the model's view of a new element
    fn mk(val: u32) -> (Self, It) {
        let e = Self::make(val);
        let it = It { ser: e.serial(), val: e.value() };
        (e, it)
    }
    fn serial(&self) -> u32;
    fn value(&self) -> u32;
    /// is this the element the model expects here?
    fn is(&self, it: &It) -> bool;
    /// takes over the serial number of a clone the model expects here
    fn adopt(&self, it: &mut It) -> bool;
}

pub fn new_reg(val: u32) -> u32 {
    let c = cx();
    let t = std::mem::replace(&mut c.tracking_global, 0);
    c.regs.push(Reg { val, live: true, adopted: false });
    c.tracking_global = t;
    (c.regs.len() - 1) as u32
}

pub fn drop_reg(ser: u32, intact: bool) {
    let c = cx();
    c.drops += 1;
    if !intact || ser as usize >= c.regs.len() {
        violate(Kind::Element, "dropped a slot that holds no element");
    } else if !c.regs[ser as usize].live {
        violate(Kind::Element, format!("element with value {} dropped twice", c.regs[ser as usize].val));
    } else {
        c.regs[ser as usize].live = false;
    }
}

fn live_reg(ser: u32, intact: bool) -> Option<Reg> {
    if !intact {
        return None;
    }
    cx().regs.get(ser as usize).copied().filter(|r| r.live)
}

const fn mix(ser: u32, i: u32) -> u32 {
    (ser ^ 0x9E37_79B9u32.wrapping_mul(i + 1)).wrapping_mul(0x85EB_CA6B) ^ 0xA5A5_0000
}

macro_rules! tracked {
    ($name:ident, $words:expr, $align:expr, $label:expr) => {
        tracked!($name, $words, $align, $label, |a: u32, b: u32| a == b, |a: u32, b: u32| a.partial_cmp(&b));
    };
    ($name:ident, $words:expr, $align:expr, $label:expr, $eq:expr, $cmp:expr) => {
        #[repr(C, align($align))]
        pub struct $name {
            ser: u32,
            body: [u32; $words],
        }
        impl $name {
            fn with(ser: u32) -> Self {
                let mut body = [0u32; $words];
                for i in 0..$words {
                    body[i] = mix(ser, i as u32);
                }
                $name { ser: if $words == 0 { ser | 0xA500_0000 } else { ser }, body }
            }
            fn intact(&self) -> bool {
                let s = self.ser();
                ($words != 0 || self.ser >> 24 == 0xA5)
                    && self.body.iter().enumerate().all(|(i, &w)| w == mix(s, i as u32))
            }
            fn ser(&self) -> u32 {
                if $words == 0 { self.ser & 0x00FF_FFFF } else { self.ser }
            }
        }
        impl Elem for $name {
            const NAME: &'static str = $label;
            const TRACKED: bool = true;
            const VALS: u64 = 1 << 32;
            fn make(val: u32) -> Self {
                Self::with(new_reg(val))
            }
            fn serial(&self) -> u32 {
                self.ser()
            }
            fn value(&self) -> u32 {
                match live_reg(self.ser(), self.intact()) {
                    Some(r) => r.val,
                    None => {
                        violate(Kind::Element, "read a slot that holds no live element");
                        0xBAD
                    }
                }
            }
            fn is(&self, it: &It) -> bool {
                if (self as *const Self as usize) % std::mem::align_of::<Self>() != 0 {
                    violate(Kind::Semantic, "element at a misaligned address");
                }
                self.intact() && self.ser() == it.ser && live_reg(self.ser(), true).is_some_and(|r| r.val == it.val)
            }
            fn adopt(&self, it: &mut It) -> bool {
                match live_reg(self.ser(), self.intact()) {
                    Some(r) if r.val == it.val && !r.adopted => {
                        cx().regs[self.ser() as usize].adopted = true;
                        it.ser = self.ser();
                        true
                    }
                    _ => false,
                }
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                caller_code();
                cx().clones += 1;
                Self::make(self.value())
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                drop_reg(self.ser(), self.intact());
                self.ser = 0xDEAD_DEAD;
                for w in self.body.iter_mut() {
                    *w = 0xDEAD_DEAD;
                }
                crate::rt::destructor();
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                crate::rt::pause();
                write!(f, "{}", self.value())
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                caller_code();
                let f: fn(u32, u32) -> bool = $eq;
                f(self.value(), o.value())
            }
        }
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                caller_code();
                let f: fn(u32, u32) -> Option<std::cmp::Ordering> = $cmp;
                f(self.value(), o.value())
            }
        }
    };
}

tracked!(T4, 0, 4, "4 bytes, tracked");
tracked!(T8, 1, 4, "8 bytes, tracked");
tracked!(T12, 2, 4, "12 bytes, tracked");
tracked!(T16, 3, 4, "16 bytes, tracked");
tracked!(T24, 5, 4, "24 bytes, tracked");
tracked!(T32, 7, 4, "32 bytes, tracked");
tracked!(T40, 9, 4, "40 bytes, tracked");
tracked!(A8, 1, 8, "8 bytes aligned 8, tracked");
tracked!(A16, 1, 16, "16 bytes aligned 16, tracked");
tracked!(A64, 1, 64, "64 bytes aligned 64, tracked");
// key types whose own equality and order are of no use to a container that was given others
tracked!(Never8, 1, 4, "own equality always false, own order always greater", |_, _| false, |_, _| Some(std::cmp::Ordering::Greater));
tracked!(Always8, 1, 4, "own equality always true, own order always equal", |_, _| true, |_, _| Some(std::cmp::Ordering::Equal));
tracked!(Odd8, 1, 4, "own equality inverted, own order reversed", |a, b| a != b, |a, b| b.partial_cmp(&a));
// a key whose own operators contradict themselves
tracked!(
    Ask8, 1, 4, "8 bytes with operators that contradict themselves, tracked",
    |_, _| crate::sys::unlawful::ask(),
    |_, _| if crate::sys::unlawful::ask() { Some(std::cmp::Ordering::Less) } else { None }
);

macro_rules! plain {
    ($name:ident, $t:ty, $vals:expr, $label:expr, $to:expr, $from:expr) => {
        #[derive(Clone, Copy, PartialEq)]
        #[repr(transparent)]
        pub struct $name(pub $t);
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                self.value().partial_cmp(&o.value())
            }
        }
        impl Elem for $name {
            const NAME: &'static str = $label;
            const TRACKED: bool = false;
            const VALS: u64 = $vals;
            fn make(val: u32) -> Self {
                let f: fn(u32) -> $t = $from;
                $name(f((val as u64 % Self::VALS) as u32))
            }
            fn serial(&self) -> u32 {
                0
            }
            fn value(&self) -> u32 {
                let f: fn($t) -> u32 = $to;
                f(self.0)
            }
            fn is(&self, it: &It) -> bool {
                self.value() as u64 == it.val as u64 % Self::VALS
            }
            fn adopt(&self, it: &mut It) -> bool {
                it.ser = 0;
                self.is(it)
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}", self.value())
            }
        }
    };
}
plain!(P1, u8, 256, "1 byte", |v| v as u32, |v| v as u8);
plain!(P2, u16, 65536, "2 bytes", |v| v as u32, |v| v as u16);
plain!(P3, [u8; 3], 1 << 24, "3 bytes", |v| u32::from_le_bytes([v[0], v[1], v[2], 0]), |v| {
    let b = v.to_le_bytes();
    [b[0], b[1], b[2]]
});
plain!(P4, u32, 1 << 32, "4 bytes", |v| v, |v| v);
plain!(P8, u64, 1 << 32, "8 bytes", |v| if (v >> 32) as u32 == !(v as u32) { v as u32 } else { 0xBAD0_BAD0 }, |v| (v as u64) | ((!v as u64) << 32));
plain!(P16, u128, 1 << 32, "16 bytes", |v| if (v >> 96) as u32 == !(v as u32) { v as u32 } else { 0xBAD0_BAD0 }, |v| (v as u128) | ((!v as u128) << 96));

/// `N` bytes, aligned 1, every one of which depends on the value.
#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Bytes<const N: usize>(pub [u8; N]);
impl<const N: usize> Bytes<N> {
    const fn bits() -> u32 {
        if N >= 4 {
            32
        } else {
            8 * N as u32
        }
    }
    fn of(v: u32) -> Self {
        let mut b = [0u8; N];
        for (i, x) in b.iter_mut().enumerate() {
            *x = if i < 4 { v.to_le_bytes()[i] } else { (mix(v, i as u32) >> 24) as u8 };
        }
        Bytes(b)
    }
}
impl<const N: usize> PartialEq for Bytes<N> {
    fn eq(&self, o: &Self) -> bool {
        self.value() == o.value()
    }
}
impl<const N: usize> PartialOrd for Bytes<N> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.value().partial_cmp(&o.value())
    }
}
impl<const N: usize> fmt::Debug for Bytes<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.value())
    }
}
const fn byte_name(n: usize) -> &'static str {
    macro_rules! names {
        ($($n:literal)*) => { match n { $($n => concat!($n, " bytes aligned 1"),)* _ => "bytes aligned 1" } };
    }
    names!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 20 23 24 25 31 32 33 40 48 63 64 65 100 127 128 129 200 255 256 257 300 512 1000)
}
impl<const N: usize> Elem for Bytes<N> {
    const NAME: &'static str = byte_name(N);
    const TRACKED: bool = false;
    const VALS: u64 = 1 << Self::bits();
    fn make(val: u32) -> Self {
        Self::of((val as u64 % Self::VALS) as u32)
    }
    fn serial(&self) -> u32 {
        0
    }
    fn value(&self) -> u32 {
        let mut v = [0u8; 4];
        for i in 0..N.min(4) {
            v[i] = self.0[i];
        }
        let v = u32::from_le_bytes(v);
        if self.0 == Self::of(v).0 {
            v
        } else {
            // no value any element was made from
            0xBAD0_BAD0
        }
    }
    fn is(&self, it: &It) -> bool {
        self.value() as u64 == it.val as u64 % Self::VALS
    }
    fn adopt(&self, it: &mut It) -> bool {
        it.ser = 0;
        self.is(it)
    }
}

impl Elem for () {
    const NAME: &'static str = "nothing";
    const TRACKED: bool = false;
    const VALS: u64 = 1;
    fn make(_: u32) {}
    fn serial(&self) -> u32 {
        0
    }
    fn value(&self) -> u32 {
        0
    }
    fn is(&self, _: &It) -> bool {
        true
    }
    fn adopt(&self, it: &mut It) -> bool {
        it.ser = 0;
        true
    }
}

/// Compares a slice with the model, adopting pending clones first.
pub fn same<E: Elem>(got: &[E], want: &mut [It]) -> bool {
    if got.len() != want.len() {
        return false;
    }
    let mut ok = true;
    for (g, w) in got.iter().zip(want.iter_mut()) {
        if w.ser == PENDING {
            ok &= g.adopt(w);
        }
        ok &= g.is(w);
    }
    ok
}

pub fn show<E: Elem>(got: &[E]) -> String {
    let v: Vec<String> = got.iter().take(40).map(|e| {
        format!("{:?}", unsafe { std::slice::from_raw_parts(e as *const E as *const u8, 4.min(std::mem::size_of::<E>())) })
    }).collect();
    format!("[{}]", v.join(" "))
}
pub fn show_it(w: &[It]) -> String {
    format!("{:?}", w.iter().take(40).map(|i| (i.ser, i.val)).collect::<Vec<_>>())
}
