//! The default hash functions, against definitions of their own.

use crate::rt::cx;
use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::{DefaultAllocator, DefaultHashMap};
use std::ffi::c_char;

fn hash<T>(v: &T) -> usize
where
    DefaultHash<T>: Hash<T>,
{
    <DefaultHash<T> as Hash<T>>::hash(v)
}

/// What converting a signed number of `bits` bits to C++'s `size_t` gives: its low bits are the
/// number's, all higher ones its sign.
fn sign_extend(raw: u64, bits: u32) -> u64 {
    let sign = raw >> (bits - 1) & 1;
    if bits == 64 || sign == 0 {
        raw
    } else {
        raw | !((1u64 << bits) - 1)
    }
}

/// Truncation toward zero of a float given by its fields; `None` outside of `size_t`'s range.
fn truncate(neg: bool, exp: i32, mant: u64, mant_bits: i32) -> Option<u64> {
    // the value is mant * 2^(exp - mant_bits), with mant's top bit at mant_bits
    let shift = exp - mant_bits;
    if exp < 0 || mant == 0 {
        return Some(0);
    }
    if exp > 63 {
        return None;
    }
    let v = if shift >= 0 { mant << shift } else { mant >> -shift };
    if neg && v != 0 {
        return None;
    }
    Some(v)
}
fn f32_ref(bits: u32) -> Option<u64> {
    let e = (bits >> 23 & 0xFF) as i32;
    if e == 0xFF {
        return None;
    }
    let m = (bits & 0x7F_FFFF) as u64;
    if e == 0 {
        return Some(0);
    }
    truncate(bits >> 31 == 1, e - 127, m | 1 << 23, 23)
}
fn f64_ref(bits: u64) -> Option<u64> {
    let e = (bits >> 52 & 0x7FF) as i32;
    if e == 0x7FF {
        return None;
    }
    let m = bits & ((1 << 52) - 1);
    if e == 0 {
        return Some(0);
    }
    truncate(bits >> 63 == 1, e - 1023, m | 1 << 52, 52)
}

/// All 8- and 16-bit values, both bools.
pub fn small(_: u64, _: u64) -> u64 {
    for b in [false, true] {
        check!(hash(&b) == if b { 1 } else { 0 }, Hash, "hash of {b} is {}", hash(&b));
    }
    for v in 0..=u8::MAX {
        check!(hash(&v) as u64 == v as u64, Hash, "hash of {v}u8 is {}", hash(&v));
        let i = v as i8;
        check!(hash(&i) as u64 == sign_extend(v as u64, 8), Hash, "hash of {i}i8 is {:#x}", hash(&i));
    }
    for v in 0..=u16::MAX {
        check!(hash(&v) as u64 == v as u64, Hash, "hash of {v}u16 is {}", hash(&v));
        let i = v as i16;
        check!(hash(&i) as u64 == sign_extend(v as u64, 16), Hash, "hash of {i}i16 is {:#x}", hash(&i));
    }
    2 + 512 + 131072
}

/// 32-bit integers and floats, by their bits.
pub fn words(lo: u64, hi: u64) -> u64 {
    let mut n = 0;
    for v in lo..hi {
        let v = v as u32;
        let i = v as i32;
        let f = f32::from_bits(v);
        check!(hash(&v) as u64 == v as u64, Hash, "hash of {v}u32 is {}", hash(&v));
        check!(hash(&i) as u64 == sign_extend(v as u64, 32), Hash, "hash of {i}i32 is {:#x}", hash(&i));
        n += 2;
        if let Some(w) = f32_ref(v) {
            check!(hash(&f) as u64 == w, Hash, "hash of {f:e}f32 is {} instead of {w}", hash(&f));
            n += 1;
        }
        if cx().violations.len() > 8 {
            break;
        }
    }
    n
}

/// 64-bit patterns: a window of 16 arbitrary bits at every position, over all zeros or ones, and
/// optionally the top bit flipped.
pub const WIDE: u64 = 49 << 16;
pub fn wide(lo: u64, hi: u64) -> u64 {
    let mut n = 0;
    for c in lo..hi {
        let (at, w) = (c >> 16, c & 0xFFFF);
        for fill in [0u64, !0] {
            for top in [0u64, 1 << 63] {
                let v = ((fill & !(0xFFFF << at)) | w << at) ^ top;
                let (i, us, is, f) = (v as i64, v as usize, v as isize, f64::from_bits(v));
                check!(hash(&v) as u64 == v, Hash, "hash of {v}u64 is {}", hash(&v));
                check!(hash(&i) as u64 == v, Hash, "hash of {i}i64 is {:#x}", hash(&i));
                check!(hash(&us) as u64 == v, Hash, "hash of {us}usize is {}", hash(&us));
                check!(hash(&is) as u64 == v, Hash, "hash of {is}isize is {:#x}", hash(&is));
                n += 4;
                if let Some(w) = f64_ref(v) {
                    check!(hash(&f) as u64 == w, Hash, "hash of {f:e}f64 is {} instead of {w}", hash(&f));
                    n += 1;
                }
            }
        }
        if cx().violations.len() > 8 {
            break;
        }
    }
    n
}

/// 64-bit floats: every sign and exponent with a window of 8 mantissa bits at every position over
/// all zeros or ones.
pub const DOUBLES: u64 = 4096 * 45;
pub fn doubles(lo: u64, hi: u64) -> u64 {
    let mut n = 0;
    for c in lo..hi {
        let (se, at) = (c / 45, c % 45);
        for w in 0..256u64 {
            for fill in [0u64, (1 << 52) - 1] {
                let v = se << 52 | ((fill & !(0xFF << at)) | w << at);
                let f = f64::from_bits(v);
                if let Some(w) = f64_ref(v) {
                    check!(hash(&f) as u64 == w, Hash, "hash of {f:e}f64 is {} instead of {w}", hash(&f));
                    n += 1;
                }
            }
        }
        if cx().violations.len() > 8 {
            break;
        }
    }
    n
}

/// One step of EASTL's string hash.
fn fnv_step(state: u32, byte: u8) -> u32 {
    let mut p = 0u64;
    // the 32-bit FNV prime, 2^24 + 2^8 + 0x93
    for s in [24, 8, 7, 4, 1, 0] {
        p += (state as u64) << s;
    }
    p as u32 ^ byte as u32
}
fn fnv(bytes: &[u8]) -> u64 {
    bytes.iter().fold(0x811C_9DC5, |s, &b| fnv_step(s, b)) as u64
}

fn forms(bytes: &[u8]) -> u64 {
    let want = fnv(bytes);
    let mut n = 0;
    if let Ok(s) = std::str::from_utf8(bytes) {
        let got = [<DefaultHash<str> as Hash<str>>::hash(s), hash::<&str>(&s)];
        check!(got.iter().all(|&g| g as u64 == want), Hash, "hash of the string {s:?} is {got:x?} instead of {want:x}");
        let e = eastl_rs::DefaultString::from(s);
        let g = hash::<eastl_rs::String<DefaultAllocator>>(&e);
        check!(g as u64 == want, Hash, "hash of the String {s:?} is {g:x} instead of {want:x}");
        n += 3;
    }
    if !bytes.contains(&0) {
        let mut c = bytes.to_vec();
        // what follows the terminator is not part of the string
        c.extend([0, 0xFF, b'x', 0]);
        let p = c.as_ptr() as *const c_char;
        let g = hash::<*const c_char>(&p);
        check!(g as u64 == want, Hash, "hash of the C string {bytes:x?} is {g:x} instead of {want:x}");
        n += 1;
    }
    n
}

/// All strings of up to two bytes followed by every third byte: cases are the first two bytes.
pub fn strings3(lo: u64, hi: u64) -> u64 {
    let mut n = 0;
    for c in lo..hi {
        let (a, b) = ((c >> 8) as u8, c as u8);
        if a == 0 {
            if b == 0 {
                n += forms(&[]);
            } else {
                n += forms(&[b]);
            }
            continue;
        }
        if b == 0 {
            continue;
        }
        n += forms(&[a, b]);
        for x in 1..=255 {
            n += forms(&[a, b, x]);
        }
        if cx().violations.len() > 8 {
            break;
        }
    }
    n
}

/// Every character, alone and after and before another.
pub fn chars(lo: u64, hi: u64) -> u64 {
    let mut n = 0;
    for c in lo..hi {
        let Some(c) = char::from_u32(c as u32).filter(|&c| c != '\0') else { continue };
        let mut b = [0; 4];
        let s = c.encode_utf8(&mut b).as_bytes().to_vec();
        n += forms(&s);
        n += forms(&[&s[..], b"z"].concat());
        n += forms(&[b"\xC3\xA9", &s[..]].concat());
        if cx().violations.len() > 8 {
            break;
        }
    }
    n
}

/// Strings of every length up to 4096: runs of one byte, and byte cycles.
pub fn lengths(lo: u64, hi: u64) -> u64 {
    let mut n = 0;
    for len in lo..hi {
        for b in [1u8, b'a', 0x7F, 0x80, 0xFF] {
            n += forms(&vec![b; len as usize]);
        }
        n += forms(&(0..len).map(|i| (i % 255 + 1) as u8).collect::<Vec<_>>());
        n += forms(&(0..len).map(|i| (i % 127 + 1) as u8).collect::<Vec<_>>());
    }
    n
}

/// Strings around every power of two beyond that.
pub fn long_lengths(lo: u64, hi: u64) -> u64 {
    let mut n = 0;
    for i in lo..hi {
        let len = (1usize << (12 + i / 4)) - 1 + [0, 1, 2, 999][i as usize % 4];
        for b in [b'a', 0xFF] {
            n += forms(&vec![b; len]);
        }
        n += forms(&(0..len).map(|i| (i % 251 + 1) as u8).collect::<Vec<_>>());
        // the same but for the last byte
        n += forms(&(0..len).map(|j| if j + 1 == len { b'b' } else { b'a' }).collect::<Vec<_>>());
    }
    n
}

/// A C++ program fills a table by EASTL's hash of each key; the Rust side finds the same bucket.
#[repr(C)]
struct RawTable {
    _pad: usize,
    buckets: *const usize,
    count: u32,
}
pub fn tables(_: u64, _: u64) -> u64 {
    let mut n = 0;
    macro_rules! ints {
        ($($t:ident $bits:expr),*) => {$({
            let mut vals: Vec<$t> = vec![0, 1, 2, 7, <$t>::MAX, <$t>::MAX - 1, <$t>::MIN, <$t>::MIN + 1, (0 as $t).wrapping_sub(1), (0 as $t).wrapping_sub(2), <$t>::MAX / 2, <$t>::MAX / 3];
            vals.sort();
            vals.dedup();
            for take in 1..=vals.len() {
                let mut m = DefaultHashMap::<$t, u32>::new();
                for v in &vals[..take] {
                    m.insert(*v, *v as u32);
                }
                for v in &vals[..take] {
                    let raw = (*v as u128 & ((1u128 << $bits) - 1)) as u64;
                    let h = if <$t>::MIN == 0 { raw } else { sign_extend(raw, $bits) };
                    n += in_bucket(&m, h, |k: *const $t| unsafe { *k == *v }, stringify!($t));
                    check!(m.get(v) == Some(&(*v as u32)), Hash, "{v}{} is not found", stringify!($t));
                }
            }
        })*};
    }
    ints!(u8 8, i8 8, u16 16, i16 16, u32 32, i32 32, u64 64, i64 64, usize 64, isize 64);
    let strs = ["", "a", "b", "Test", "é", "日本", "\u{10FFFF}", "The big brown fox jumped over the lazy dog"];
    for take in 1..=strs.len() {
        let mut m = DefaultHashMap::<&str, u32>::new();
        let mut o = DefaultHashMap::<eastl_rs::DefaultString, u32>::new();
        for (i, s) in strs[..take].iter().enumerate() {
            m.insert(s, i as u32);
            o.insert((*s).into(), i as u32);
        }
        for (i, s) in strs[..take].iter().enumerate() {
            n += in_bucket(&m, fnv(s.as_bytes()), |k: *const &str| unsafe { *k == *s }, "str");
            n += in_bucket(&o, fnv(s.as_bytes()), |k: *const eastl_rs::DefaultString| unsafe { (*k).as_str() == *s }, "String");
            check!(m.get(s) == Some(&(i as u32)), Hash, "{s:?} is not found");
            check!(o.get(&(*s).into()) == Some(&(i as u32)), Hash, "String {s:?} is not found");
        }
    }
    n
}

fn in_bucket<M, K>(m: &M, hash: u64, is: impl Fn(*const K) -> bool, what: &str) -> u64 {
    unsafe {
        let t = &*(m as *const M as *const RawTable);
        let size_of_entry = |k: usize| (k + std::mem::size_of::<super::hash::RPair<K, u32>>() + 7) & !7;
        let mut p = *t.buckets.add((hash % t.count as u64) as usize);
        let mut steps = 0;
        while p != 0 && steps < 64 {
            if is(p as *const K) {
                return 1;
            }
            p = *(size_of_entry(p) as *const usize);
            steps += 1;
        }
    }
    bad!(Hash, "a key of type {what} is not in the bucket where EASTL looks for it");
    1
}
