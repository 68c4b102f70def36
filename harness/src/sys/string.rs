//! `String`.

use super::{must, word};
use crate::alloc::{tracked, TestAlloc, TrackAlloc};
use crate::explore::{op, Op, System};
use crate::rt::{catch, cx, must_panic, op_start, Caught};
use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::String as Str;
use std::str::FromStr;

pub const PUSH: u32 = 1;
pub const POP: u32 = 2;
pub const INSERT: u32 = 3;
pub const REMOVE: u32 = 4;
pub const ASSIGN: u32 = 5;
pub const RESERVE: u32 = 6;
pub const CLONE: u32 = 7;
pub const CLONED_KEEP: u32 = 8;
pub const REBUILD: u32 = 9;
pub const UPPER: u32 = 10;
pub const FILL: u32 = 11;
pub const DRAIN: u32 = 12;
pub const ASSIGN_SELF: u32 = 13;
/// assign a text of `a` characters, from the `b`-th on
pub const ASSIGN_LONG: u32 = 14;
pub const REBUILD_LONG: u32 = 15;

/// One character of each encoded length, and their last ones.
pub const CHARS: [char; 9] = ['a', 'é', '€', '😀', '\0', '\u{7f}', '\u{7ff}', '\u{ffff}', '\u{10ffff}'];
const TEXTS: [&str; 8] = ["", "x", "ß", "a€", "日本", "\0", "😀b", "0123456789abcdefg"];

#[derive(Clone, Copy)]
pub struct Lim {
    pub chars: usize,
    pub cap: usize,
    /// how many of `CHARS` are used
    pub alpha: usize,
    pub few: bool,
    /// everything at selected places, from chosen long histories
    pub large: bool,
}

/// A text of `n` characters, of every encoded length in turn.
fn text(n: u32, from: u32) -> String {
    (0..n).map(|i| CHARS[((i + from) * 5 % 9) as usize]).collect()
}

pub fn show_op(o: Op) -> String {
    let c = CHARS.get(o.b as usize).copied().unwrap_or('?');
    match o.c {
        PUSH => format!("push {c:?}"),
        POP => "pop".into(),
        INSERT => format!("insert {c:?} at byte {}", o.a as i32 as i64),
        REMOVE => format!("remove at byte {}", o.a as i32 as i64),
        ASSIGN => format!("assign {:?}", TEXTS[o.a as usize % 8]),
        ASSIGN_SELF => "assign a copy of the content".into(),
        RESERVE => format!("reserve {}", o.a),
        CLONE => "clone, drop the original".into(),
        CLONED_KEEP => "clone, change and drop the clone".into(),
        REBUILD => format!("replace by {} of {}", ["new", "with_capacity", "from", "from_str", "from_in", "default"][o.a as usize % 6], o.b),
        UPPER => "make_ascii_uppercase".into(),
        ASSIGN_LONG => format!("assign a text of {} characters", o.a),
        REBUILD_LONG => format!("replace by {} of a text of {} characters", ["new", "with_capacity", "from", "from_str", "from_in", "default"][o.b as usize % 6], o.a),
        FILL => format!("push {c:?} x{}", o.a),
        DRAIN => format!("pop x{}", o.a),
        0 => "-".into(),
        _ => format!("{o:?}"),
    }
}

pub struct StrSys<A: TestAlloc> {
    s: Str<A>,
    m: String,
    lim: Lim,
    clone: Option<fn(&Str<A>) -> Str<A>>,
}

impl<A: TestAlloc> StrSys<A> {
    pub fn new(lim: Lim) -> Box<dyn System> {
        let s: Str<A> = if lim.cap % 2 == 0 { Str::new() } else { Str::new_in(A::make(4)) };
        Box::new(StrSys { s, m: String::new(), lim, clone: None })
    }
}
impl StrSys<TrackAlloc> {
    pub fn cloning(lim: Lim) -> Box<dyn System> {
        Box::new(StrSys { s: Str::new_in(TrackAlloc::new(4)), m: String::new(), lim, clone: Some(|s: &Str<TrackAlloc>| s.clone()) })
    }
}

/// The NUL terminator and the room for it.
fn nul<A: TestAlloc>(s: &Str<A>, what: &str) {
    unsafe {
        let (b, e, c) = (word(s, 0), word(s, 1), word(s, 2));
        if b == 0 {
            return;
        }
        match cx().live_block_at(b) {
            Some(blk) => {
                check!(blk.size > c.wrapping_sub(b), Nul, "{what}: storage of {} bytes leaves no room for NUL beyond a capacity of {}", blk.size, c.wrapping_sub(b));
                if e < b || e >= b + blk.size {
                    bad!(Nul, "{what}: the byte after the content lies outside of the storage");
                    return;
                }
                let z = *(e as *const u8);
                check!(z == 0, Nul, "{what}: the byte after the content ({} bytes, capacity {}) is {z:#x}, not NUL", e - b, c - b);
            }
            None => bad!(Layout, "{what}: begin does not point to a live block"),
        }
    }
}

pub fn observe<A: TestAlloc>(s: &mut Str<A>, m: &str, what: &str) {
    let bytes = s.as_bytes();
    if let Err(e) = std::str::from_utf8(bytes) {
        bad!(Utf8, "{what}: content {bytes:x?} is not UTF-8: {e}");
        bad!(Semantic, "{what}: content {bytes:x?} is not {m:?}");
        return;
    }
    check!(bytes == m.as_bytes(), Semantic, "{what}: content is {:?} instead of {m:?}", String::from_utf8_lossy(bytes));
    check!(s.len() == m.len(), Semantic, "{what}: len is {} instead of {}", s.len(), m.len());
    check!(s.is_empty() == m.is_empty(), Semantic, "{what}: is_empty is {}", s.is_empty());
    check!(s.len() <= s.capacity(), Semantic, "{what}: length {} exceeds the capacity {}", s.len(), s.capacity());
    check!(s.is_full() == (s.len() == s.capacity()), Semantic, "{what}: is_full is {} at {} of {}", s.is_full(), s.len(), s.capacity());
    nul(s, what);
    unsafe {
        let (b, e, c) = (word(s, 0), word(s, 1), word(s, 2));
        check!(e.wrapping_sub(b) == m.len(), Layout, "{what}: end - begin is {} for {} bytes", e.wrapping_sub(b), m.len());
        check!(c.wrapping_sub(b) == s.capacity() && c >= e, Layout, "{what}: capacity pointer is off");
        if b != 0 && e.wrapping_sub(b) == m.len() {
            check!(std::slice::from_raw_parts(b as *const u8, m.len()) == m.as_bytes(), Layout, "{what}: memory between begin and end is not the content");
        }
    }
}

fn views<A: TestAlloc>(s: &mut Str<A>, m: &str) {
    check!(s.as_str() == m, Semantic, "as_str is {:?} instead of {m:?}", s.as_str());
    check!(&**s == m, Semantic, "deref is {:?} instead of {m:?}", &**s);
    check!(AsRef::<str>::as_ref(s) == m, Semantic, "as_ref::<str> differs from {m:?}");
    check!(AsRef::<[u8]>::as_ref(s) == m.as_bytes(), Semantic, "as_ref::<[u8]> differs from {m:?}");
    check!((&mut **s).len() == m.len(), Semantic, "deref_mut differs from {m:?}");
    check!(format!("{s}") == m, Semantic, "Display prints {:?} instead of {m:?}", format!("{s}"));
    check!(format!("{s:?}") == format!("\"{m}\""), Semantic, "Debug prints {:?} instead of {m:?} in quotes", format!("{s:?}"));
    check!(s.chars().eq(m.chars()), Semantic, "chars() differs from {m:?}");
    let h = DefaultHash::<Str<A>>::hash(s);
    check!(h == DefaultHash::<str>::hash(m), Semantic, "hash of {m:?} depends on more than the content");
    // equality depends on the content only
    let mut other: Str<A> = Str::with_capacity(m.len() + 7);
    other.assign(m);
    check!(*s == other && !(*s != other), Semantic, "not equal to a string of the same content {m:?}");
    other.push('!');
    check!(*s != other && !(*s == other), Semantic, "{m:?} equals a longer string");
    if let Some(c) = m.chars().next() {
        let mut third: Str<A> = Str::from(m);
        third.remove(0);
        third.insert(0, if c == 'Z' { 'Y' } else { 'Z' });
        check!(*s != third, Semantic, "{m:?} equals another string");
    }
}

impl<A: TestAlloc> System for StrSys<A> {
    fn ops(&self, _lvl: u8, out: &mut Vec<Op>) {
        if self.lim.large {
            let b = self.m.len();
            let n = self.m.chars().count() as u32;
            for k in 0..4 {
                out.push(op(PUSH, 0, k));
                out.push(op(FILL, 40, k));
            }
            out.push(op(POP, 0, 0));
            out.push(op(DRAIN, n / 2, 0));
            out.push(op(DRAIN, n + 1, 0));
            for i in super::deque::places(b) {
                for k in 0..4 {
                    out.push(op(INSERT, i as u32, k));
                }
                out.push(op(REMOVE, i as u32, 0));
            }
            for k in [0, 1, 100, 1000, 70_000] {
                out.push(op(RESERVE, k, 0));
            }
            for k in 0..TEXTS.len() as u32 {
                out.push(op(ASSIGN, k, 0));
            }
            out.push(op(ASSIGN_SELF, 0, 0));
            for k in [n / 2, n, n + 1, 2 * n + 3] {
                out.push(op(ASSIGN_LONG, k, 1));
            }
            for k in 2..5 {
                out.push(op(REBUILD_LONG, n, k));
            }
            if self.clone.is_some() {
                out.push(op(CLONE, 0, 0));
                out.push(op(CLONED_KEEP, 0, 0));
            }
            out.push(op(UPPER, 0, 0));
            return;
        }
        let n = self.m.chars().count();
        let bytes = self.m.len();
        let cap = self.s.capacity();
        let room = n < self.lim.chars;
        let fits = |w: usize| {
            let mut c = cap;
            let mut l = bytes;
            for _ in 0..w {
                if l == c {
                    c = (c * 2).max(1);
                }
                l += 1;
            }
            c <= self.lim.cap
        };
        let alpha = &CHARS[..self.lim.alpha];
        for (k, c) in alpha.iter().enumerate() {
            if room && fits(c.len_utf8()) {
                out.push(op(PUSH, 0, k as u32));
            }
        }
        out.push(op(POP, 0, 0));
        if self.lim.few {
            for i in [0, bytes / 2] {
                if room && fits(4) {
                    out.push(op(INSERT, i as u32, 1));
                }
                out.push(op(REMOVE, i as u32, 0));
            }
            if cap + 2 <= self.lim.cap {
                out.push(op(RESERVE, 1, 0));
                out.push(op(ASSIGN, 1, 0));
            }
            return;
        }
        for i in 0..=bytes + 2 {
            for (k, c) in alpha.iter().enumerate() {
                let refused = i > bytes || !self.m.is_char_boundary(i);
                if refused && k > 3 {
                    continue;
                }
                if refused || (room && fits(c.len_utf8())) {
                    out.push(op(INSERT, i as u32, k as u32));
                }
            }
            out.push(op(REMOVE, i as u32, 0));
        }
        out.push(op(REMOVE, u32::MAX, 0));
        out.push(op(INSERT, u32::MAX, 1));
        for (k, t) in TEXTS.iter().enumerate() {
            if cap + t.len() + 1 <= self.lim.cap && t.chars().count() <= self.lim.chars {
                out.push(op(ASSIGN, k as u32, 0));
            }
        }
        if cap + bytes + 1 <= self.lim.cap {
            out.push(op(ASSIGN_SELF, 0, 0));
        }
        for r in [0, 1, 4] {
            if cap + r + 1 <= self.lim.cap {
                out.push(op(RESERVE, r as u32, 0));
            }
        }
        if self.clone.is_some() {
            out.push(op(CLONE, 0, 0));
            out.push(op(CLONED_KEEP, 0, 0));
        }
        out.push(op(REBUILD, 0, 0));
        out.push(op(REBUILD, 5, 0));
        for r in [0, 1, 3] {
            out.push(op(REBUILD, 1, r));
        }
        for k in [2, 3, 4] {
            for t in [0usize, 1, 3, 6] {
                if TEXTS[t].chars().count() <= self.lim.chars {
                    out.push(op(REBUILD, k, t as u32));
                }
            }
        }
        out.push(op(UPPER, 0, 0));
    }

    fn step(&mut self, o: Op, full: bool) {
        op_start();
        let g = A::GLOBAL;
        let s = &mut self.s;
        let m = &mut self.m;
        let ch = CHARS.get(o.b as usize).copied().unwrap_or('a');
        match o.c {
            PUSH => {
                must("push", || tracked(g, || s.push(ch)));
                m.push(ch);
            }
            FILL => {
                for _ in 0..o.a {
                    must("push", || tracked(g, || s.push(ch)));
                    m.push(ch);
                }
            }
            POP | DRAIN => {
                for _ in 0..if o.c == POP { 1 } else { o.a } {
                    let got = must("pop", || tracked(g, || s.pop())).flatten();
                    let want = m.pop();
                    check!(got == want, Semantic, "pop returned {got:?} instead of {want:?}");
                }
            }
            INSERT => {
                let i = o.a as i32 as isize as usize;
                if i > m.len() {
                    must_panic("insert past the end", || s.insert(i, ch));
                } else if !m.is_char_boundary(i) {
                    match catch(|| s.insert(i, ch)) {
                        Caught::Panicked(_) => {}
                        _ => bad!(Utf8, "inserting at byte {i} inside a character of {m:?} was not refused"),
                    }
                } else {
                    must("insert", || tracked(g, || s.insert(i, ch)));
                    m.insert(i, ch);
                }
            }
            REMOVE => {
                let i = o.a as i32 as isize as usize;
                if i < m.len() && !m.is_char_boundary(i) {
                    match catch(|| s.remove(i)) {
                        Caught::Panicked(_) => {}
                        _ => bad!(Utf8, "removing at byte {i} inside a character of {m:?} was not refused"),
                    }
                } else {
                    let got = must("remove", || tracked(g, || s.remove(i))).flatten();
                    let want = if i < m.len() { Some(m.remove(i)) } else { None };
                    check!(got == want, Semantic, "remove at byte {i} returned {got:?} instead of {want:?}");
                }
            }
            ASSIGN => {
                let t = TEXTS[o.a as usize];
                must("assign", || tracked(g, || s.assign(t)));
                *m = t.to_string();
            }
            ASSIGN_LONG => {
                let t = text(o.a, o.b);
                must("assign", || tracked(g, || s.assign(&t)));
                *m = t;
            }
            REBUILD_LONG => {
                let t = text(o.a, 2);
                let n = match o.b {
                    2 => must("from", || tracked(g, || Str::from(&t[..]))),
                    3 => must("from_str", || tracked(g, || Str::from_str(&t).unwrap())),
                    _ => must("from_in", || tracked(g, || Str::from_in(&t, A::make(6)))),
                };
                if let Some(n) = n {
                    let old = std::mem::replace(&mut self.s, n);
                    tracked(g, || drop(old));
                    *m = t;
                }
            }
            ASSIGN_SELF => {
                let t = m.clone();
                must("assign", || tracked(g, || s.assign(&t)));
            }
            RESERVE => {
                let cap = s.capacity();
                must("reserve", || tracked(g, || s.reserve(o.a as usize)));
                check!(s.capacity() >= s.len() + o.a as usize && s.capacity() >= cap, Semantic, "reserve {} leaves a capacity of {} at length {}", o.a, s.capacity(), s.len());
            }
            CLONE | CLONED_KEEP => {
                let f = self.clone.unwrap();
                if let Some(mut c) = must("clone", || f(s)) {
                    observe(&mut c, m, "the clone");
                    check!(*s == c, Semantic, "the clone does not equal its source");
                    if o.c == CLONE {
                        drop(std::mem::replace(&mut self.s, c));
                    } else {
                        c.push('q');
                        observe(&mut c, &format!("{m}q"), "the clone after a push");
                        c.assign("other");
                        observe(&mut c, "other", "the clone after assign");
                    }
                }
            }
            REBUILD => {
                let t = TEXTS[o.b as usize % TEXTS.len()];
                let n = match o.a {
                    0 => must("new", || tracked(g, Str::new)),
                    1 => must("with_capacity", || tracked(g, || Str::with_capacity(o.b as usize))),
                    2 => must("from", || tracked(g, || Str::from(t))),
                    3 => must("from_str", || tracked(g, || Str::from_str(t).unwrap())),
                    4 => must("from_in", || tracked(g, || Str::from_in(t, A::make(6)))),
                    _ => must("default", || tracked(g, Str::default)),
                };
                if let Some(n) = n {
                    if o.a == 1 {
                        check!(n.capacity() >= o.b as usize, Semantic, "with_capacity({}) has a capacity of {}", o.b, n.capacity());
                    }
                    let old = std::mem::replace(&mut self.s, n);
                    tracked(g, || drop(old));
                    *m = if matches!(o.a, 2..=4) { t.to_string() } else { String::new() };
                }
            }
            UPPER => {
                s.make_ascii_uppercase();
                m.make_ascii_uppercase();
            }
            _ => {}
        }
        if full {
            observe(&mut self.s, &self.m, &show_op(o));
            if std::str::from_utf8(self.s.as_bytes()).is_ok() {
                // the views build strings of their own
                let (a, f) = (cx().allocs.clone(), cx().frees.clone());
                let (s, m) = (&mut self.s, &self.m);
                tracked(false, || views(s, m));
                cx().allocs = a;
                cx().frees = f;
            }
        }
    }

    fn key(&self, out: &mut Vec<u8>) {
        out.extend(self.s.as_bytes());
        out.push(0xFF);
        out.extend((self.s.capacity() as u32).to_le_bytes());
    }

    fn end(self: Box<Self>) {
        let s = self.s;
        tracked(A::GLOBAL, || drop(s));
    }

    fn show(&self, o: Op) -> String {
        show_op(o)
    }
}

/// Every Unicode scalar value, in every position of a small string.
pub fn every_char(lo: u64, hi: u64) -> u64 {
    let mut n = 0;
    for code in lo..hi {
        let Some(c) = char::from_u32(code as u32) else { continue };
        n += 1;
        crate::rt::reset_keep_violations();
        let what = format!("{c:?} (U+{code:04X})");
        let mut s: Str<TrackAlloc> = Str::new();
        let mut m = String::new();
        s.push(c);
        m.push(c);
        observe(&mut s, &m, &format!("push {what}"));
        s.insert(0, 'é');
        m.insert(0, 'é');
        s.insert(2, c);
        m.insert(2, c);
        observe(&mut s, &m, &format!("insert {what}"));
        s.push('x');
        m.push('x');
        let g = s.remove(2);
        check!(g == Some(m.remove(2)), Semantic, "remove of {what} returned {g:?}");
        observe(&mut s, &m, &format!("remove {what}"));
        s.pop();
        m.pop();
        let g = s.pop();
        check!(g == m.pop(), Semantic, "pop of {what} returned {g:?}");
        observe(&mut s, &m, &format!("pop {what}"));
        let t: String = [c, 'a', c].iter().collect();
        s.assign(&t);
        observe(&mut s, &t, &format!("assign {what}"));
        for i in 0..t.len() {
            if !t.is_char_boundary(i) {
                // remove inside a character; panics are slow, so only for some characters
                if code % 64 == 0 {
                    check!(matches!(catch(|| s.remove(i)), Caught::Panicked(_)), Utf8, "removing inside of {what} was not refused");
                    check!(matches!(catch(|| s.insert(i, 'a')), Caught::Panicked(_)), Utf8, "inserting inside of {what} was not refused");
                    observe(&mut s, &t, &format!("refused index inside {what}"));
                }
            }
        }
        let c2 = s.clone();
        check!(c2 == s, Semantic, "clone of {what} differs");
        drop(c2);
        drop(s);
        cx().check_end();
        if cx().violations.len() > 3 {
            break;
        }
    }
    n
}

const PAIRED: [char; 8] = ['a', 'b', 'A', '\0', '\u{1}', 'é', 'è', '😀'];
/// How many texts of up to three of these there are.
pub const PAIRS: u64 = 1 + 8 + 64 + 512;
fn paired(i: u64) -> String {
    let (mut n, mut i) = if i == 0 { (0, 0) } else if i < 9 { (1, i - 1) } else if i < 73 { (2, i - 9) } else { (3, i - 73) };
    let mut t = String::new();
    while n > 0 {
        t.push(PAIRED[(i % 8) as usize]);
        i /= 8;
        n -= 1;
    }
    t
}
/// Every pair of texts: they compare equal, and hash alike, as their contents do.
pub fn every_pair(lo: u64, hi: u64) -> u64 {
    let mut n = 0;
    crate::rt::reset_keep_violations();
    let made = |t: &str, k: u64| -> Str<TrackAlloc> {
        let mut s: Str<TrackAlloc> = Str::with_capacity(k as usize % 5);
        s.assign(t);
        s
    };
    let all: Vec<(String, Str<TrackAlloc>)> = (0..PAIRS).map(|i| (paired(i), made(&paired(i), i))).collect();
    let judge = |s: &Str<TrackAlloc>, t: &str, z: &Str<TrackAlloc>, u: &str| {
        check!((s == z) == (t == u) && (s != z) == (t != u), Semantic, "{t:?} == {u:?} is {}", s == z);
    };
    for i in lo..hi {
        let t = paired(i);
        let s = made(&t, i + 1);
        let h = DefaultHash::<Str<TrackAlloc>>::hash(&s);
        for (u, z) in &all {
            n += 1;
            judge(&s, &t, z, u);
            if t == *u {
                check!(h == DefaultHash::<Str<TrackAlloc>>::hash(z), Semantic, "two strings {t:?} hash differently");
            }
        }
        // in the midst of a longer one
        for k in [1, 7, 8, 15, 16, 31, 63, 255] {
            for around in ["x", "\0"] {
                let pad = around.repeat(k);
                let t = format!("{pad}{t}{pad}");
                let s = made(&t, i);
                for j in [i.saturating_sub(1), i, (i + 1) % PAIRS, (i ^ 8) % PAIRS, (i * 7) % PAIRS] {
                    n += 1;
                    let u = format!("{pad}{}{pad}", paired(j));
                    judge(&s, &t, &made(&u, j), &u);
                }
            }
        }
    }
    drop(all);
    cx().check_end();
    n
}
